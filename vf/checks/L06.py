"""Access attempts in a REPL session against the reference interpreter."""
from ..core import Part, Discard
from ..lang import N, Fn, Cls, Interp, Err, EnumV, render, show, num

RULE = ("random REPL sessions that declare classes with private attributes and methods (declared, from constructor parameters, in a "
        "subclass), class constants, constants in every scope and enums, then try 8-40 legal and illegal ways of reading, calling, "
        "writing and shadowing them, observing the protected value after every attempt; non-trivial = at least 3 refused attempts "
        "and 3 observations")

PRIV = ["x", "y", "z"]


def oneline(sts):
    return " ".join(l.strip() for l in render(sts).split("\n") if l.strip())


class G:
    def __init__(self, s):
        self.s = s
        self.I = Interp()
        self.steps = []
        self.refused = self.seen = 0
        self.count = {}
        self.n = 0

    def c(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def line(self, *sts):
        """Runs statements as one REPL line."""
        I = self.I
        n = len(I.out)
        err = False
        src = oneline(list(sts))
        try:
            for st in sts:
                if st.k == "expr":
                    v = I.ev(st.a[0], None)
                    if v is not None:
                        I.out.append(show(v))
                else:
                    I.stmt(st, None, False)
        except Err:
            err = True
            self.refused += 1
            del I.frames[1:]
        self.steps.append((src, I.out[n:], err))
        return not err

    def bad(self, src):
        """A line the compiler must refuse."""
        self.refused += 1
        self.steps.append((src, [], True))

    def val(self):
        return N("lit", self.s.pick([0, 1, 7, True, False, 2.5]))

    def show(self, e):
        self.seen += 1
        return self.line(N("print", e))

    # -- classes
    def klass(self):
        s = self.s
        name = "P"
        c = Cls(name)
        privs = s.subset(PRIV, 0.7) or ["x"]
        self.privs = privs
        byparam = [p for p in privs if s.below(2)]
        for p in privs:
            if p not in byparam or s.below(3) == 0:
                c.members.append(("private", p))
        ps = [("w", None, "var")] + [(p, None, "private") for p in byparam]
        s_ps = ps if s.below(2) else ps[::-1]
        body = [N("expr", N("setattr", N("this"), p, num(i + 3))) for i, p in enumerate(privs) if p not in byparam]
        c.members.append(("method", Fn("init", s_ps, body)))
        self.initn = len(s_ps)
        if s.below(2):
            c.members.append(("const", "K", num(9)))
            self.K = True
        else:
            self.K = False
        for p in privs:
            th = N("get", N("this"), p)
            c.members.append(("method", Fn("get" + p, [], [N("return", th)])))
            c.members.append(("method", Fn("set" + p, [("v", None, "")], [N("expr", N("setattr", N("this"), p, N("var", "v")))])))
            c.members.append(("method", Fn("add" + p, [("v", None, "")], [N("expr", N("csetattr", N("this"), p, s.pick("+-*|&^/"), N("var", "v"))), N("return", th)])))
            c.members.append(("method", Fn("peek" + p, [("o", None, "")], [N("return", N("get", N("var", "o"), p))])))
            c.members.append(("method", Fn("poke" + p, [("o", None, "")], [N("return", N("csetattr", N("var", "o"), p, "+", num(1)))])))
            c.members.append(("method", Fn("mk" + p, [], [N("return", N("fn", Fn("", [], th, "arrow", True)))])))
            c.members.append(("method", Fn("run" + p, [("v", None, "")], [N("return", N("mcall", N("this"), p, [N("var", "v")], False))])))
        f = Fn("pm", [("v", None, "")], [N("return", N("list", [N("lit", "pm"), N("var", "v"), N("get", N("this"), privs[0])]))])
        f.private = True
        c.members.append(("method", f))
        c.members.append(("method", Fn("callpm", [("v", None, "")], [N("return", N("mcall", N("this"), "pm", [N("var", "v")], False))])))
        c.members.append(("method", Fn("otherpm", [("o", None, "")], [N("return", N("mcall", N("var", "o"), "pm", [num(1)], False))])))
        self.line(N("class", c))
        self.sub = s.below(2)
        if self.sub:
            d = Cls("S", name)
            p = privs[0]
            d.members.append(("method", Fn("sub", [], [N("return", N("get", N("this"), p))])))
            d.members.append(("method", Fn("subset", [], [N("return", N("csetattr", N("this"), p, "+", num(1)))])))
            d.members.append(("method", Fn("subpm", [], [N("return", N("mcall", N("this"), "pm", [num(1)], False))])))
            d.members.append(("method", Fn("superpm", [], [N("return", N("scall", "pm", [num(1)], False))])))
            d.members.append(("method", Fn("superpmv", [], [N("return", N("sget", "pm"))])))
            self.line(N("class", d))
        self.objs = []
        self.new()

    def new(self):
        self.n += 1
        cls = "S" if self.sub and self.s.below(2) else "P"
        o = "o%d" % self.n
        self.line(N("var", [(o, N("call", N("var", cls), [self.val() for _ in range(self.initn)], False))]))
        self.objs.append((o, cls))

    def private_op(self):
        s = self.s
        o, cls = s.pick(self.objs)
        p = s.pick(self.privs)
        v = N("var", o)
        k = s.below(20)
        get = N("mcall", v, "get" + p, [], False)
        if k == 0 and len(self.objs) < 4:
            return self.new()
        if k == 1:
            self.line(N("expr", N("mcall", v, "set" + p, [num(s.int(1, 99))], False)))
        elif k == 2:
            self.line(N("print", N("mcall", v, "add" + p, [num(s.int(1, 9))], False)))
        elif k == 3:
            self.n += 1
            self.line(N("var", [("k%d" % self.n, N("mcall", v, "mk" + p, [], False))]))
            self.show(N("call", N("var", "k%d" % self.n), [], False))
        elif k == 4:
            self.line(N("expr", N("mcall", v, "set" + p, [N("fn", Fn("", [("q", None, "")], N("list", [N("var", "q")]), "arrow", True))], False)))
            self.line(N("print", N("mcall", v, "run" + p, [num(5)], False)))
            self.line(N("print", N("mcall", v, p, [num(5)], False)))
            self.line(N("expr", N("mcall", v, "set" + p, [num(s.int(1, 99))], False)))
        elif k == 5:
            self.line(N("print", N("mcall", v, "callpm", [num(s.int(0, 9))], False))) if cls == "P" else None
        elif k == 6:
            self.line(N("print", N("get", v, p)))
        elif k == 7:
            self.line(N("print", N("mcall", v, p, [num(1)], False)))
        elif k == 8:
            self.line(N("expr", N("csetattr", v, p, s.pick("+-*/|&^"), num(1))))
        elif k == 9:
            self.line(N("print", N("mcall", v, "pm", [num(1)], False)))
        elif k == 10:
            self.line(N("print", N("get", v, "pm")))
        elif k == 11:
            self.line(N("print", N("mcall", N("var", s.pick(["P", cls])), "pm", [num(1)], False)))
        elif k == 12:
            other = N("var", s.pick(self.objs)[0])
            self.line(N("print", N("mcall", v, s.pick(["peek", "poke"]) + p, [other], False)))
        elif k == 13:
            other = N("var", s.pick(self.objs)[0])
            self.line(N("print", N("mcall", v, "otherpm", [other], False)))
        elif k == 14 and cls == "S":
            self.line(N("print", N("mcall", v, s.pick(["sub", "subset", "subpm", "superpm", "superpmv"]), [], False)))
        elif k == 15:
            # writing from outside makes a public attribute of that name; the private one keeps its value
            self.c("written from outside")
            self.line(N("expr", N("setattr", v, p, num(s.int(1000, 1999)))))
            self.show(N("get", v, p))
        elif k == 16:
            self.line(N("def", Fn("reach", [("o", None, "")], [N("return", N("get", N("var", "o"), p))])))
            self.line(N("print", N("call", N("var", "reach"), [v], False)))
        elif k == 17:
            self.line(N("print", N("optget", v, p)))
        elif k == 18:
            d = Cls("Thief")
            d.members.append(("private", p))
            d.members.append(("method", Fn("steal", [("o", None, "")], [N("return", N("get", N("var", "o"), p))])))
            self.line(N("class", d))
            self.line(N("print", N("mcall", N("call", N("var", "Thief"), [], False), "steal", [v], False)))
        elif self.K:
            j = s.below(5)
            if j == 0:
                self.line(N("expr", N("setattr", N("var", cls), "K", num(1))))
            elif j == 1:
                self.line(N("expr", N("csetattr", N("var", cls), "K", "+", num(1))))
            elif j == 2:
                self.line(N("expr", N("setattr", v, "K", num(77))))
            elif j == 3:
                self.line(N("def", Fn("ck", [("c", None, "")], [N("expr", N("setattr", N("var", "c"), "K", num(2)))])))
                self.line(N("expr", N("call", N("var", "ck"), [N("var", cls)], False)))
            else:
                self.line(N("print", N("get", v, "K")))
            self.show(N("get", N("var", "P"), "K"))
        self.show(get)

    # -- constants
    def const_decl(self):
        s = self.s
        self.n += 1
        a = "A%d" % self.n
        k = s.below(4)
        if k == 0:
            late = "late%d" % self.n
            f = Fn(late, [], [N("expr", N("set", a, num(5))) if s.below(2) else N("expr", N("cset", a, "+", num(1)))])
            self.line(N("def", f))
            self.late.append(late)
        if k == 1:
            b = "B%d" % self.n
            self.line(N("undecl", [a, b], N("list", [self.val(), num(3)]), "const"))
            self.consts.append(b)
            self.I.consts.add(b)
        elif k == 2:
            b = "B%d" % self.n
            self.line(N("const", [(a, num(4)), (b, self.val())]))
            self.consts.append(b)
            self.I.consts.add(b)
        else:
            self.line(N("const", [(a, self.val() if s.below(3) else N("list", [num(1)]))]))
        self.consts.append(a)
        self.I.consts.add(a)

    def const_op(self):
        s = self.s
        if not self.consts or s.below(6) == 0 and len(self.consts) < 6:
            return self.const_decl()
        a = s.pick(self.consts)
        op = s.pick(["=", "+=", "-=", "*=", "/=", "&=", "|=", "^="])
        k = s.below(12)
        t = "%s %s 2" % (a, op)
        if k == 0:
            self.bad("%s;" % t)
        elif k == 1:
            self.bad("def w() { %s; }" % t)
        elif k == 2:
            self.bad("{ { %s; } }" % t)
        elif k == 3:
            self.bad("var h = def () => %s;" % t)
        elif k == 4:
            self.bad("for (%s = 0; %s < 3; %s += 1) {}" % (a, a, a))
        elif k == 5:
            self.bad("class Q { m() { %s; } }" % t)
        elif k == 6:
            self.bad("var u = 0; [%s] = [1, 2];" % s.pick([a + ", u", "u, " + a]))
        elif k == 7:
            self.bad("print(\"no\"); %s;" % t)
        elif k == 8:
            self.bad(s.pick(["if (true) %s;", "while (true) { %s; }", "switch (1) { case 1: { %s; } }", "print(%s);", "var u = (%s);",
                             "var u = def () => { return def () => { %s; }; };"]) % t)
        elif k == 9:
            self.line(N("block", [N("var", [(a, num(1))]), N("expr", N("set", a, num(2))), N("print", N("var", a))]))
        elif k == 10:
            self.line(N("def", Fn("sh", [(a, None, "")], [N("expr", N("cset", a, "+", num(3))), N("return", N("var", a))])))
            self.line(N("print", N("call", N("var", "sh"), [num(1)], False)))
        elif self.late:
            self.line(N("expr", N("call", N("var", s.pick(self.late)), [], False)))
        self.show(N("var", a))

    def local_const(self):
        s = self.s
        op = s.pick(["=", "+=", "-=", "*=", "/=", "&=", "|=", "^="])
        decl = s.pick(["const l = 1;", "const k = 2, l = 1;", "const [k, l] = [1, 2];", "const [l, k] = [1, 2];"])
        use = s.pick(["l %s 2;", "{ l %s 2; }", "var g = def () => { l %s 2; };", "def g() { def h() { l %s 2; } }", "print(l %s 2);",
                      "class Q { m() { l %s 2; } }", "var u = 1; { var v = 2; l %s v; }", "for (var i = 0; i < 2; i += 1) { l %s i; }"]) % op
        if s.below(6) == 0:
            use = "var u = 0; [u, l] = [1, 2];"
        wrap = s.pick(["{ %s %s }", "def f() { %s %s }", "var f = def () => { %s %s };", "class W { m() { %s %s } }",
                       "def f() { if (true) { %s %s } }"])
        self.bad(wrap % (decl, use))

    # -- enums
    def enum_op(self):
        s = self.s
        if self.enum is None:
            names = ["A", "B", "C", "D"][:1 + s.below(4)]
            vals = [(n, None if s.below(2) else N("lit", s.pick([5, "five", 2.5, True, None]))) for n in names]
            self.line(N("enum", "E", vals))
            self.enum = names
            return
        n = s.pick(self.enum)
        k = s.below(8)
        if k == 0:
            self.line(N("expr", N("setattr", N("var", "E"), n, num(50))))
        elif k == 1:
            self.line(N("expr", N("csetattr", N("var", "E"), n, "+", num(1))))
        elif k == 2:
            self.line(N("expr", N("setattr", N("var", "E"), "Z", num(1))))
        elif k == 3:
            self.line(N("print", N("get", N("var", "E"), "Z")))
        elif k == 4:
            self.line(N("def", Fn("fe", [("e", None, "")], [N("expr", N("setattr", N("var", "e"), n, num(1)))])))
            self.line(N("expr", N("call", N("var", "fe"), [N("var", "E")], False)))
        elif k == 5:
            self.line(N("print", N("optget", N("var", "E"), n)))
        for n in self.enum:
            self.show(N("get", N("var", "E"), n))

    def program(self):
        s = self.s
        self.consts, self.late, self.enum = [], [], None
        self.klass()
        for _ in s.many(5, 24, 10):
            f = s.weighted([(5, self.private_op), (4, self.const_op), (1, self.local_const), (2, self.enum_op)])
            f()
            if len(self.steps) > 90:
                break
        return self.steps, self.refused, self.seen, self.count


def gen(s):
    return G(s).program()


def check(case, ctx):
    steps, refused, seen, count = case
    if refused >= 3 and seen >= 3:
        ctx.nontrivial("\n".join(x[0] for x in steps))
    ctx.label("refused attempts", refused)
    ctx.label("observations", seen)
    for k in count:
        ctx.label(k, count[k])
    ctx.repl(steps)


def parts():
    return [Part("access", gen, check, 5000)]
