"""Class hierarchies against the reference interpreter."""
from ..core import Part, Discard
from ..lang import N, Fn, Cls, Interp, render, TRACE, max_constants, num

RULE = ("random traits and class chains up to 5 deep (abstract classes, traits used at any point of the body, overridden, super-calling, "
        "static methods, class variables and constants, constructors with var parameters, methods storing attributes), then 5-25 "
        "operations on instances and classes: calls, attribute reads and writes, bound methods, class-variable updates, attributes "
        "shadowing methods; sometimes ending in an operation that must be refused; non-trivial = at least 2 classes in a chain and "
        "3 method calls, with super, a trait or an override")

M = ["m0", "m1", "m2", "m3"]
ATTR = ["a0", "a1", "a2"]
CV = ["v0", "v1"]
CC = ["K0", "K1"]
ST = ["s0", "s1"]


class Info:
    def __init__(self, name, sup, kind):
        self.name, self.sup, self.kind = name, sup, kind
        self.methods = dict(sup.methods) if sup else {}     # name -> number of parameters
        self.statics = dict(sup.statics) if sup else {}
        self.abstract = dict(sup.abstract) if sup else {}
        self.attrs = set(sup.attrs) if sup else set()       # attributes every instance has
        self.init = sup.init if sup else None               # number of parameters
        self.vars = set(sup.vars) if sup else set()
        self.consts = set(sup.consts) if sup else set()
        self.depth = sup.depth + 1 if sup else 0
        self.local = False


class G:
    def __init__(self, s):
        self.s, self.prog, self.labels, self.count = s, [], 0, {}
        self.classes, self.traits, self.objs = [], [], []
        self.nob = 0

    def c(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def label(self):
        self.labels += 1
        return "L%d" % self.labels

    def val(self):
        s = self.s
        return N("lit", s.pick([0, 1, 2, 5, "x", "yz", None, True]))

    # -- method bodies.  A method only calls methods of a larger index through
    # this, and its own name through super, so calls terminate.
    def body(self, c, name, params, idx, level):
        s = self.s
        out = [N("print", N("list", [N("lit", self.label()), N("lit", name)] + [N("var", p) for p in params]))]
        for _ in s.many(0, 4, 1.5):
            k = s.below(9)
            if k == 0:
                a = s.pick(ATTR)
                out.append(N("expr", N("setattr", N("this"), a, self.val())))
            elif k == 1 and c is not None and c.attrs:
                a = s.pick(sorted(c.attrs))
                out.append(N("expr", N("setattr", N("this"), a, N("list", [N("get", N("this"), a), num(s.int(0, 9))]))))
                self.c("attribute rewritten")
            elif k == 2 and c is not None and c.attrs:
                out.append(N("print", N("get", N("this"), s.pick(sorted(c.attrs)))))
            elif k in (3, 4) and idx < len(M) - 1:
                ms = [m for m in M[idx + 1:] if c is not None and m in c.methods] or M[idx + 1:]
                m = s.pick(ms)
                self.c("call through this")
                out.append(N("print", N("mcall", N("this"), m, [self.val()], False)))
            elif k == 5 and c is not None and c.sup and name in c.sup.methods and level == 0:
                self.c("super call")
                sp = s.below(3) == 0           # the argument handed over as an unpacked list
                out.append(N("print", N("scall", name, [N("list", [self.val()]) if sp else self.val()], sp)))
            elif k == 6 and c is not None and c.sup and name in c.sup.methods:
                self.c("super call")
                out.append(N("block", [N("var", [("sm", N("sget", name))]), N("print", N("call", N("var", "sm"), [self.val()], False))]))
            elif k == 7 and c is not None and c.vars:
                v = s.pick(sorted(c.vars))
                if s.below(2):
                    out.append(N("expr", N("csetattr", N("var", c.name), v, "+", num(1))))
                    self.c("class variable updated")
                else:
                    out.append(N("print", N("get", N("this"), v)))
            elif k == 8 and c is not None and c.consts:
                out.append(N("print", N("get", N(s.pick(["this"])), s.pick(sorted(c.consts)))))
        k = s.below(4)
        if k == 0:
            out.append(N("return", N("this")))
        elif k == 1:
            out.append(N("return", N("list", [N("lit", name), N("get", N("this"), "_name")] if s.below(2) else [N("lit", name)])))
        elif k == 2:
            out.append(N("return", self.val()))
        return out

    def trait(self):
        s = self.s
        name = "T%d" % len(self.traits)
        c = Cls(name, None, "trait")
        ms = s.subset(M, 0.5) or [s.pick(M)]
        for m in ms:
            c.members.append(("method", Fn(m, [("p", None, "")], self.body(None, m, ["p"], M.index(m), 1))))
        self.traits.append((name, ms))
        self.prog.append(N("class", c))

    def klass(self):
        s = self.s
        sup = s.pick(self.classes) if self.classes and s.below(4) else None
        if sup and sup.kind == "abstract" or not s.below(5):
            kind = s.pick(["class", "class", "abstract"])
        else:
            kind = "class"
        if not s.below(6):
            kind = "abstract"
        name = "C%d" % len(self.classes)
        i = Info(name, sup, kind)
        c = Cls(name, sup.name if sup else None, kind)
        # decide the members first: bodies refer to them
        members = []
        use = []
        if self.traits and s.below(2):
            for _ in range(1 + s.below(2)):
                t = s.pick(self.traits)
                if t not in use:
                    use.append(t)
        for v in s.subset(CV, 0.3):
            members.append(("var", v))
        for v in s.subset(CC, 0.25):
            members.append(("const", v))
        for m in s.subset(M, 0.5):
            members.append(("m", m))
        for m in s.subset(ST, 0.3):
            members.append(("s", m))
        if kind == "abstract":
            for m in s.subset(M, 0.25):
                if ("m", m) not in members:
                    members.append(("a", m))
        need = [m for m in i.abstract if m not in i.methods]
        if kind == "class":
            have = set(m for k, m in members if k == "m") | set(m for t in use for m in t[1])
            for m in need:
                if m not in have:
                    members.append(("m", m))
        init = s.below(3) == 0
        if init:
            members.append(("init", ""))
        members = s.shuffle(members)
        if use:
            if len(use) == 2 and s.below(2):
                members.insert(s.below(len(members) + 1), ("use", use))
            else:
                for t in use:
                    members.insert(s.below(len(members) + 1), ("use", [t]))
        supattrs = set(i.attrs)
        for k, m in members:
            if k == "m":
                if m in i.methods:
                    self.c("override")
                i.methods[m] = 1
            elif k == "use":
                self.c("trait used")
                for t in m:
                    for y in t[1]:
                        i.methods[y] = 1
            elif k == "s":
                i.statics[m] = 1
            elif k == "a":
                i.abstract[m] = 1
        np = s.below(4)
        if init:
            ps = [(a, None, s.pick(["var", ""])) for a in s.shuffle(ATTR)[:min(np, 3)]]
            own = set(p[0] for p in ps if p[2] == "var")
            calls_super = bool(sup and sup.init is not None and s.below(2))
            i.attrs = own | (supattrs if calls_super else set())
            i.init = len(ps)
        avail = sup
        for k, m in members:
            if k == "var":
                c.members.append(("var", m, num(s.int(0, 9))))
                i.vars.add(m)
            elif k == "const":
                c.members.append(("const", m, N("lit", s.pick([1, "k", None]))))
                i.consts.add(m)
            elif k == "use":
                c.members.append(("use", [t[0] for t in m]))
            elif k == "m":
                c.members.append(("method", Fn(m, [("p", None, "")], self.body(i, m, ["p"], M.index(m), 0))))
            elif k == "s":
                f = Fn(m, [("p", None, "")], [N("return", N("list", [N("lit", self.label()), N("var", "p")]))])
                f.static = True
                c.members.append(("method", f))
            elif k == "a":
                f = Fn(m, [("p", None, "")], None)
                f.abstract = True
                c.members.append(("method", f))
            elif k == "init":
                body = [N("print", N("list", [N("lit", self.label())] + [N("var", p[0]) for p in ps]))]
                if calls_super:
                    self.c("super constructor")
                    sp = s.below(3) == 0
                    args = [self.val() for _ in range(sup.init)]
                    body.append(N("expr", N("scall", "init", [N("list", args)] if sp else args, sp)))
                if s.below(3) == 0:
                    a = s.pick(ATTR)
                    i.attrs.add(a)
                    body.append(N("expr", N("setattr", N("this"), a, self.val())))
                c.members.append(("method", Fn("init", ps, body)))
        i.consts -= set(m for k, m in members if k == "var")
        self.extend(c, i)
        self.classes.append(i)
        self.prog.append(N("class", c))

    def extend(self, c, i):
        pass

    def new(self, i):
        self.nob += 1
        n = "o%d" % self.nob
        self.prog.append(N("var", [(n, N("call", N("var", i.name), [self.val() for _ in range(i.init or 0)], False))]))
        self.objs.append((n, i))

    def ops(self):
        s = self.s
        conc = [i for i in self.classes if i.kind == "class"]
        if not conc:
            return
        for _ in s.many(3, 25, 10):
            if not self.objs or s.below(5) == 0 and len(self.objs) < 6:
                self.new(s.pick(conc))
            else:
                self.op(*s.pick(self.objs))

    def op(self, n, i):
        s = self.s
        o = N("var", n)
        k = s.below(14)
        P = self.prog.append
        if k < 4 and i.methods:
            m = s.pick(sorted(i.methods))
            self.c("method call")
            P(N("print", N("mcall", o, m, [self.val()], False)))
        elif k == 4:
            P(N("expr", N("setattr", o, s.pick(ATTR), self.val())))
        elif k == 5 and i.attrs:
            P(N("print", N("get", o, s.pick(sorted(i.attrs)))))
        elif k == 6 and i.methods:
            m = s.pick(sorted(i.methods))
            self.c("bound method")
            self.nob += 1
            P(N("var", [("b%d" % self.nob, N("get", o, m))]))
            P(N("print", N("call", N("var", "b%d" % self.nob), [self.val()], False)))
        elif k == 7 and i.vars:
            v = s.pick(sorted(i.vars))
            c = i
            while c.sup and s.below(2) and v in c.sup.vars:
                c = c.sup
            if s.below(2):
                P(N("expr", N("setattr", N("var", c.name), v, num(s.int(0, 50)))))
            else:
                P(N("expr", N("csetattr", N("var", c.name), v, s.pick(["+", "-"]), num(s.int(0, 50)))))
            self.c("class variable updated")
            P(N("print", N("list", [N("get", N("var", x.name), v) for x in self.classes if v in x.vars])))
        elif k == 8 and i.vars:
            v = s.pick(sorted(i.vars))
            P(N("print", N("get", o, v)))
            if s.below(3) == 0:
                P(N("expr", N("setattr", o, v, num(s.int(100, 199)))))
                self.c("class variable shadowed")
        elif k == 9 and i.consts:
            P(N("print", N("get", s.pick([o, N("var", i.name)]), s.pick(sorted(i.consts)))))
        elif k == 10 and i.statics:
            m = s.pick(sorted(i.statics))
            self.c("static call")
            P(N("print", N("mcall", s.pick([N("var", i.name)]), m, [self.val()], False)))
        elif k == 11:
            # an attribute holding a function, sometimes with the name of a method
            a = s.pick(M + ["q"])
            self.c("function in an attribute")
            P(N("expr", N("setattr", o, a, N("fn", Fn("", [("p", None, "")], N("list", [N("lit", "attr " + a), N("var", "p")]), "arrow", True)))))
            P(N("print", N("mcall", o, a, [self.val()], False)))
            P(N("print", N("call", N("group", N("get", o, a)), [self.val()], False)))
        elif k == 12:
            P(N("print", N("list", [o, N("var", i.name), N("get", N("var", i.name), "_name")])))
        else:
            P(N("print", N("get", o, "_class")))

    def refused(self):
        """An operation that must be an error."""
        s = self.s
        P = self.prog.append
        P(N("print", N("lit", "before")))
        conc = [i for i in self.classes if i.kind == "class"]
        k = s.below(9)
        i = s.pick(self.classes)
        v = N("var", i.name)
        if k == 0 and i.methods:
            P(N("print", N("mcall", v, s.pick(sorted(i.methods)), [self.val()], False)))
        elif k == 1 and self.objs:
            P(N("print", N("get", N("var", s.pick(self.objs)[0]), "missing")))
        elif k == 2 and self.objs:
            P(N("print", N("mcall", N("var", s.pick(self.objs)[0]), "missing", [self.val()], False)))
        elif k == 3 and any(i.kind == "abstract" for i in self.classes):
            P(N("print", N("call", N("var", s.pick([i for i in self.classes if i.kind == "abstract"]).name), [], False)))
        elif k == 4 and self.traits:
            P(N("print", N("call", N("var", self.traits[0][0]), [], False)))
        elif k == 5:
            a = Cls("AB", None, "abstract")
            f = Fn("must", [("p", None, "")], None)
            f.abstract = True
            a.members.append(("method", f))
            P(N("class", a))
            if s.below(2):
                P(N("class", Cls("AC", "AB", "abstract")))
                P(N("print", N("lit", "declared")))
            P(N("class", Cls("AD", "AC" if self.prog[-1].k == "print" else "AB")))
        elif k == 6:
            P(N("class", Cls("BadSup", s.pick([t[0] for t in self.traits] + ["notclass"]))))
            if self.prog[-1].a[0].sup == "notclass":
                self.prog.insert(0, N("var", [("notclass", num(3))]))
        elif k == 7:
            P(N("print", N("mcall", v, "missing", [], False)))
        else:
            P(N("print", N("get", v, "missing")))
        P(N("print", N("lit", "after")))

    def program(self):
        s = self.s
        for _ in range(s.below(3)):
            self.trait()
        for _ in s.many(1, 5, 3):
            self.klass()
        self.ops()
        ref = s.below(3) == 0
        if ref:
            self.refused()
        return self.prog, self.count, ref, max(i.depth for i in self.classes)


def gen(s):
    return G(s).program()


def check(case, ctx):
    prog, count, refused, depth = case
    if max_constants(prog) > 245:
        raise Discard()
    I = Interp(budget=30000)
    src = render(prog)
    err = I.run(prog)
    calls = count.get("method call", 0)
    if depth >= 1 and calls >= 2 and (count.get("super call") or count.get("trait used") or count.get("override")):
        ctx.nontrivial(src)
    for k in count:
        ctx.label(k, count[k])
    if err:
        ctx.label("refused: " + err.msg.split("'")[0])
    ctx.expect(src, I.out, exit=70 if err else 0)


def parts():
    return [Part("classes", gen, check, 9000)]
