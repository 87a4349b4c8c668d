"""Argument binding against the reference interpreter."""
from ..core import Part, Discard
from ..lang import N, Fn, Cls, Interp, render, TRACE, max_constants, num

RULE = ("random callables (functions, arrow functions, methods, static methods, bound methods, constructors, returned and stored "
        "functions) with 0-6 required, optional (defaults using earlier parameters) or variadic parameters, called 1-12 times with "
        "traced, nested and unpacked arguments, sometimes ending in a call with a wrong count or of a value that is not callable; "
        "non-trivial = at least 3 calls, one with an omitted default, a variadic or an unpacked list, or a refused call")

NAMES = ["a", "b", "c", "d", "e", "f0", "g0", "h0"]
BADVALS = [None, True, 5, "f", [1], 0.5]


class Callable:
    pass


class G:
    def __init__(self, s):
        self.s = s
        self.labels = 0
        self.cs = []
        self.prog = []
        self.count = {}

    def c(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def label(self):
        self.labels += 1
        return "L%d" % self.labels

    def value(self, d=1):
        s = self.s
        k = s.below(9)
        if k < 4 or d <= 0:
            return N("lit", s.pick([0, 1, 2, 3, 7, "x", "yy", None, True, False, 1.5]))
        if k < 6:
            return N("t", self.label(), N("lit", s.int(0, 9)))
        if k == 6:
            return N("list", [self.value(0) for _ in range(s.below(3))])
        if self.cs and k == 7:
            self.c("nested call")
            return self.call(s.pick(self.cs), d - 1)
        return N("var", "gv")

    def params(self, ctor=False):
        s = self.s
        names = s.shuffle(NAMES)
        req = s.pick([0, 1, 1, 2, 2, 3, 5])
        out = [(names.pop(), None, s.pick(["", "var"]) if ctor else "") for _ in range(min(req, 5))]
        k = s.below(3)
        if k == 1:
            for _ in range(1 + s.below(3)):
                if not names:
                    break
                prev = [p[0] for p in out]
                e = s.below(7)
                if e == 5:
                    d = N("t", self.label(), N("var", s.pick(prev)) if prev and s.below(2) else num(8))
                elif e == 6 and self.cs:
                    d = self.call(s.pick(self.cs), 0)
                elif e == 0 and prev:
                    d = N("list", [N("var", s.pick(prev)), num(s.int(0, 9))])
                elif e == 1 and prev:
                    d = N("var", s.pick(prev))
                elif e == 2:
                    d = N("list", [])
                elif e == 3:
                    d = N("var", "gv")
                else:
                    d = N("lit", s.pick([None, 0, 1, "d", True]))
                out.append((names.pop(), d, s.pick(["", "var"]) if ctor else ""))
        elif k == 2 and not ctor:
            out.append((names.pop(), None, "..."))
        return out

    def body(self, ps, name, extra=None):
        s = self.s
        out = [N("print", N("list", [N("lit", name)] + [N("var", p[0]) for p in ps]))]
        lists = [p[0] for p in ps if p[2] == "..."]
        if lists and s.below(2):
            out.append(N("expr", N("mcall", N("var", lists[0]), "push", [num(99)], False)))
        if ps and s.below(3) == 0:
            p = s.pick(ps)[0]
            out.append(N("expr", N("set", p, N("list", [N("var", p), num(1)]))))
        if self.cs and s.below(3) == 0:
            self.c("call inside a body")
            out.append(N("print", self.call(s.pick(self.cs), 1)))
        k = s.below(6)
        if k == 0:
            pass
        elif k == 1:
            out.append(N("return", None))
        elif k == 2:
            out.append(N("if", N("lit", s.pick([True, False])), N("block", [N("return", self.value())]), None))
            out.append(N("return", N("lit", "end")))
        else:
            out.append(N("return", N("list", [N("var", p[0]) for p in ps] + [N("lit", name)])))
        return out

    def declare(self):
        s = self.s
        i = len(self.cs)
        c = Callable()
        c.name = name = "fn%d" % i
        c.kind = kind = s.pick(["def", "def", "arrow", "arrowb", "method", "static", "bound", "ctor", "maker", "listed", "keyed", "inherited"])
        ps = self.params(kind == "ctor")
        c.ps = ps
        c.ret = "obj" if kind == "ctor" else "v"
        if kind == "ctor":
            body = self.body(ps, name)
            body = [x for x in body if x.k != "return" and x.k != "if"]
            cl = Cls("K%d" % i)
            cl.members.append(("method", Fn("init", ps, body)))
            cl.members.append(("method", Fn("all", [], [N("return", N("list", [N("get", N("this"), p[0]) for p in ps if p[2] == "var"]))])))
            self.prog.append(N("class", cl))
            c.make = lambda args, sp: N("mcall", N("call", N("var", "K%d" % i), args, sp), "all", [], False)
        elif kind in ("method", "static", "bound", "inherited"):
            f = Fn("run", ps, self.body(ps, name))
            f.static = kind == "static"
            cl = Cls("K%d" % i)
            cl.members.append(("method", f))
            self.prog.append(N("class", cl))
            if kind == "static":
                c.make = lambda args, sp: N("mcall", N("var", "K%d" % i), "run", args, sp)
            else:
                if kind == "inherited":
                    self.prog.append(N("class", Cls("J%d" % i, "K%d" % i)))
                self.prog.append(N("var", [("o%d" % i, N("call", N("var", ("J%d" if kind == "inherited" else "K%d") % i), [], False))]))
                if kind == "bound":
                    self.prog.append(N("var", [(name, N("get", N("var", "o%d" % i), "run"))]))
                    c.make = lambda args, sp: N("call", N("var", name), args, sp)
                else:
                    c.make = lambda args, sp: N("mcall", N("var", "o%d" % i), "run", args, sp)
        else:
            if kind == "arrow":
                f = Fn("", ps, N("list", [N("lit", name)] + [N("var", p[0]) for p in ps]), "arrow", True)
            elif kind == "def":
                f = Fn(name, ps, self.body(ps, name))
            else:
                f = Fn("", ps, self.body(ps, name), "arrow")
            if kind == "def":
                self.prog.append(N("def", f))
                c.make = lambda args, sp: N("call", N("var", name), args, sp)
            elif kind == "maker":
                self.prog.append(N("def", Fn("mk%d" % i, [], [N("return", N("fn", f))])))
                c.make = lambda args, sp: N("call", N("call", N("var", "mk%d" % i), [], False), args, sp)
            elif kind == "listed":
                self.prog.append(N("var", [(name, N("list", [num(0), N("fn", f)]))]))
                c.make = lambda args, sp: N("call", N("idx", N("var", name), num(s.pick([1, -1]))), args, sp)
            elif kind == "keyed":
                self.prog.append(N("var", [(name, N("dict", [(N("lit", "k"), N("fn", f))]))]))
                c.make = lambda args, sp: N("call", N("idx", N("var", name), N("lit", "k")), args, sp)
            else:
                self.prog.append(N("var", [(name, N("fn", f))]))
                c.make = lambda args, sp: N("call", N("var", name), args, sp)
        self.cs.append(c)

    def call(self, c, d=2, wrong=0):
        """A call of c with a number of arguments it accepts, or wrong: -1 too few, 1 too many."""
        s = self.s
        req = sum(1 for p in c.ps if p[1] is None and p[2] != "...")
        var = any(p[2] == "..." for p in c.ps)
        top = len(c.ps)
        if wrong < 0:
            n = s.below(req)
        elif wrong > 0:
            n = top + 1 + s.below(3)
        elif var:
            n = req + s.pick([0, 1, 2, 3, 5])
            self.c("variadic call")
        else:
            n = req + s.below(top - req + 1)
            if n < top:
                self.c("default used")
        if s.below(3) == 0:
            self.c("unpacked call")
            k = s.below(n + 1)
            args = [self.value(d) for _ in range(k)]
            rest = [self.value(0) for _ in range(n - k)]
            if s.below(2):
                sp = N("list", rest)
            else:
                nm = "sp%d" % self.labels
                self.labels += 1
                self.prog.append(N("var", [(nm, N("list", rest))]))
                sp = N("var", nm)
            return c.make(args + [sp], True)
        return c.make([self.value(d) for _ in range(n)], False)

    def program(self):
        s = self.s
        self.prog.append(N("var", [("gv", num(42))]))
        calls = 0
        self.refused = False
        for _ in s.many(1, 4, 2.5):
            self.declare()
        for _ in s.many(1, 12, 5):
            k = s.below(10)
            if k == 0 and len(self.cs) < 6:
                self.declare()
                continue
            e = self.call(s.pick(self.cs))
            calls += 1
            if k == 1:
                self.prog.append(N("expr", e))
            elif k == 2:
                self.prog.append(N("block", [N("var", [("tmp", e)]), N("print", N("var", "tmp"))]))
            elif k == 3:
                self.prog.append(N("print", N("list", [e, self.call(s.pick(self.cs))])))
            elif k == 4:
                self.prog.append(N("expr", N("set", "gv", num(s.int(0, 99)))))
                self.prog.append(N("print", e))
            else:
                self.prog.append(N("print", e))
        if s.below(2):
            self.refused = True
            k = s.below(6)
            c = s.pick(self.cs)
            req = sum(1 for p in c.ps if p[1] is None and p[2] != "...")
            var = any(p[2] == "..." for p in c.ps)
            if k < 2 and req:
                e = self.call(c, 1, -1)
            elif k < 4 and not var:
                e = self.call(c, 1, 1)
            elif k == 4:
                e = c.make([self.value(), N("lit", s.pick([None, 1, "ab", True]))], True)
            else:
                e = N("call", N("group", N("lit", s.pick(BADVALS))), [self.value() for _ in range(s.below(3))], False)
            if s.below(2):
                self.prog.append(N("def", Fn("bad", [], [N("var", [("l0", num(1))]), N("return", e)])))
                e = N("call", N("var", "bad"), [], False)
            self.prog.append(N("print", N("lit", "before")))
            self.prog.append(N("print", e))
            self.prog.append(N("print", N("lit", "after")))
        return self.prog, calls, self.refused, self.count


def gen(s):
    return G(s).program()


def gen_big(s):
    """Many parameters or many unpacked elements."""
    n = s.pick([10, 60, 100, 200, 254])
    kind = s.below(3)
    prog = [N("var", [("l", N("list", []))]),
            N("for", N("var", [("i", num(0))]), N("bin", "<", N("var", "i"), num(n)), N("cset", "i", "+", num(1)),
              N("block", [N("expr", N("mcall", N("var", "l"), "push", [N("bin", "*", N("var", "i"), num(3))], False))]))]
    if kind == 0:
        # as many parameters as elements
        ps = [("p%d" % i, None, "") for i in range(n)]
        f = Fn("f", ps, [N("return", N("list", [N("var", "p0"), N("var", "p%d" % (n // 2)), N("var", "p%d" % (n - 1))]))])
        bad = s.below(3) == 0
        if bad:
            prog.append(N("expr", N("mcall", N("var", "l"), "push", [num(0)], False)))
        prog.append(N("def", f))
    else:
        k = s.below(min(n, 8))
        ps = [("p%d" % i, None, "") for i in range(k)] + [("r", None, "...")]
        f = Fn("f", ps, [N("return", N("list", [N("var", p[0]) for p in ps]))])
        prog.append(N("def", f))
    first = [num(5)] if kind == 2 else []
    prog.append(N("print", N("call", N("var", "f"), first + [N("var", "l")], True)))
    prog.append(N("print", N("mcall", N("var", "l"), "len", [], False)))
    return prog, 3, False, {"unpacked call": 1}


def check(case, ctx):
    prog, calls, refused, count = case
    if max_constants(prog) > 245:
        raise Discard()
    I = Interp(budget=40000)
    src = TRACE + render(prog)
    err = I.run(prog)
    if calls >= 3 and (refused or count.get("default used") or count.get("variadic call") or count.get("unpacked call")):
        ctx.nontrivial(src)
    for k in count:
        ctx.label(k, count[k])
    if err:
        ctx.label("refused call")
        ctx.expect(src, I.out, exit=70)
    else:
        ctx.expect(src, I.out)


def parts():
    return [Part("calls", gen, check, 9000), Part("big", gen_big, check, 300)]
