"""Random well-typed, terminating programs over the trees of vf.lang.

Kinds of values: "n" number, "l" list of numbers, ("f", k) function of k
numbers returning a number, ("m", k) function of k numbers returning an ("f", 0),
"lf" list of ("f", 0), "o" instance with methods bump(n) and peek().
"""
from .lang import N, Fn, Cls, num

NAMES = ["a", "b", "c", "d", "e", "x", "y", "z"]


class Scope:
    def __init__(self, kind, parent=None):
        self.kind, self.parent, self.vars = kind, parent, {}


class PG:
    def __init__(self, s, closures=1, control=1, size=40, depth=4, classes=0):
        self.s, self.closures, self.control, self.classes = s, closures, control, classes
        self.size, self.depth = size, depth
        self.sc = Scope("global")
        self.loops = 0            # loops open in the current function
        self.fresh = 0
        self.labels = 0
        self.infn = 0
        self.ban = set()
        self.count = {}
        self.bulk = 0

    def c(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    # -- names
    def visible(self, pred):
        seen, out = set(), []
        sc = self.sc
        while sc:
            for n, v in sc.vars.items():
                if n not in seen:
                    seen.add(n)
                    if n not in self.ban and pred(v):
                        out.append(n)
            sc = sc.parent
        return out

    def lookup(self, name):
        sc = self.sc
        while sc:
            if name in sc.vars:
                return sc.vars[name]
            sc = sc.parent

    def new_name(self, prefix=None):
        s = self.s
        if prefix is None:
            free = [n for n in NAMES if n not in self.sc.vars]
            if self.sc.kind == "global":
                free = [n for n in free if n not in self.ban]
            if free:
                return s.pick(free)
            prefix = "v"
        self.fresh += 1
        return "%s%d" % (prefix, self.fresh)

    def declare(self, name, kind, const=False):
        self.sc.vars[name] = (kind, const)

    def push(self, kind="block"):
        self.sc = Scope(kind, self.sc)

    def pop(self):
        self.sc = self.sc.parent

    def var_of(self, kind, writable=False):
        return self.visible(lambda v: v[0] == kind and not (writable and v[1]))

    # -- expressions
    def label(self):
        self.labels += 1
        return "L%d" % self.labels

    def n(self, d=2):
        s = self.s
        if d <= 0:
            vs = self.var_of("n")
            if vs and s.below(3):
                return N("var", s.pick(vs))
            return num(s.int(0, 9))
        k = s.below(16)
        if k < 3:
            return self.n(0)
        if k < 7:
            return N("bin", s.pick(["+", "-", "+"]), self.n(d - 1), self.n(d - 1))
        if k == 7:
            return N("bin", "%", self.n(d - 1), num(s.pick([3, 5, 7, 10])))
        if k == 8:
            return N("t", self.label(), self.n(d - 1))
        if k == 9:
            return N("tern", self.b(d - 1), self.n(d - 1), self.n(d - 1))
        if k == 10:
            ls = self.var_of("l")
            if ls:
                return N("idx", N("var", s.pick(ls)), num(s.pick([0, -1])))
        if k == 11:
            vs = self.var_of("n", True)
            if vs:
                v = s.pick(vs)
                self.c("assigned in expression")
                return N("group", N("cset", v, s.pick(["+", "-"]), self.n(d - 1)) if s.below(2) else N("set", v, self.n(d - 1)))
        if k == 12:
            lf = self.var_of("lf")
            if lf:
                return N("call", N("idx", N("var", s.pick(lf)), num(s.pick([0, -1]))), [], False)
        if k == 13:
            os = self.var_of("o")
            if os:
                o = N("var", s.pick(os))
                return N("mcall", o, "bump", [self.n(d - 1)], False) if s.below(2) else N("mcall", o, "peek", [], False)
        fs = self.visible(lambda v: isinstance(v[0], tuple))
        if fs:
            f = s.pick(fs)
            kind, ar = self.lookup(f)[0]
            self.c("call")
            e = N("call", N("var", f), [self.n(d - 1) for _ in range(ar)], False)
            return N("call", e, [], False) if kind == "m" else e
        return self.n(d - 1)

    def b(self, d=2):
        s = self.s
        k = s.below(8)
        if k == 0:
            return N("lit", bool(s.below(2)))
        if k < 5 or d <= 0:
            return N("bin", s.pick(["<", ">", "<=", ">=", "==", "!="]), self.n(d - 1), self.n(d - 1))
        if k == 5:
            return N("not", self.b(d - 1))
        if k == 6:
            return N(s.pick(["and", "or"]), self.b(d - 1), self.b(d - 1))
        return N("t", self.label(), self.b(d - 1))

    # -- statements
    def p(self):
        return N("print", N("list", [N("lit", self.label()), self.n(1)]))

    def dump(self, every=False):
        vs = self.var_of("n")
        if not vs:
            return self.p()
        return N("print", N("list", [N("lit", self.label())] + [N("var", v) for v in sorted(vs)][:8]))

    def block(self, d, kind="block", extra=None, lo=1, hi=5):
        """Statements in a scope of their own."""
        self.push(kind)
        out = list(extra or [])
        for _ in self.s.many(lo, hi, 2.5):
            out.append(self.stmt(d - 1))
            if out[-1].k in ("break", "continue", "return"):
                break
        self.pop()
        return N("block", out)

    def stmts(self, d, lo, hi, avg):
        out = []
        for _ in self.s.many(lo, hi, avg):
            out.append(self.stmt(d))
            if self.size <= 0:
                break
        return out

    def stmt(self, d):
        s = self.s
        self.size -= 1
        if self.size <= 0 or d <= 0:
            return self.simple()
        ch, cl = self.control, self.closures
        opts = [(6, self.simple), (4 * ch, self.s_if), (3 * ch, self.s_while), (3 * ch, self.s_for), (2 * ch, self.s_switch),
                (2, self.s_block), (2 + 2 * cl, self.s_fn), (3 * cl, self.s_arrow), (3 * cl, self.s_maker), (2 * cl, self.s_cloop),
                (2 * self.classes, self.s_class), (self.bulk, self.s_bulk), (ch, self.s_mixed)]
        if self.loops:
            opts.append((3 * ch, self.s_exit))
        if self.infn:
            opts.append((1 * ch, self.s_return))
        f = s.weighted([o for o in opts if o[0] > 0])
        return f(d) if f != self.simple else self.simple()

    def simple(self):
        s = self.s
        k = s.below(10)
        if k < 3:
            return self.p()
        if k < 5:
            return self.s_var()
        if k < 8:
            vs = self.var_of("n", True)
            if vs:
                v = s.pick(vs)
                e = self.n(2)
                self.c("assignment")
                return N("expr", N("set", v, e) if s.below(2) else N("cset", v, s.pick(["+", "-"]), e))
        if k == 8:
            ls = self.var_of("l")
            lf = self.var_of("lf")
            if lf and s.below(3) and self.closures:
                self.c("closure pushed")
                l = s.pick(lf)
                self.ban.add(l)
                f = self.arrow0()
                self.ban.discard(l)
                return N("expr", N("mcall", N("var", l), "push", [N("fn", f)], False))
            if ls:
                return N("expr", N("mcall", N("var", s.pick(ls)), "push", [self.n(1)], False))
        return self.dump()

    def simple_num(self):
        vs = self.var_of("n", True)
        if not vs:
            return self.p()
        return N("expr", N("cset", self.s.pick(vs), "+", self.n(1)))

    def s_var(self, d=0):
        s = self.s
        name = self.new_name()
        local = self.sc.kind != "global"
        if not local and name in self.sc.vars:
            name = self.new_name("g")
        outer = self.lookup(name)
        k = s.below(12)
        self.ban.add(name)
        try:
            if k == 0:
                st = N("var", [(name, N("list", [self.n(1) for _ in range(1 + s.below(3))]))])
                kind = "l"
            elif k == 1 and not s.below(2):
                # two names at once
                e1 = self.n(1)
                self.ban.discard(name)
                self.declare(name, "n")
                n2 = self.new_name("w")
                self.ban.add(n2)
                e2 = self.n(1)
                self.declare(n2, "n")
                self.ban.discard(n2)
                return N("var", [(name, e1), (n2, e2)])
            elif k == 2:
                st = N("const", [(name, self.n(1))])
                self.declare(name, "n", True)
                if outer:
                    self.c("shadow")
                return st
            elif k == 3:
                e = N("list", [self.n(1), self.n(1)])
                self.ban.discard(name)
                n2 = self.new_name("w")
                self.declare(name, "n")
                self.declare(n2, "n")
                # the initialiser must not name either variable
                for y in (name, n2):
                    if uses(e, y):
                        e = N("list", [num(s.int(0, 9)), num(s.int(0, 9))])
                return N("undecl", [name, n2], e, "var")
            else:
                st = N("var", [(name, self.n(2))])
                kind = "n"
        finally:
            self.ban.discard(name)
        if outer:
            self.c("shadow")
        self.declare(name, kind)
        return st

    def s_block(self, d):
        return self.block(d)

    def s_if(self, d):
        s = self.s
        c = self.b(2)
        th = self.inner(d)
        k = s.below(4)
        if k == 0:
            return N("if", c, th, None)
        if k < 3:
            return N("if", c, th, self.block(d))
        els = self.s_if(d - 1) if d > 1 else self.block(d)
        return N("if", c, th, els)

    def counter(self):
        self.fresh += 1
        return "i%d" % self.fresh

    def s_while(self, d):
        """A block holding a counter and a while loop on it."""
        s = self.s
        self.push()
        i = self.counter()
        limit = s.int(0, 5)
        self.declare(i, "n", True)
        form = s.below(4)
        pre = []
        if form == 0:
            cond = N("bin", "<", N("var", i), num(limit))
            pre = [N("expr", N("cset", i, "+", num(1)))]
        elif form == 1:
            cond = N("bin", "<=", N("group", N("cset", i, "+", num(1))), num(limit))
        elif form == 2:
            cond = N("and", N("bin", "<", N("group", N("cset", i, "+", num(1))), num(limit + 1)), self.b(1))
        else:
            cond = None
            pre = [N("if", N("bin", ">", N("group", N("cset", i, "+", num(1))), num(limit)), N("block", [N("break")]), None)]
        st = [N("var", [(i, num(0))])]
        self.loops += 1
        body = self.block(d, extra=pre)
        self.loops -= 1
        st.append(N("while", cond, body))
        st.append(self.dump())
        self.pop()
        self.c("loop")
        return N("block", st)

    def s_for(self, d):
        s = self.s
        self.push()
        i = self.counter()
        self.declare(i, "n", True)
        up = s.below(3) > 0
        n = s.int(0, 5)
        step = s.pick([1, 1, 2])
        iv = N("var", i)
        init = N("var", [(i, num(0 if up else n))])
        cond = N("bin", "<", iv, num(n)) if up else N("bin", ">", iv, num(0))
        inc = N("cset", i, "+" if up else "-", num(step))
        pre, st = [], []
        f = s.below(6)
        if f == 1:
            st = [init]
            init = None
        elif f == 2:
            st = [N("var", [(i, None)])]
            init = N("expr", N("set", i, num(0 if up else n)))
        elif f == 3:
            pre = [N("if", N("not", cond), N("block", [N("break")]), None)]
            cond = None
        elif f == 4:
            pre = [N("expr", inc)]
            inc = None
        elif f == 5:
            init = N("var", init.a[0] + [("j" + i, self.n(1))])
            self.declare("j" + i, "n")
        self.loops += 1
        body = self.block(d, extra=pre)
        self.loops -= 1
        if f == 5:
            del self.sc.vars["j" + i]
        st.append(N("for", init, cond, inc, body))
        if f != 1 and f != 2:
            del self.sc.vars[i]
        st.append(self.dump())
        self.pop()
        self.c("loop")
        return N("block", st)

    def s_switch(self, d):
        s = self.s
        e = N("bin", "%", self.n(2), num(4)) if s.below(3) else self.n(1)
        cases = []
        for _ in s.many(1, 5, 2.5):
            vals = [num(s.int(-1, 5)) if s.below(4) else self.n(1) for _ in range(s.pick([1, 1, 2, 3]))]
            cases.append(N("case", vals, self.inner(d)))
        default = self.block(d) if s.below(3) else None
        self.c("switch")
        return N("switch", e, cases, default)

    def s_mixed(self, d):
        """A switch over values of several types."""
        s = self.s
        pool = [None, True, False, 0, 1, "", "a", "0", "1", "nil", 2.5, -1]
        def v():
            w = s.pick(pool)
            return N("lit", w)
        cases = []
        for _ in s.many(1, 5, 3):
            cases.append(N("case", [v() for _ in range(s.pick([1, 1, 2, 3]))], self.inner(d)))
        self.c("switch")
        return N("switch", v(), cases, self.inner(d) if s.below(2) else None)

    def inner(self, d):
        """A branch: usually a block, else a single simple statement."""
        if self.s.below(4):
            return self.block(d)
        return self.p()

    def s_bulk(self, d):
        """A long stretch of code or many locals."""
        s = self.s
        if s.below(3) == 0:
            self.push()
            out = []
            last = self.n(0)
            for i in range(s.pick([10, 30, 70])):
                self.fresh += 1
                n = "u%d" % self.fresh
                out.append(N("var", [(n, last)]))
                last = N("var", n)
                if i % 20 == 0:
                    self.declare(n, "n")
            for _ in range(2):
                out.append(self.stmt(d - 1))
            out.append(self.dump())
            self.pop()
            self.c("many locals")
            return N("block", out)
        vs = self.var_of("n", True)
        if not vs:
            return self.p()
        a, b = s.pick(vs), s.pick(self.var_of("n"))
        if a == b:
            e = N("expr", N("set", a, N("var", b)))
        else:
            e = N("expr", N("cset", a, "+", N("var", b)))
        self.c("long code")
        return N("block", [N(e.k, *e.a) for _ in range(s.pick([20, 50, 200, 600]))])

    def s_exit(self, d):
        self.c("loop exit")
        st = N(self.s.pick(["break", "continue"]))
        if self.s.below(3):
            return N("if", self.b(1), N("block", [st]), None)
        return st

    def s_return(self, d):
        self.c("return in the middle")
        kind = self.infn
        st = N("return", self.ret(kind))
        return N("if", self.b(1), N("block", [st]), None)

    def ret(self, kind):
        if kind == "m":
            return N("fn", self.arrow0())
        return self.n(2)

    def enter_fn(self):
        saved = (self.loops, self.infn, self.ban)
        self.loops = 0
        self.ban = set(self.ban)
        self.push("fn")
        return saved

    def leave_fn(self, saved):
        self.pop()
        self.loops, self.infn, self.ban = saved

    def s_fn(self, d):
        s = self.s
        name = self.new_name("f") if s.below(2) else self.new_name()
        if self.lookup(name):
            self.c("shadow")
        ar = s.below(3)
        saved = self.enter_fn()
        self.ban.add(name)          # no recursion
        self.infn = "f"
        ps = s.shuffle(NAMES)[:ar]
        for p in ps:
            self.declare(p, "n")
        body = self.stmts(d - 1, 1, 6, 3)
        body.append(N("return", self.n(2)))
        self.leave_fn(saved)
        self.declare(name, ("f", ar))
        self.c("function")
        return N("def", Fn(name, [(p, None, "") for p in ps], body))

    def arrow0(self, d=1):
        """A function of no arguments, usually using enclosing variables."""
        s = self.s
        saved = self.enter_fn()
        self.infn = "f"
        if s.below(2):
            f = Fn("", [], self.n(2), "arrow", True)
        else:
            body = []
            for _ in s.many(1, 3, 2):
                body.append(self.simple())
            body.append(N("return", self.n(2)))
            f = Fn("", [], body, "arrow")
        self.leave_fn(saved)
        self.c("closure")
        return f

    def s_arrow(self, d):
        s = self.s
        name = self.new_name("h") if s.below(2) else self.new_name()
        self.ban.add(name)
        f = self.arrow0()
        self.ban.discard(name)
        self.declare(name, ("f", 0), True)
        return N("var", [(name, N("fn", f))])

    def s_maker(self, d):
        """A function returning a closure over its own variables."""
        s = self.s
        name = self.new_name("m")
        saved = self.enter_fn()
        self.ban.add(name)
        self.infn = "m"
        ar = s.below(3)
        ps = s.shuffle(NAMES)[:ar]
        for p in ps:
            self.declare(p, "n")
        body = self.stmts(d - 1, 1, 4, 2)
        body.append(N("return", N("fn", self.arrow0())))
        self.leave_fn(saved)
        self.c("maker")
        self.declare(name, ("m", ar))
        st = [N("def", Fn(name, [(p, None, "") for p in ps], body))]
        return st[0]

    def s_cloop(self, d):
        """A list of closures made by a loop."""
        s = self.s
        if self.sc.kind == "loop":
            return self.p()
        name = self.new_name("k")
        self.push()
        i = self.counter()
        self.declare(i, "n")
        inner = self.block(d, lo=0, hi=2)
        self.push()
        extra = [self.s_var() for _ in range(s.below(3))]
        self.ban.add(name)
        f = self.arrow0()
        self.ban.discard(name)
        self.pop()
        self.pop()
        k = 1 + s.below(4)
        body = extra + [N("expr", N("mcall", N("var", name), "push", [N("fn", f)], False))]
        if s.below(2):
            # leave or restart the loop with the captured variables live
            self.push()
            self.declare(i, "n", True)
            for st in extra:
                for y in st.a[0]:
                    if isinstance(y, str):
                        self.declare(y, "n")
                    else:
                        self.declare(y[0], "hidden" if y[1].k == "list" else "n", st.k == "const")
            self.c("exit past captured variables")
            ex = N(s.pick(["break", "continue"]))
            if s.below(2):
                body.append(N("if", self.b(1), N("block", [ex]), None))
                for _ in range(s.below(3)):
                    body.append(self.simple_num())
                if s.below(2):
                    body.append(N("expr", N("mcall", N("var", name), "push", [N("fn", self.arrow0())], False)))
            else:
                body.append(N("block", [self.s_var(), N("expr", N("mcall", N("var", name), "push", [N("fn", self.arrow0())], False)), ex]))
            self.pop()
        loop = N("for", N("var", [(i, num(0))]), N("bin", "<", N("var", i), num(k)), N("cset", i, "+", num(1)), N("block", body))
        self.c("closures made in a loop")
        self.declare(name, "lf", True)
        self.pending = [N("var", [(name, N("list", []))]), loop]
        return N("seq", self.pending)

    def s_class(self, d):
        s = self.s
        name = self.new_name("K")
        saved = self.enter_fn()
        self.infn = "f"
        self.declare("q", "n")
        body = self.stmts(d - 1, 0, 3, 1)
        body.append(N("expr", N("csetattr", N("this"), "v", "+", N("var", "q"))))
        body.append(N("return", N("bin", "+", N("get", N("this"), "v"), self.n(1))))
        self.leave_fn(saved)
        saved = self.enter_fn()
        self.infn = "f"
        body2 = [N("return", N("bin", "+", N("get", N("this"), "v"), self.n(1)))]
        self.leave_fn(saved)
        c = Cls(name)
        c.members.append(("method", Fn("init", [("v", None, "var")], [], "def")))
        c.members.append(("method", Fn("bump", [("q", None, "")], body)))
        c.members.append(("method", Fn("peek", [], body2)))
        o = self.new_name("o")
        self.declare(name, "class", True)
        self.c("class")
        arg = self.n(1)
        self.declare(o, "o", True)
        return N("seq", [N("class", c), N("var", [(o, N("call", N("var", name), [arg], False))])])

    def finish(self):
        """Calls and prints everything visible, so that captured state shows."""
        s = self.s
        out = []
        for name in sorted(self.visible(lambda v: True)):
            kind = self.lookup(name)[0]
            v = N("var", name)
            if kind == "n" or kind == "l":
                out.append(N("print", v))
            elif kind == "lf":
                self.fresh += 1
                i = "i%d" % self.fresh
                out.append(N("for", N("var", [(i, num(0))]), N("bin", "<", N("var", i), N("mcall", v, "len", [], False)),
                             N("cset", i, "+", num(1)), N("block", [N("print", N("call", N("idx", v, N("var", i)), [], False))])))
            elif kind == "o":
                out.append(N("print", N("mcall", v, "peek", [], False)))
            elif kind[0] == "f":
                out.append(N("print", N("call", v, [num(i + 1) for i in range(kind[1])], False)))
                out.append(N("print", N("call", v, [num(i) for i in range(kind[1])], False)))
            elif kind[0] == "m":
                self.fresh += 1
                r = "r%d" % self.fresh
                out.append(N("var", [(r, N("call", v, [num(i + 1) for i in range(kind[1])], False))]))
                out.append(N("print", N("call", N("var", r), [], False)))
                out.append(N("print", N("call", N("var", r), [], False)))
        return out[:30]

    def program(self, infn=None):
        s = self.s
        top = self.stmts(self.depth, 3, 14, 7)
        body_in_fn = s.below(2) if infn is None else infn
        prog = flat(top)
        if body_in_fn:
            saved = self.enter_fn()
            self.infn = "f"
            body = self.stmts(self.depth, 2, 10, 5)
            body += self.finish()
            body.append(N("return", self.n(1)))
            self.leave_fn(saved)
            prog.append(N("def", Fn("main", [], flat(body))))
            prog.append(N("print", N("call", N("var", "main"), [], False)))
        prog += self.finish()
        return deep_flat(prog)


def uses(x, name):
    if isinstance(x, N):
        return (x.k == "var" and x.a[0] == name) or any(uses(y, name) for y in x.a)
    if isinstance(x, Fn):
        return uses(x.body, name)
    if isinstance(x, (list, tuple)):
        return any(uses(y, name) for y in x) or name in [y for y in x if isinstance(y, str)]
    return x == name if isinstance(x, str) else False


def flat(sts):
    out = []
    for x in sts:
        if x.k == "seq":
            out += x.a[0]
        else:
            out.append(x)
    return out


def deep_flat(sts):
    """Expands the statement sequences anywhere in the tree."""
    def go(x):
        if isinstance(x, N):
            if x.k == "block":
                x.a = (lst(x.a[0]),)
            else:
                x.a = tuple(go(y) for y in x.a)
            if x.k == "def" or x.k == "fn":
                f = x.a[0]
                if not f.expr:
                    f.body = lst(f.body)
                else:
                    f.body = go(f.body)
            if x.k == "class":
                for m in x.a[0].members:
                    if m[0] == "method" and m[1].body is not None:
                        m[1].body = lst(m[1].body)
            return x
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def lst(xs):
        return [go(y) for y in flat(xs)]
    return lst(sts)
