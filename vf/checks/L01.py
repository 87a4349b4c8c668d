"""Expression values against a reference evaluator, with operands held everywhere."""
import math

from ..core import Part, Discard
from .. import vals as V
from ..lang import N, Fn, Cls, Interp, render, arith, TRACE, num, isnum, V_truthy, same, max_constants

RULE = ("1-4 random typed expression trees (all operators, up to 24 leaves) over generated numbers, strings, booleans and nil, each "
        "rendered 3-6 times with its leaves held as literals, globals, locals, captured variables, parameters, attributes, list "
        "and dictionary elements, call results or traced operands; plus assignments and compound assignments through each kind of "
        "place; non-trivial = at least 3 operators and 2 different holdings")

NUMS = [0, 1, 2, 3, 5, 7, 10, 0.5, 1.5, -1, -2, -3.25, 100, 255, 1000, 4096, 65535, 2 ** 31 - 1, -2 ** 31 + 1, 2 ** 31, 2 ** 53,
        1e15, 123456789012, 0.1, 0.2, 1e-7, 99.99, 1e20, -0.75, 3.141592653589793]
STRS = ["", "a", "b", "ab", "hello", "0", " ", "Zz", "a b", "nil", "10", "A"]
OPS = ["+", "-", "*", "/", "%", "**", "&", "|", "^"]


class Tree:
    """Builds trees bottom-up, with the value every node has."""

    def __init__(self, s):
        self.s, self.leaves, self.ops = s, [], 0

    def leaf(self, v):
        self.leaves.append(v)
        return N("leaf", len(self.leaves) - 1), v

    def num(self, d):
        s = self.s
        if d <= 0 or len(self.leaves) > 20:
            v = s.pick(NUMS) if s.p(0.6) else s.int(-20, 20)
            return self.leaf(v)
        self.ops += 1
        k = s.below(12)
        if k < 8:
            op = s.pick(OPS)
            a, x = self.num(d - 1 - s.below(2))
            b, y = self.num(d - 1 - s.below(2))
            r = arith(op, x, y)
            if r is None or abs(r) > 1e290 or (r == 0 and op == "**"):
                op = s.pick(["-", "+"])
                r = arith(op, x, y)
                if r is None:
                    return self.leaf(1)
            return N("bin", op, a, b), r
        if k == 8:
            a, x = self.num(d - 1)
            return N("neg", a), -float(x)
        if k == 9:
            return self.tern(self.num, d)
        if k == 10:
            a, x = self.num(d - 1)
            b, y = self.num(d - 1)
            return (N("or", a, b), x if V_truthy(x) else y) if s.below(2) else (N("and", a, b), y if V_truthy(x) else x)
        a, x = self.num(d - 1)
        return N("group", a), x

    def tern(self, f, d):
        c, v = self.any(d - 1)
        a, x = f(d - 1)
        b, y = f(d - 1)
        return N("tern", c, a, b), x if V_truthy(v) else y

    def str(self, d):
        s = self.s
        if d <= 0 or s.below(4) == 0:
            return self.leaf(s.pick(STRS))
        self.ops += 1
        k = s.below(6)
        if k < 4:
            a, x = self.str(d - 1)
            b, y = self.str(d - 1)
            return N("bin", "+", a, b), x + y
        if k == 4:
            return self.tern(self.str, d)
        a, x = self.str(d - 1)
        return N("group", a), x

    def bool(self, d):
        s = self.s
        if d <= 0:
            return self.leaf(bool(s.below(2)))
        self.ops += 1
        k = s.below(9)
        if k < 4:
            op = s.pick(["<", "<=", ">", ">=", "==", "!="])
            if op in ("==", "!=") and s.below(3) == 0:
                a, x = self.any(d - 1)
                b, y = self.any(d - 1)
            elif s.below(6) == 0:
                a, x = self.str(d - 1)
                b, y = self.str(d - 1)
            else:
                a, x = self.num(d - 1)
                b, y = self.num(d - 1)
            r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                 "==": lambda: same(x, y), "!=": lambda: not same(x, y)}[op]()
            return N("bin", op, a, b), r
        if k < 6:
            a, x = self.any(d - 1)
            return N("not", a), not V_truthy(x)
        if k < 8:
            a, x = self.bool(d - 1)
            b, y = self.bool(d - 1)
            return (N("or", a, b), x or y) if s.below(2) else (N("and", a, b), x and y)
        a, x = self.bool(d - 1)
        return N("group", a), x

    def any(self, d):
        s = self.s
        k = s.weighted([(5, "num"), (4, "bool"), (2, "str"), (1, "nil"), (2, "mix")])
        if k == "nil":
            return self.leaf(None)
        if k == "mix" and d > 0:
            self.ops += 1
            a, x = self.any(d - 1)
            b, y = self.any(d - 1)
            return (N("or", a, b), x if V_truthy(x) else y) if s.below(2) else (N("and", a, b), y if V_truthy(x) else x)
        return getattr(self, k if k != "mix" else "num")(d)


def subst(x, f):
    if x.k == "leaf":
        return f(x.a[0])
    return N(x.k, *[subst(y, f) if isinstance(y, N) else y for y in x.a])


HOLD = ["lit", "global", "elem", "dict", "attr", "call", "trace", "local", "param", "capt", "const"]


def gen_values(s):
    prog = []
    total = 0
    holds = set()
    ops = 0
    for tno in s.many(1, 4, 2):
        T = Tree(s)
        tree, val = T.any(s.pick([1, 2, 3, 3, 4]))
        ops = max(ops, T.ops)
        L = T.leaves
        p = "g%d_" % tno

        def lit(i):
            return N("lit", L[i])
        # shared holders
        prog.append(N("var", [(p + "v%d" % i, lit(i)) for i in range(len(L))]))
        prog.append(N("var", [(p + "l", N("list", [lit(i) for i in range(len(L))]))]))
        prog.append(N("var", [(p + "d", N("dict", [(N("lit", "k%d" % i if i % 2 else i), lit(i)) for i in range(len(L))]))]))
        prog.append(N("class", Cls(p + "C")))
        prog.append(N("var", [(p + "o", N("call", N("var", p + "C"), [], False))]))
        for i in range(len(L)):
            prog.append(N("expr", N("setattr", N("var", p + "o"), "a%d" % i, lit(i))))
        total += len(L) * 5
        if total > 110:
            break
        for r in range(3 + s.below(3)):
            ctx = s.pick(["top", "fn", "closure", "method", "block"])
            allowed = {"top": 7, "block": 8, "fn": 9, "closure": 11, "method": 9}[ctx]
            mode = s.below(4)           # 0 all literal, 1 one kind, 2-3 mixed
            kind = s.below(allowed)

            def h(i):
                k = 0 if (mode == 0 or r == 0) else kind if mode == 1 else s.below(allowed)
                k = HOLD[k]
                holds.add(k)
                if k == "lit":
                    return lit(i)
                if k == "global":
                    return N("var", p + "v%d" % i)
                if k == "elem":
                    return N("idx", N("var", p + "l"), num(i if s.below(2) else i - len(L)))
                if k == "dict":
                    return N("idx", N("var", p + "d"), N("lit", "k%d" % i if i % 2 else i))
                if k == "attr":
                    return N("get", N("var", p + "o"), "a%d" % i)
                if k == "call":
                    return N("call", N("var", "id"), [lit(i)], False)
                if k == "trace":
                    return N("t", "%d" % i, lit(i))
                return N("var", {"local": "x", "param": "p", "capt": "c", "const": "q"}[k] + str(i))
            e = subst(tree, h)
            loc = [N("var", [("x%d" % i, lit(i))]) for i in range(len(L))]
            if ctx == "top":
                prog.append(N("print", e))
            elif ctx == "block":
                prog.append(N("block", loc + [N("print", e)]))
            elif ctx in ("fn", "method"):
                f = Fn("f", [("p%d" % i, None, "") for i in range(len(L))], loc + [N("return", e)])
                args = [lit(i) for i in range(len(L))]
                if ctx == "fn":
                    prog.append(N("def", f))
                    prog.append(N("print", N("call", N("var", "f"), args, False)))
                else:
                    c = Cls("M")
                    c.members.append(("method", f))
                    prog.append(N("class", c))
                    prog.append(N("print", N("mcall", N("call", N("var", "M"), [], False), "f", args, False)))
            else:
                inner = Fn("", [], e, "arrow", True)
                body = loc + [N("var", [("c%d" % i, lit(i))]) for i in range(len(L))]
                body += [N("const", [("q%d" % i, lit(i))]) for i in range(len(L))]
                body += [N("return", N("fn", inner))]
                prog.append(N("def", Fn("mk", [("p%d" % i, None, "") for i in range(len(L))], body)))
                prog.append(N("print", N("call", N("call", N("var", "mk"), [lit(i) for i in range(len(L))], False), [], False)))
            total += len(L) + 4
            if total > 150:
                break
    return prog, ops >= 3 and len(holds) >= 2, False


def gen_assign(s):
    """Assignments and compound assignments through every kind of place."""
    prog = [N("def", Fn("id", [("x", None, "")], [N("return", N("var", "x"))]))]
    c = Cls("P")
    c.members.append(("var", "cv", num(3)))
    prog += [N("class", c), N("var", [("o", N("call", N("var", "P"), [], False))]),
             N("expr", N("setattr", N("var", "o"), "a", num(4))),
             N("var", [("g", num(2)), ("l", N("list", [num(1), num(2), num(3)])), ("s", N("lit", "x"))]),
             N("var", [("d", N("dict", [(N("lit", "k"), num(7)), (num(1), num(8))]))])]
    body = [N("var", [("x", num(5)), ("y", num(6))]),
            N("var", [("inner", N("fn", Fn("", [("n", None, "")], [N("expr", N("cset", "y", "+", N("var", "n"))), N("return", N("var", "y"))], "arrow")))])]
    names = ["g", "x", "y"]
    n = 0

    def small():
        return s.pick([num(s.int(0, 9)), N("var", s.pick(names)), N("idx", N("var", "l"), num(s.below(3))),
                       N("get", N("var", "o"), "a"), N("bin", s.pick(["+", "-"]), N("var", s.pick(names)), num(s.int(0, 5))),
                       N("t", "e%d" % s.below(9), num(s.int(0, 9))), N("call", N("var", "id"), [num(s.int(0, 9))], False),
                       N("group", N("set", s.pick(names), num(s.int(0, 9)))),
                       N("call", N("var", "inner"), [num(s.int(0, 3))], False)])
    budget = 60
    for _ in s.many(3, 16, 8):
        op = s.pick(["+", "-", "*", "/", "&", "|", "^"])
        if op == "/":
            rhs = N("bin", "+", N("bin", "&", small(), num(3)), num(1))
            rhs = num(s.pick([1, 2, 4]))
        else:
            rhs = small()
        k = s.below(8)
        if k == 0:
            e = N("cset", s.pick(names), op, rhs)
        elif k == 1:
            e = N("csetidx", N("var", "l"), s.pick([num(s.below(3)), num(-1), N("t", "i", num(s.below(3))), N("bin", "-", num(2), num(1))]), op, rhs)
        elif k == 2:
            e = N("csetattr", s.pick([N("var", "o"), N("t", "o", N("var", "o"))]), "a", op, rhs)
        elif k == 3:
            e = N("csetidx", N("var", "d"), s.pick([N("lit", "k"), num(1)]), op, rhs)
        elif k == 4:
            e = N("set", s.pick(names), N("set", s.pick(names), rhs))
        elif k == 5:
            e = N("setidx", N("t", "l", N("var", "l")), N("t", "j", num(s.int(-3, 2))), rhs)
        elif k == 6:
            e = N("setattr", N("var", "o"), "a", rhs)
        else:
            e = N("csetattr", N("var", "P"), "cv", op, rhs)
        tail = N("list", [N("var", "g"), N("var", "x"), N("var", "y"), N("var", "l"), N("get", N("var", "o"), "a"),
                          N("idx", N("var", "d"), N("lit", "k")), N("idx", N("var", "d"), num(1)), N("get", N("var", "P"), "cv")])
        if e.k in ("cset", "set") and s.below(2):
            body.append(N("print", e))
        else:
            body.append(N("expr", e))
        body.append(N("print", tail))
        n += 1
        budget -= 6
        if budget < 0:
            break
    prog.append(N("def", Fn("main", [], body)))
    prog.append(N("expr", N("call", N("var", "main"), [], False)))
    return prog, n >= 3, True


def check(case, ctx):
    prog, nt, assign = case
    pre = [N("def", Fn("id", [("x", None, "")], [N("return", N("var", "x"))]))]
    I = Interp()
    full = pre + prog
    if max_constants(full) > 245:
        raise Discard()
    src = TRACE + render(full)
    err = I.run(full)
    if err is not None:
        raise Discard()
    if any("nan" in l for l in I.out):
        raise Discard()
    if nt:
        ctx.nontrivial(src)
    ctx.label("printed values", len(I.out))
    ctx.expect(src, I.out)


def parts():
    return [Part("values", gen_values, check, 9000), Part("assign", gen_assign, check, 2500)]
