"""BigInt arithmetic against Python integers, on operands shaped around word boundaries and algorithm thresholds."""
import sys
from ..core import Part
from .. import vals as V

sys.set_int_max_str_digits(0)

RULE = ("a random series of 4-30 operations (new from text, number, BigInt or Result; add, subtract, multiply, divide, modulo, "
        "negate, abs, bitwise and/or/xor of non-negative values, compare, power by repetition, factorials, chained calls, an "
        "operand used twice) over a pool of integers of 0 to 4000 bits near word boundaries; every result and, at the end, every "
        "operand is printed and compared; non-trivial = an operand of more than 64 bits, or a result whose sign differs from an operand's")


def gen_int(s, big=True):
    k = s.weighted([(3, "small"), (4, "edge"), (3, "words"), (2, "dec"), (1, "long" if big else "words"), (1, "sparse"), (1, "zero")])
    if k == "small":
        v = s.int(0, 300)
    elif k == "zero":
        v = 0
    elif k == "edge":
        w = s.pick([8, 16, 31, 32, 33, 53, 62, 63, 64, 65, 96, 127, 128, 129, 192, 256, 320])
        v = max(0, 2 ** w + s.int(-2, 2))
    elif k == "words":
        n = s.int(1, 8)
        v = 0
        for _ in range(n):
            v = v << 32 | s.pick([0, 1, 2 ** 32 - 1, 2 ** 31, s.below(2 ** 32)])
    elif k == "dec":
        n = s.int(1, 60)
        v = int("".join(s.pick(["0", "9", "1", s.pick("0123456789")]) for _ in range(n)))
    elif k == "sparse":
        v = sum(1 << (32 * s.int(0, 40) + s.pick([0, 31, 1])) for _ in range(s.int(1, 4)))
    else:
        n = s.pick([18, 19, 20, 21, 22, 38, 40, 41, 42, 60, 80, 81, 82, 100, 125])
        v = 0
        for _ in range(n):
            v = v << 32 | s.pick([0, 2 ** 32 - 1, s.below(2 ** 32), s.below(2 ** 32)])
    return -v if s.below(3) == 0 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


OPS = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
       "divide": tdiv, "modulo": lambda a, b: a - b * tdiv(a, b),
       "bitwiseAnd": lambda a, b: a & b, "bitwiseOr": lambda a, b: a | b, "bitwiseXor": lambda a, b: a ^ b}


class G:
    def __init__(self, s):
        self.s, self.lines, self.out, self.v, self.nt = s, ["import BigInt;"], [], {}, False

    def make(self, v):
        s = self.s
        k = s.below(6)
        if k == 0 and abs(v) < 2 ** 53:
            return "BigInt.new(%d)" % v
        t = str(abs(v))
        if s.below(6) == 0:
            t = "0" * s.int(1, 25) + t
        t = ("-" if v < 0 else "+" if s.below(8) == 0 else "") + t
        e = "BigInt.new('%s')" % t
        if k == 1:
            e = "BigInt.new(%s%s)" % (e, ".unwrap()" if s.below(2) else "")
        if v == 0 and k == 2:
            e = s.pick(["BigInt.new()", "BigInt.new('-0')", "BigInt.new('-000')", "BigInt.new(-0)"])
        return e

    def let(self, n, expr, v):
        """n becomes a BigInt of value v"""
        self.lines.append("%s%s = %s.unwrap(); print(%s);" % ("" if n in self.v else "var ", n, expr, n))
        self.v[n] = v
        self.out.append(str(v))

    def arg(self, n):
        """the text of an operand holding n's value"""
        s, v = self.s, self.v[n]
        k = s.below(8)
        if k == 0 and abs(v) < 2 ** 53:
            return str(v)
        if k == 1:
            return self.make(v)
        if k == 2:
            return "BigInt.new(%s).unwrap()" % n
        return n

    def step(self):
        s = self.s
        names = list(self.v)
        a, b = s.pick(names), s.pick(names)
        dst = s.pick(names) if s.below(3) == 0 or len(names) > 9 else "b%d" % len(names)
        k = s.weighted([(4, "add"), (4, "subtract"), (5, "multiply"), (4, "divide"), (4, "modulo"), (2, "bitwiseAnd"), (2, "bitwiseOr"),
                        (2, "bitwiseXor"), (3, "compare"), (2, "negate"), (2, "abs"), (2, "new"), (1, "pow"), (1, "fact"), (1, "divmod"), (1, "chain")])
        s.label("op:" + k)
        x, y = self.v[a], self.v[b]
        if abs(x).bit_length() > 64 or abs(y).bit_length() > 64:
            self.nt = True
        if k in OPS:
            if k.startswith("bit"):
                for n in (a, b):
                    if self.v[n] < 0:
                        self.let(n, "%s.abs()" % n, -self.v[n])
                x, y = self.v[a], self.v[b]
                s.label("and of disjoint" if x & y == 0 else "and overlap")
            if k == "multiply" and abs(x).bit_length() + abs(y).bit_length() > 16000:
                return
            if y == 0 and k in ("divide", "modulo"):
                self.lines.append("print(%s.%s(%s).success());" % (a, k, self.arg(b)))
                self.out.append("false")
                s.label("by zero")
                return
            v = OPS[k](x, y)
            if (v < 0) != (x < 0):
                self.nt = True
            self.let(dst, "%s.%s(%s)" % (a, k, self.arg(b)), v)
        elif k == "compare":
            self.lines.append("print(%s.compare(%s)); print(%s.compare(%s));" % (a, self.arg(b), b, self.arg(a)))
            c = (x > y) - (x < y)
            self.out += [str(c), str(-c)]
        elif k == "negate":
            self.let(dst, "%s.negate()" % a, -x)
        elif k == "abs":
            self.let(dst, "%s.abs()" % a, abs(x))
        elif k == "new":
            v = gen_int(s)
            self.let(dst, self.make(v), v)
        elif k == "divmod":
            if y == 0:
                return
            # q * y + r gives x back and |r| < |y|
            self.lines.append("{ const q = %s.divide(%s).unwrap(); const r = %s.modulo(%s); print(q.multiply(%s).unwrap().add(r).unwrap().compare(%s)); "
                              "print(r.unwrap().abs().unwrap().compare(%s.abs())); }" % (a, b, a, b, b, a, b))
            self.out += ["0", "-1"]
        elif k == "chain":
            z = s.pick(names)
            self.lines.append("print(%s.add(%s).unwrap().multiply(%s).unwrap().subtract(%s.multiply(%s)).unwrap().compare(%s.multiply(%s)));"
                              % (a, b, z, a, z, b, z))
            self.out.append("0")
        elif k == "pow":
            base, e = s.int(-40, 40), s.int(0, 60)
            n = "b%d" % len(names) if len(names) <= 9 else dst
            self.let(n, "BigInt.new(1)", 1)
            self.lines.append("for (var i = 0; i < %d; i += 1) { %s = %s.multiply(%d).unwrap(); } print(%s);" % (e, n, n, base, n))
            self.v[n] = base ** e
            self.out.append(str(base ** e))
        elif k == "fact":
            m = s.int(1, 40)
            n = "b%d" % len(names) if len(names) <= 9 else dst
            self.let(n, "BigInt.new('1')", 1)
            self.lines.append("for (var i = 1; i <= %d; i += 1) { %s = %s.multiply(BigInt.new(i)).unwrap(); } print(%s);" % (m, n, n, n))
            f = 1
            for i in range(1, m + 1):
                f *= i
            self.v[n] = f
            self.out.append(str(f))


def gen(s):
    g = G(s)
    for i in range(s.int(2, 3)):
        v = gen_int(s)
        g.let("b%d" % i, g.make(v), v)
    for _ in s.many(2, 26, 10):
        g.step()
    for n, v in g.v.items():
        g.lines.append("print(%s);" % n)
        g.out.append(str(v))
    return g.lines, g.out, g.nt, s.below(8) == 0


def check(case, ctx):
    lines, out, nt, stress = case
    if nt:
        ctx.nontrivial(lines)
    ctx.expect_items("\n".join(lines) + "\n", out, variant="stress" if stress else "asan")


BADARG = ['"12"', "nil", "1.5", "[1]", "{}", "true", "BigInt", "(1 / 0)", "1.8 * 10 ** 19" if False else "20000000000000000000", "BigInt.new('x')"]
BADTEXT = ["", "+", "-", "x", "1x", " 1", "1 ", "1.0", "--1", "+-1", "1_000", "0x1F", "1e5", "é", "١", "1-", "\x001"]


def gen_bad(s):
    steps = [("import BigInt; const a = BigInt.new('123456789012345678901234567890').unwrap();", [], False)]
    for _ in s.many(2, 10, 5):
        k = s.below(5)
        if k == 0:
            steps.append(("print(a.%s(%s).success());" % (s.pick(list(OPS) + ["compare"]), s.pick(BADARG)), ["false"], False))
        elif k == 1:
            t = s.pick([x for x in BADTEXT if "\x00" not in x])
            steps.append(("print(BigInt.new(%s).success());" % V.lit(t), ["false"], False))
        elif k == 2:
            steps.append(("print(BigInt.new(%s).success());" % s.pick(["1.5", "nil", "[]", "true", "1 / 0", "20000000000000000000", "BigInt.new('z')"]), ["false"], False))
        elif k == 3:
            steps.append(("a.%s(%s);" % (s.pick(list(OPS) + ["compare"]), s.pick(["", "1, 2", "a, a, a"])), [], True))
        else:
            steps.append(("BigInt.new(1, 2);", [], True))
    steps.append(("print(a);", ["123456789012345678901234567890"], False))
    return steps


def check_bad(case, ctx):
    ctx.nontrivial([x[0] for x in case])
    ctx.repl(case)


def parts():
    return [Part("arithmetic", gen, check, 9000), Part("errors", gen_bad, check_bad, 1000)]
