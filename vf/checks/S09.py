"""Math functions against the mathematical result (exact integers, fractions and the platform's double functions)."""
import math
from fractions import Fraction
from ..core import Part, Discard
from .. import vals as V

RULE = ("8-30 calls per case of the 15 functions and 9 constants over integers up to 2^53, fractions, halves, negatives, zeros "
        "and huge and tiny doubles, as separate arguments or one list, held in constants, variables or expressions; results "
        "compared exactly through differences and printed digits; error calls in the REPL; non-trivial = 3+ different functions")

SPECIAL = [0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.49999999999999994, 4503599627370497.5, 9007199254740991, -9007199254740991,
           9007199254740992, 1e15 + 0.5, 1e300, -1e300, 1e-300, 0.1, 1e-7, -1e-7, 2147483647.5, -2147483648.5, 4294967295.5, 1e19]


def num(s):
    k = s.below(9)
    if k <= 2:
        return s.int(-20, 20)
    if k == 3:
        return s.int(-1000000, 1000000)
    if k == 4:
        return s.int(-400, 400) / 8
    if k == 5:
        return s.int(-9007199254740991, 9007199254740991)
    if k == 6:
        return s.int(-100, 100) / 10
    return s.pick(SPECIAL)


def whole(s, small=False):
    k = s.below(8)
    if k <= 2 or small:
        return s.int(-30, 30)
    if k == 3:
        return s.int(1, 40) * s.int(-40, 40)
    if k == 4:
        return s.pick([0, 1, -1])
    if k == 5:
        return s.int(1, 1000) * s.int(1, 1000) * s.int(1, 50)
    if k == 6:
        return s.pick([2 ** 31, 2 ** 32, 2 ** 31 - 1, 2 ** 40, 6 ** 15, -2 ** 31, 2 ** 53, 10 ** 12, 10 ** 15, 2 ** 33 * 3])
    return s.int(-10 ** 12, 10 ** 12)


def lit(v):
    t = V.lit(v)
    return t


def hold(s, v, pre):
    k = s.below(4)
    t = lit(v)
    if k <= 1:
        return t
    n = "v%d" % len(pre)
    pre.append("var %s = %s;" % (n, t))
    return n


def args(s, vs, pre):
    if s.below(2):
        return "[" + ", ".join(hold(s, v, pre) for v in vs) + "]"
    if s.below(6) == 0:
        n = "v%d" % len(pre)
        pre.append("var %s = [%s];" % (n, ", ".join(lit(v) for v in vs)))
        return n
    return ", ".join(hold(s, v, pre) for v in vs)


def exact(expr, want):
    """Print the value and whether it is exactly the double wanted."""
    w = float(want)
    t = lit(int(w)) if w == int(w) and abs(w) < 1e15 else lit(w)
    if w == 0:
        t = "0"
    return 'r = %s; print("{} {}".format(r, r == %s));' % (expr, t), ["%s true" % V.fmt(w)]


def gen(s):
    lines, want, funcs = ["import Math; var r = 0;"], [], set()
    for _ in s.many(8, 30, 14):
        pre = []
        f = s.pick(["floor", "ceil", "round", "abs", "min", "max", "sum", "average", "gcd", "lcm", "sqrt", "sin", "cos",
                    "tan", "min", "max", "gcd", "lcm", "const", "empty"])
        s.label("fn:" + f)
        funcs.add(f)
        if f in ("floor", "ceil", "round", "abs"):
            x = float(num(s))
            if f == "floor":
                w = math.floor(x)
            elif f == "ceil":
                w = math.ceil(x)
            elif f == "abs":
                w = abs(x)
            else:
                fr = Fraction(abs(x))
                w = math.floor(fr + Fraction(1, 2))
                w = -w if x < 0 else w
            w = float(w)
            if w == 0 and f != "abs":
                # the sign of a zero is not specified
                a = "Math.%s(%s)" % (f, hold(s, x, pre))
                lines += pre + ["print(%s == 0);" % a]
                want.append("true")
                continue
            l, o = exact("Math.%s(%s)" % (f, hold(s, x, pre)), w)
        elif f in ("min", "max"):
            vs = [float(num(s)) for _ in s.many(1, 9, 3)]
            w = min(vs) if f == "min" else max(vs)
            if w == 0:
                continue
            l, o = exact("Math.%s(%s)" % (f, args(s, vs, pre)), w)
        elif f in ("sum", "average"):
            # integers and eighths: every partial sum is exact
            vs = [s.int(-1000000, 1000000) if s.below(2) else s.int(-80000, 80000) / 8 for _ in s.many(1, 9, 3)]
            w = sum(Fraction(v) for v in vs)
            if f == "average":
                w = float(w) / len(vs)
            if w == 0:
                continue
            l, o = exact("Math.%s(%s)" % (f, args(s, vs, pre)), w)
        elif f in ("gcd", "lcm"):
            vs = [whole(s, f == "lcm" and s.below(2) == 0) for _ in s.many(2, 6, 3)]
            w = abs(vs[0])
            for v in vs[1:]:
                w = math.gcd(w, v) if f == "gcd" else math.lcm(w, v)
                if w > 2 ** 53:
                    break
            if w > 2 ** 53:
                continue
            l, o = exact("Math.%s(%s)" % (f, args(s, vs, pre)), w)
        elif f == "sqrt":
            if s.below(2):
                k = s.int(0, 94906265)
                l, o = exact("Math.sqrt(%s)" % hold(s, k * k, pre), k)
            else:
                x = abs(float(num(s)))
                l, o = exact("Math.sqrt(%s)" % hold(s, x, pre), math.sqrt(x))
        elif f in ("sin", "cos", "tan"):
            x = s.int(-6400, 6400) / 1000 if s.below(2) else s.int(-1000, 1000)
            w = getattr(math, f)(x)
            a = "Math.%s(%s)" % (f, hold(s, x, pre))
            lo, hi = w - max(abs(w), 1) * 1e-14, w + max(abs(w), 1) * 1e-14
            l, o = "r = %s; print(r >= %s and r <= %s);" % (a, lit(lo), lit(hi)), ["true"]
        elif f == "const":
            n, w = s.pick([("pi", math.pi), ("e", math.e), ("phi", (1 + 5 ** .5) / 2), ("sqrt2", 2 ** .5),
                           ("sqrtpi", math.pi ** .5), ("sqrtphi", ((1 + 5 ** .5) / 2) ** .5),
                           ("ln2", math.log(2)), ("ln10", math.log(10))])
            l, o = "r = Math.%s; print(r > %s and r < %s);" % (n, lit(w - 1e-13), lit(w + 1e-13)), ["true"]
        else:
            g = s.pick(["min", "max", "sum", "average"])
            l, o = "print(Math.%s(%s));" % (g, s.pick(["", "[]"])), ["0"]
        lines += pre + [l]
        want += o
    if s.below(2):
        # inside a function: the operands become locals
        lines = [lines[0], "def f() {"] + lines[1:] + ["}", "f();"]
    else:
        seen = {}
        out = []
        for l in lines:
            # unique names at top level
            out.append(l)
        lines = out
    return lines, want, funcs


def uniq(lines):
    """Wrap every call with its own holders in a block so names never clash."""
    out, buf = [lines[0]], []
    for l in lines[1:]:
        if l in ("def f() {", "}", "f();"):
            out.append(l)
        elif l.startswith("var "):
            buf.append(l)
        else:
            out.append("{ %s }" % " ".join(buf + [l]) if buf else l)
            buf = []
    return out


def check(case, ctx):
    lines, want, funcs = case
    if len(funcs) >= 3:
        ctx.nontrivial(lines)
    ctx.expect_items("\n".join(uniq(lines)) + "\n", want)


BAD = ['"1"', "nil", "true", "{}", "[1]", "Math.pi, 1", ""]


def gen_bad(s):
    steps = [("import Math;", [], False)]
    for _ in s.many(3, 12, 6):
        f = s.pick(["floor", "ceil", "round", "abs", "sqrt", "sin", "cos", "tan", "min", "max", "sum", "average", "gcd", "lcm"])
        if s.below(4) == 0:
            steps.append(("print(Math.abs(-3));", ["3"], False))
            continue
        s.label("bad:" + f)
        if f in ("min", "max", "sum", "average"):
            vs = [lit(num(s)) for _ in s.many(0, 4, 2)]
            vs.insert(s.below(len(vs) + 1), s.pick(['"1"', "nil", "true", "{}", "set()"] + (["[1]"] if vs else [])))
            a = ", ".join(vs)
            if s.below(2):
                a = "[" + a + "]"
        elif f in ("gcd", "lcm"):
            k = s.below(3)
            if k == 0:
                a = s.pick(["", "4", "[]", "[4]"])
            elif k == 1:
                vs = [lit(whole(s)) for _ in s.many(1, 4, 2)]
                vs.insert(s.below(len(vs) + 1), s.pick(['"1"', "nil", "true", "{}"]))
                a = ", ".join(vs)
            else:
                vs = [lit(whole(s)) for _ in s.many(1, 4, 2)]
                vs.insert(s.below(len(vs) + 1), s.pick(["0.5", "-2.25", "1.1", "3.999"]))
                a = ", ".join(vs)
            if k and s.below(2):
                a = "[" + a + "]"
        else:
            a = s.pick(BAD)
        steps.append(("print(Math.%s(%s));" % (f, a), [], True))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def parts():
    return [Part("values", gen, check, 8000), Part("errors", gen_bad, check_bad, 1500)]
