"""Printing, equality and truth of nested values, however they were built."""
import math, re
from ..core import Part, Shown, Any
from .. import vals as V

RULE = ("3-6 nested values (depth up to 4, every literal type), each built in two ways (literal; element by element in another "
        "order with insertions and removals in between, computed strings and numbers) and perturbed at one leaf; printed forms, "
        "toString, format, type, ==/!= over all pairs, and truth through 9 constructs are compared with the model; non-trivial = a "
        "collection of depth two or more with an equal and an unequal partner")

MORE = [0, -0.0, 1, -1, 0.1, 1 / 3, 1e15, 1e16, 123456789012345678, 1e-5, 0.0001, 1e21, 5e-324, 1.7976931348623157e308, 2**53,
        2**53 + 2, 999999999999999.9, 0.30000000000000004, 100000, 1e5, 1e100, 12345.678901234567]


def num(s):
    return s.pick(MORE) * s.pick([1, -1]) if s.below(3) == 0 else V.gen_num(s)


def value(s, d):
    if d <= 0 or s.below(5) == 0:
        return num(s) if s.below(3) == 0 else V.gen_scalar(s)
    k = s.below(4)
    if k <= 1:
        return [value(s, d - 1) for _ in s.many(0, 5, 2)]
    if k == 2:
        return V.DictV([(V.gen_scalar(s), value(s, d - 1)) for _ in s.many(0, 5, 2)])
    return V.SetV([V.gen_scalar(s) for _ in s.many(0, 5, 2)])


def depth(v):
    if isinstance(v, list):
        return 1 + max([depth(x) for x in v] or [0])
    if isinstance(v, V.DictV):
        return 1 + max([depth(x) for _, x in v.items()] or [0])
    return 1 if isinstance(v, V.SetV) else 0


def perturb(s, v):
    """A value that differs in one place."""
    if isinstance(v, list):
        if not v or s.below(4) == 0:
            r = list(v)
            k = s.below(3)
            if k == 0 or not r:
                r.insert(s.below(len(r) + 1), s.pick([0, "", None, False]))
            elif k == 1:
                r.pop(s.below(len(r)))
            else:
                r.reverse()
            return r
        i = s.below(len(v))
        return v[:i] + [perturb(s, v[i])] + v[i + 1:]
    if isinstance(v, V.DictV):
        it = v.items()
        if not it or s.below(4) == 0:
            return V.DictV(it + [(s.pick([0, "", None, False, "zz"]), s.pick([0, None]))]) if s.below(2) or not it else V.DictV(it[1:])
        i = s.below(len(it))
        k, x = it[i]
        if s.below(4) == 0:
            it[i] = (perturb(s, k), x)
        else:
            it[i] = (k, perturb(s, x))
        return V.DictV(it)
    if isinstance(v, V.SetV):
        it = v.items()
        if not it or s.below(2):
            return V.SetV(it + [s.pick([0, "", None, False, "zz"])])
        i = s.below(len(it))
        return V.SetV(it[:i] + [perturb(s, it[i])] + it[i + 1:])
    if isinstance(v, str):
        return s.pick([v + "x", v[:-1] if v else "0", v.swapcase() if v.swapcase() != v else v + " ", 0, None])
    if isinstance(v, bool):
        return s.pick([not v, 1 if v else 0, "true" if v else "false"])
    if v is None:
        return s.pick([False, 0, "", "nil"])
    return s.pick([v + 1 if v + 1 != v else 0, str(V.fmt(v)), -v if v else True, math.nextafter(float(v), math.inf) if 1e-9 < abs(v) < 1e15 else None])


def alt(s, v, L, n):
    """Statements in L building v another way -> expression."""
    if isinstance(v, str) and v and s.below(2):
        i = s.below(len(v) + 1)
        return "(%s + %s)" % (V.lit(v[:i]), V.lit(v[i:]))
    if isinstance(v, (list, V.DictV, V.SetV)):
        n[0] += 1
        x = "t%d" % n[0]
        if isinstance(v, list):
            L.append("var %s = [];" % x)
            for e in v:
                a = alt(s, e, L, n)
                k = s.below(4)
                if k == 0:
                    L.append("%s.push(99); %s.pop();" % (x, x))
                L.append("%s.push(%s);" % (x, a) if k < 3 else "%s.extend([%s]);" % (x, a))
        elif isinstance(v, V.DictV):
            it = v.items()
            s.shuffle(it)
            L.append("var %s = {};" % x)
            for k, e in it:
                if s.below(3) == 0:
                    L.append("%s['junk'] = 1; %s.remove('junk');" % (x, x))
                if s.below(4) == 0:
                    L.append("%s[%s] = 'old';" % (x, V.lit(k)))
                L.append("%s[%s] = %s;" % (x, alt(s, k, L, n), alt(s, e, L, n)))
            if s.below(2):
                j = s.below(20)
                L.append("for (var i = 0; i < %d; i += 1) { %s['j{}'.format(i)] = i; } for (var i = 0; i < %d; i += 1) { %s.remove('j{}'.format(i)); }" % (j, x, j, x))
        else:
            it = v.items()
            s.shuffle(it)
            L.append("var %s = set();" % x)
            for e in it:
                if s.below(3) == 0:
                    L.append("%s.add('junk'); %s.remove('junk');" % (x, x))
                L.append("%s.add(%s);" % (x, alt(s, e, L, n)))
            if s.below(2):
                j = s.below(20)
                L.append("for (var i = 0; i < %d; i += 1) { %s.add('j{}'.format(i)); } for (var i = 0; i < %d; i += 1) { %s.remove('j{}'.format(i)); }" % (j, x, j, x))
        return x
    if isinstance(v, (int, float)) and not isinstance(v, bool) and float(v) == int(v) and abs(v) < 1e6 and s.below(2) and v:
        return "(%d - 3)" % (int(v) + 3)
    return V.lit(v)


TRUTH = ["%s ? 'T' : 'F'", "not %s", "not not %s", "%s and 1", "%s or 1", "%s.toBool()", "(%s == %s) and true", "not %s or false", "%s and %s and 2"]


def gen(s):
    out, src = [], ['var a; var b; var c;']
    nt = False
    allv = []
    n = [0]
    for i in range(s.int(3, 6)):
        v = value(s, s.pick([0, 1, 2, 3, 4]))
        if len(V.lit(v)) > 400:
            continue
        p = perturb(s, v)
        if isinstance(p, float) and p != p:
            continue
        nt |= depth(v) >= 2
        L = []
        o0 = len(out)
        L.append("a = %s;" % V.lit(v))
        L.append("b = %s;" % alt(s, v, L, n))
        L.append("c = %s;" % V.lit(p))
        nset = len(L)
        e = V.eq(v, p)
        for st, r in (("a == b", True), ("b == a", True), ("a != b", False), ("a == c", e), ("c == b", e), ("b != c", not e),
                      ("[a] == [b]", True), ("{'k': b} == {'k': a}", True), ("[a, 1] == [c, 1]", e), ("not (a == c)", not e)):
            if s.below(2):
                L.append("print(%s);" % st)
                out.append(V.show(r))
        for x, w in (("a", v), ("b", v), ("c", p)):
            L.append("print(type(%s)); print(%s);" % (x, x))
            out += [V.typ(w), Shown(w) if not isinstance(w, str) else w]
            if not isinstance(w, str):
                L.append("print(%s.toString());" % x)
                out.append(Shown(w))
            L.append('print([%s]); print("<{}>".format([%s]));' % (x, x))
            out += [Shown([w])]
            out.append(Wrapped([w]))
            t = V.truthy(w)
            L.append("if (%s) { print('T'); } else { print('F'); }" % x)
            out.append("T" if t else "F")
            k = s.pick([0, 1, 2, 3, 4, 6, 7, 8] if isinstance(w, bool) else list(range(9)))
            L.append("print(%s);" % (TRUTH[k].replace("%s", x)) if True else "")
            exp = [lambda: "T" if t else "F", lambda: V.show(not t), lambda: V.show(t), lambda: V.show(1) if t else Shw(w),
                   lambda: Shw(w) if t else V.show(1), lambda: V.show(t), lambda: "true", lambda: V.show(not t) if not t else "false",
                   lambda: "2" if t else Shw(w)][k]()
            out.append(exp)
            L.append("{ var q = 0; while (%s) { q += 1; if (q == 3) { break; } } print(q); for (; %s;) { q = 9; break; } print(q); }" % (x, x))
            out += ["3" if t else "0", "9" if t else "0"]
        if sum(len(re.findall(r"[\w.]+|'", x)) for x in L[:nset]) > 150:
            out = out[:o0]
            continue
        src.append("def s%d() {\n%s\n}\ns%d();" % (i, "\n".join(L[:nset]), i))
        for g in range(nset, len(L), 6):
            src.append("def g%d_%d() {\n%s\n}\ng%d_%d();" % (i, g, "\n".join(L[g:g + 6]), i, g))
        allv.append((v, p))
    return src, out, nt


def Shw(w):
    return w if isinstance(w, str) else Shown(w)


def Wrapped(w):
    return ("<", Shown(w), ">")


def check(case, ctx):
    src, out, nt = case
    if nt:
        ctx.nontrivial(src)
    r = ctx.run("\n".join(src) + "\n")
    ctx.alive(r)
    got = r.out.decode("utf-8", "surrogateescape").split("\n")[:-1]
    items = []
    for i, it in enumerate(out):
        if isinstance(it, tuple):
            if i < len(got) and got[i].startswith("<") and got[i].endswith(">"):
                got[i] = got[i][1:-1]
            items.append(it[1])
        else:
            items.append(it)
    from ..core import match_output
    m = match_output(got, items)
    if m:
        ctx.fail("output", m + " (exit %s, %r)" % (r.exit, r.err[-300:]))
    ctx.status(r)


# -- objects that are equal only to themselves ----------------------------
OBJ = [("f", "<fn f>", "function"), ("A", "<Cls A>", "class"), ("a1", "<A instance>", "A"), ("a2", "<A instance>", "A"), ("E", "<Enum E>", "enum"),
       ("Math", "<Module Math>", "module"), ("T", "<Trait T>", "trait"), ("h", None, "function"), ("a1.m", "<Bound Method m>", "method"),
       ("r1", None, "result"), ("r2", None, "result"), ("r3", None, "result"), ("nil", "nil", "nil"), ("true", "true", "bool"), ("'f'", "f", "string"), ("[]", "[]", "list"), ("0", "0", "number")]


def gen_obj(s):
    return [s.pick(OBJ) for _ in range(6)], s.below(1000)


def check_obj(case, ctx):
    picks, z = case
    ctx.nontrivial(case)
    src = ("import Math;\ndef f() {}\nclass A { m() {} }\nenum E { x, y }\ntrait T {}\nconst h = def (x) => x;\n"
           "const a1 = A();\nconst a2 = A();\nconst r1 = Success(0);\nconst r2 = Error(\"e\");\nconst r3 = Success(0);\n"
           "a1.z = %d; a2.z = %d;\n" % (z, z))
    out = []
    for e, p, t in picks:
        if p is not None:
            src += "print(%s); print([%s]);\n" % (e, e)
            out += [p, "[%s]" % (p if t != "string" else '"%s"' % p)]
        src += "print(type(%s));\n" % e
        out.append(t)
        tr = e not in ("nil", "0", "[]", "r2")
        src += "print(%s ? 1 : 2); print(not %s); if (%s) { print('T'); }\n" % (e, e, e)
        out += ["1" if tr else "2", V.show(not tr)] + (["T"] if tr else [])
    for i, (e, _, _) in enumerate(picks):
        for g, _, _ in picks[i:]:
            if e == "a1.m" and g == "a1.m":
                continue
            same = e == g
            src += "print(%s == %s); print(%s != %s); print([%s] == [%s]); print({1: %s} == {1: %s});\n" % ((e, g) * 4)
            out += [V.show(same), V.show(not same), V.show(same), V.show(same)]
    if len(src) > 9000:
        return
    parts_ = src.split("\n")
    k = 11
    head, body = parts_[:k + 1], parts_[k + 1:]
    src = "\n".join(head) + "\n" + "".join("def g%d() {\n%s\n}\ng%d();\n" % (i, "\n".join(body[i:i + 8]), i) for i in range(0, len(body), 8))
    ctx.expect(src, out)


def parts():
    return [Part("values", gen, check, 18000), Part("objects", gen_obj, check_obj, 4000)]
