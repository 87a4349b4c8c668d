"""Indexing, slicing, index assignment against Python sequences."""
from ..core import Part
from .. import vals as V

RULE = ("4-40 index reads, slices, index assignments and compound index assignments on a list, a nested list, a dictionary and a "
        "string, with indexes negative, omitted, beyond either end, huge, held in variables or computed with side effects; "
        "the whole state is printed after every change; as a file or in the REPL with failing accesses in between; "
        "non-trivial = a slice and an assignment")
OPS = {"+=": lambda a, b: a + b, "-=": lambda a, b: a - b, "*=": lambda a, b: a * b, "/=": lambda a, b: a / b,
       "&=": lambda a, b: int(a) & b, "^=": lambda a, b: int(a) ^ b, "|=": lambda a, b: int(a) | b}
HUGE = [2**31, 2**31 - 1, -2**31, 2**32, 2**32 + 1, -2**32, 10**12, -10**12, 2**53, 10**10]


def gen(s, allow_err):
    uniq = [100]

    def el():
        r = s.below(8)
        uniq[0] += 1
        if r == 0:
            return "s%d" % uniq[0]
        if r == 1:
            return s.pick([None, True, False, ""])
        return uniq[0]
    n = s.pick([0, 1, 2, 3, 5, 8, 9, 17, 40]) if s.below(3) else s.int(0, 12)
    A = [el() for _ in range(n)]
    N = [[s.below(20) for _ in range(s.int(1, 4))] for _ in range(s.int(1, 3))]
    D = {"k%d" % i: s.below(30) for i in range(s.int(1, 4))}
    T = "".join(s.pick("abcdefghijXYZ 01") for _ in range(s.int(0, 14)))
    steps = [("var calls = 0; def idx(i) { calls += 1; return i; }", [], False),
             ("var a = %s; var n = %s; var d = %s; var t = %s;" % (V.lit(A), V.lit(N), V.lit(V.DictV(D.items())), V.lit(T)), [], False)]
    calls = done = 0
    nsl = nas = 0

    def index(L):
        """-> (source, value)"""
        nonlocal calls
        r = s.below(10)
        if L and r < 7:
            i = s.int(-L, L - 1)
        elif r < 9:
            i = s.pick([L, -L - 1, L + 1, L + s.below(50), -L - s.below(50), 0])
        else:
            i = s.pick(HUGE)
        src = str(i)
        k = s.below(5)
        if k == 0:
            src, calls = "idx(%s)" % src, calls + 1
        elif k == 1 and i >= 0 and i < 1000:
            src = "%d + %d" % (i - i // 2, i // 2)
        elif k == 2 and i == L - 1 and L:
            src = "W.len() - 1"
        return src, i

    for _ in s.many(4, 40, 16):
        c0 = calls = done
        w = s.weighted([(4, "a"), (2, "t"), (2, "n"), (1, "d")])
        seq = {"a": A, "t": T, "n": N, "d": D}[w]
        op = s.weighted([(4, "get"), (5, "slice"), (3, "set"), (3, "comp"), (1, "slice2"), (1, "alias")])
        if w == "d":
            op = s.pick(["get", "set", "comp"])
            k = s.pick(list(D)) if s.below(6) else "zz"
            key = '"%s"' % k
            if op == "get":
                st = ("print(d[%s]);" % key, [V.fmt(D[k])] if k in D else [], k not in D)
            elif op == "set":
                v = s.below(50)
                D[k] = v
                st = ("d[%s] = %d; print(d[%s]);" % (key, v, key), [V.fmt(v)], False)
                nas += 1
            else:
                o = s.pick(list(OPS))
                b = s.int(1, 9)
                if k in D and not 0 <= D[k] < 2**20 or (k in D and D[k] != int(D[k])):
                    o = "+="
                if k in D:
                    D[k] = OPS[o](D[k], b)
                st = ("d[%s] %s %d; print(d[%s]);" % (key, o, b, key), [V.fmt(D[k])] if k in D else [], k not in D)
                nas += 1
        elif op in ("slice", "slice2") or (op == "alias" and w != "a"):
            L = len(seq)
            r = s.below(5)
            if r == 0:
                e, ev = index(L)
                src, v = "%s[:%s]" % (w, e), seq[:ev]
            elif r == 1:
                b, bv = index(L)
                src, v = "%s[%s:]" % (w, b), seq[bv:]
            else:
                b, bv = index(L)
                e, ev = index(L)
                src, v = "%s[%s:%s]" % (w, b, e), seq[bv:ev]
            src = src.replace("W", w)
            if op == "slice2":
                b, bv = index(len(v))
                src, v = "%s[%s:]" % (src, b.replace("W.len() - 1", str(bv))), v[bv:]
            nsl += 1
            pre = "s = " if s.below(3) == 0 else None
            if pre and w == "a":
                # the slice is a new list: changing it leaves a alone
                line = "{ var s = %s; s.push(1); s.reverse(); print(s); }" % src
                st = (line, [V.show((list(v) + [1])[::-1])], False)
            elif w == "t":
                st = ("print(%s == %s); print((%s).len());" % (src.replace("idx", ""), V.lit(v), src.replace("idx", "")), ["true", str(len(v))], False)
                calls = c0
            else:
                st = ("print(%s);" % src, [V.show(v)], False)
        elif op == "alias":
            i, iv = index(len(A))
            ok = -len(A) <= iv < len(A)
            st = ("{ var b = a; b[%s] = 7; print(a[%d]); }" % (i.replace("W", "a"), iv), ["7"] if ok else [], not ok)
            if ok:
                A[iv] = 7
        elif op == "get":
            i, iv = index(len(seq))
            ok = -len(seq) <= iv < len(seq)
            if w == "t":
                st = ("print([t[%s]]);" % i.replace("W", "t"), [V.show([T[iv]])] if ok else [], not ok)
            elif w == "n" and ok and s.below(2):
                j, jv = index(len(N[iv]))
                ok = -len(N[iv]) <= jv < len(N[iv])
                st = ("print(n[%s][%s]);" % (i.replace("W", "n"), j.replace("W.len() - 1", str(jv))), [V.show(N[iv][jv])] if ok else [], not ok)
            else:
                st = ("print(%s[%s]);" % (w, i.replace("W", w)), [V.show(seq[iv])] if ok else [], not ok)
        else:
            nas += 1
            if w == "t":
                if not allow_err:
                    continue
                i, iv = index(len(T))
                st = ("t[%s] = 'x';" % i.replace("W", "t"), [], True)
            else:
                i, iv = index(len(seq))
                ok = -len(seq) <= iv < len(seq)
                tgt, tsrc = seq, "%s[%s]" % (w, i.replace("W", w))
                if w == "n":
                    if not ok:
                        continue
                    j, jv = index(len(N[iv]))
                    tgt, tsrc = N[iv], "n[%d][%s]" % (iv, j.replace("W.len() - 1", str(jv)))
                    calls = c0 + ("idx" in j)
                    iv = jv
                    ok = -len(tgt) <= iv < len(tgt)
                if op == "set":
                    v = el() if w == "a" else s.below(40)
                    st = ("%s = %s;" % (tsrc, V.lit(v)), [], not ok)
                    if ok:
                        tgt[iv] = v
                else:
                    cur = tgt[iv] if ok else 0
                    if isinstance(cur, str):
                        o, b = "+=", "z"
                    elif cur is None or isinstance(cur, bool):
                        continue
                    else:
                        o, b = s.pick(list(OPS)), s.int(1, 9)
                        if cur != int(cur) or not 0 <= cur < 2**20:
                            o = s.pick(["+=", "-=", "*=", "/="])
                        if abs(cur) > 1e6:
                            o = "/="
                    st = ("%s %s %s;" % (tsrc, o, V.lit(b)), [], not ok)
                    if ok:
                        tgt[iv] = OPS[o](cur, b)
        if st[2] and not allow_err:
            calls = c0
            continue
        s.label("%s:%s%s" % (w, op, ":err" if st[2] else ""))
        steps.append(st)
        done = calls
        steps.append(("print(a); print(n); print(d); print(t.len()); print(calls);",
                      [V.show(A), V.show(N), V.show(V.DictV(D.items())) if 0 else SHOWD(D), str(len(T)), str(calls)], False))
    return steps, nsl, nas


def SHOWD(D):
    from ..core import Shown
    return Shown(V.DictV(list(D.items())))


def check(case, ctx):
    (steps, nsl, nas), mode = case
    if nsl and nas:
        ctx.nontrivial([x[0] for x in steps])
    if mode == 2:
        ctx.repl(steps)
        return
    src = "\n".join(x[0] for x in steps[:2]) + "\n"
    body = [x[0] for x in steps[2:]]
    for g in range(0, len(body), 8):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(body[g:g + 8]), g)
    if mode == 1:
        src = "def f() {\n" + src + "\n}\nf();"
    ctx.expect_items(src + "\n", [i for x in steps for i in x[1]])


def parts():
    return [Part("file", lambda s: (gen(s, False), s.below(2)), check, 8000),
            Part("repl", lambda s: (gen(s, True), 2), check, 7000)]
