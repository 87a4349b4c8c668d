"""Dictionaries against a typed-key map model, after every operation."""
from ..core import Part, Any, Shown
from .. import vals as V

RULE = ("a random history of 3-50 dictionary operations (20 kinds, incl. bulk insert and bulk remove loops) on two "
        "dictionaries with keys of all key types, as a file or in the REPL with failing operations in between; contents "
        "compared after every operation; non-trivial = at least one removal followed by an insertion and 4+ keys reached")

KEYS = [None, False, True, 0, 1, 2, 3, -1, 0.5, "0", "1", "nil", "true", "a", "b", "", "key", "x y", "é", 1e10]


def k_(s):
    c = s.below(6)
    if c <= 2:
        return s.pick(KEYS)
    if c == 3:
        return s.int(0, 40)
    if c == 4:
        return "k%d" % s.int(0, 30)
    return V.gen_scalar(s)


def state_lines(v, d):
    """Print everything observable, in an order-insensitive way."""
    src = ('print(%s.len()); print(%s.toBool()); %s.forEach(def (k, v) => print("{} {} {}".format(type(k), k, v)));'
           % (v, v, v))
    items = [str(len(d)), V.show(len(d) > 0), Any("%s %s %s" % (V.typ(k), V.show(k), V.show(x)) for k, x in d.values())]
    return src, items


def gen_ops(s, allow_err):
    D = {"a": {}, "b": {}}

    def put(d, k, x):
        kk = V.key(k)
        d[kk] = (d[kk][0] if kk in d else k, x)
    steps = []
    for v in "ab":
        for _ in s.many(0, 6, 2):
            put(D[v], k_(s), V.gen_scalar(s))
        steps.append(("var %s = {%s};" % (v, ", ".join(V.lit(k) + ": " + V.lit(x) for k, x in D[v].values())), [], False))
    rm_then_ins = removed = False
    mx = 0
    for _ in s.many(3, 50, 18):
        v = "a" if s.below(4) else "b"
        o = "b" if v == "a" else "a"
        d = D[v]
        bad = allow_err and s.below(6) == 0
        op = s.weighted([(10, "set"), (7, "remove"), (4, "get"), (3, "get1"), (3, "get2"), (3, "exists"), (2, "keys"),
                         (2, "print"), (2, "merge"), (1, "compound"), (3, "bulkset"), (3, "bulkrm"), (1, "copy"),
                         (1, "eq"), (1, "reset"), (1, "rmall"), (1, "churn"), (1, "strkeys"), (1, "cond"), (1, "nested")])
        s.label("op:" + op)
        err, out, line = False, [], None
        present = [kv[0] for kv in d.values()]
        if op == "set":
            k, x = (s.pick(present) if present and s.below(3) == 0 else k_(s)), V.gen_scalar(s)
            if bad:
                line, err = "%s[%s] = 1;" % (v, s.pick(["[1]", "{}", "set()"])), True
            else:
                put(d, k, x)
                line = "%s[%s] = %s;" % (v, V.lit(k), V.lit(x))
                rm_then_ins |= removed
        elif op == "remove":
            k = s.pick(present) if present and not bad else k_(s)
            line = "%s.remove(%s);" % (v, V.lit(k))
            if V.key(k) in d:
                del d[V.key(k)]
                removed = True
            elif not allow_err:
                continue
            else:
                err = True
        elif op == "get":
            k = s.pick(present) if present and not bad else k_(s)
            line = "print(%s[%s]);" % (v, V.lit(k))
            if V.key(k) in d:
                out = [V.show(d[V.key(k)][1])]
            elif not allow_err:
                continue
            else:
                err = True
        elif op in ("get1", "get2"):
            k = s.pick(present) if present and s.below(2) else k_(s)
            dv = V.gen_scalar(s) if op == "get2" else None
            line = "print(%s.get(%s%s));" % (v, V.lit(k), ", " + V.lit(dv) if op == "get2" else "")
            out = [V.show(d[V.key(k)][1] if V.key(k) in d else dv)]
        elif op == "exists":
            k = s.pick(present) if present and s.below(2) else k_(s)
            line, out = "print(%s.exists(%s));" % (v, V.lit(k)), [V.show(V.key(k) in d)]
        elif op == "keys":
            line = '%s.keys().forEach(def (k) => print("{} {}".format(type(k), k)));' % v
            out = [Any("%s %s" % (V.typ(k), V.show(k)) for k in present)]
        elif op == "print":
            line = "print(%s);%s" % (v, " print(%s.toString());" % v)
            m = V.DictV(d.values())
            out = [Shown(m), Shown(m)]
        elif op == "merge":
            for k, x in D[o].values():
                put(d, k, x)
            line = "%s = %s.merge(%s);" % (v, v, o)
        elif op == "compound":
            nums = [k for k, x in d.values() if V.typ(x) == "number" and abs(x) < 1e9]
            if not nums:
                continue
            k = s.pick(nums)
            c = s.int(1, 9)
            put(d, k, d[V.key(k)][1] + c)
            line = "%s[%s] += %d;" % (v, V.lit(k), c)
        elif op == "bulkset":
            n, k, m = s.int(1, 120), s.int(1, 31), s.int(1, 200)
            line = "for (var i = 0; i < %d; i += 1) { %s[(i * %d) %% %d] = i; }" % (n, v, k, m)
            for i in range(n):
                put(d, i * k % m, i)
            rm_then_ins |= removed
        elif op == "strkeys":
            n, m = s.int(1, 60), s.int(1, 80)
            line = "for (var i = 0; i < %d; i += 1) { %s['s{}'.format((i * 7) %% %d)] = i; }" % (n, v, m)
            for i in range(n):
                put(d, "s%d" % (i * 7 % m), i)
        elif op == "bulkrm":
            n, k, m = s.int(1, 120), s.int(1, 31), s.int(1, 200)
            line = ("for (var i = 0; i < %d; i += 1) { if (%s.exists((i * %d) %% %d)) { %s.remove((i * %d) %% %d); } }"
                    % (n, v, k, m, v, k, m))
            for i in range(n):
                if V.key(i * k % m) in d:
                    del d[V.key(i * k % m)]
                    removed = True
        elif op == "churn":
            n = s.int(1, 200)
            line = "for (var i = 1000; i < %d; i += 1) { %s[i] = i; %s.remove(i); }" % (1000 + n, v, v)
            for i in range(1000, 1000 + n):
                d.pop(V.key(i), None)
            removed = True
        elif op == "rmall":
            line = "%s.keys().forEach(def (k) => %s.remove(k));" % (v, v)
            d.clear()
        elif op == "copy":
            D[v] = dict(D[o])
            line = "%s = %s.copy();" % (v, o)
        elif op == "reset":
            if s.below(3):
                continue
            D[v] = {}
            line = "%s = {};" % v
        elif op == "eq":
            m1, m2 = V.DictV(D["a"].values()), V.DictV(D["b"].values())
            line, out = "print(a == b); print(b != a); print(a == a.copy());", [V.show(V.eq(m1, m2)), V.show(not V.eq(m1, m2)), "true"]
        elif op == "cond":
            line, out = "print(%s ? 1 : 2); if (not %s) { print(3); }" % (v, v), ["1" if d else "2"] + ([] if d else ["3"])
        elif op == "nested":
            k = "nest"
            put(d, k, [1, 2])
            line = "%s[\"nest\"] = [1]; %s[\"nest\"].push(2);" % (v, v)
        steps.append((line, out, err))
        src, items = state_lines(v, D[v])
        steps.append((src, items, False))
        mx = max(mx, len(D[v]))
    # final look-up of a fixed universe
    uni = KEYS + list(range(4, 12)) + ["k1", "k2", "s0", "s7"]
    for v in "ab":
        line = "".join("print(%s.exists(%s));" % (v, V.lit(k)) for k in uni)
        steps.append((line, [V.show(V.key(k) in D[v]) for k in uni], False))
    return steps, rm_then_ins, mx


def check(case, ctx):
    (steps, nt, mx), mode = case
    if nt and mx >= 4:
        ctx.nontrivial([x[0] for x in steps])
    ctx.label("mode:" + ["top level", "in function", "repl"][mode])
    ctx.label("max size %s" % ("<8" if mx < 8 else "<32" if mx < 32 else ">=32"))
    if mode == 2:
        ctx.repl(steps)
        return
    decl = [x[0] for x in steps if x[0].startswith("var ")]
    body = [x[0] for x in steps if not x[0].startswith("var ")]
    src = "\n".join(decl) + "\n"
    for g in range(0, len(body), 6):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(body[g:g + 6]), g)
    if mode == 1:
        src = "def f() {\n" + src + "\n}\nf();"
    ctx.expect_items(src + "\n", [i for x in steps for i in x[1]])


def parts():
    return [Part("file", lambda s: (gen_ops(s, False), s.below(2)), check, 6000),
            Part("repl", lambda s: (gen_ops(s, True), 2), check, 6000)]
