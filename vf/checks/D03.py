"""Sets against a typed-element set model, after every operation."""
from ..core import Part, Any, Shown
from .. import vals as V
from .D02 import KEYS, k_

RULE = ("a random history of 3-50 set operations (15 kinds, incl. bulk and add/remove churn loops) on two sets, as a file "
        "or in the REPL with failing operations in between; contents compared after every operation; non-trivial = a "
        "removal followed by an insertion, and 4+ elements reached")


def gen_ops(s, allow_err):
    D = {"a": {}, "b": {}}
    steps = []
    for v in "ab":
        xs = [k_(s) for _ in s.many(0, 6, 2)]
        for x in xs:
            D[v].setdefault(V.key(x), x)
        steps.append(("var %s = set(%s);" % (v, ", ".join(V.lit(k) for k in xs)), [], False))
    removed = nt = False
    mx = 0
    for _ in s.many(3, 50, 18):
        v = "a" if s.below(4) else "b"
        d = D[v]
        bad = allow_err and s.below(6) == 0
        op = s.weighted([(10, "add"), (8, "remove"), (4, "contains"), (2, "containsAll"), (2, "values"), (2, "print"),
                         (3, "bulkadd"), (3, "bulkrm"), (2, "churn"), (1, "rmall"), (1, "eq"), (1, "cond"), (1, "readd"),
                         (1, "stradd"), (1, "reset")])
        s.label("op:" + op)
        err, out, line = False, [], None
        present = list(d.values())
        if op == "add":
            k = s.pick(present) if present and s.below(3) == 0 else k_(s)
            if bad:
                line, err = "%s.add(%s);" % (v, s.pick(["[1]", "{}", "set()"])), True
            else:
                d.setdefault(V.key(k), k)
                line = "%s.add(%s);" % (v, V.lit(k))
                nt |= removed
        elif op == "remove":
            k = s.pick(present) if present and not bad else k_(s)
            line = "%s.remove(%s);" % (v, V.lit(k))
            if V.key(k) in d:
                del d[V.key(k)]
                removed = True
            elif not allow_err:
                continue
            else:
                err = True
        elif op == "readd":
            if not present:
                continue
            k = s.pick(present)
            line = "%s.remove(%s); %s.add(%s);" % (v, V.lit(k), v, V.lit(k))
            nt = removed = True
        elif op == "contains":
            k = s.pick(present) if present and s.below(2) else k_(s)
            line, out = "print(%s.contains(%s));" % (v, V.lit(k)), [V.show(V.key(k) in d)]
        elif op == "containsAll":
            ks = [s.pick(present) for _ in s.many(0, 4, 2)] if present and s.below(2) else [k_(s) for _ in s.many(0, 3, 1)]
            line, out = "print(%s.containsAll(%s));" % (v, V.lit(ks)), [V.show(all(V.key(k) in d for k in ks))]
        elif op == "values":
            line = '%s.values().forEach(def (k) => print("{} {}".format(type(k), k)));' % v
            out = [Any("%s %s" % (V.typ(k), V.show(k)) for k in present)]
        elif op == "print":
            m = V.SetV(present)
            line, out = "print(%s); print(%s.toString());" % (v, v), [Shown(m), Shown(m)]
        elif op == "bulkadd":
            n, k, m = s.int(1, 120), s.int(1, 31), s.int(1, 200)
            line = "for (var i = 0; i < %d; i += 1) { %s.add((i * %d) %% %d); }" % (n, v, k, m)
            for i in range(n):
                d.setdefault(V.key(i * k % m), i * k % m)
            nt |= removed
        elif op == "stradd":
            n, m = s.int(1, 60), s.int(1, 80)
            line = "for (var i = 0; i < %d; i += 1) { %s.add('s{}'.format((i * 7) %% %d)); }" % (n, v, m)
            for i in range(n):
                x = "s%d" % (i * 7 % m)
                d.setdefault(V.key(x), x)
        elif op == "bulkrm":
            n, k, m = s.int(1, 120), s.int(1, 31), s.int(1, 200)
            line = ("for (var i = 0; i < %d; i += 1) { if (%s.contains((i * %d) %% %d)) { %s.remove((i * %d) %% %d); } }"
                    % (n, v, k, m, v, k, m))
            for i in range(n):
                if V.key(i * k % m) in d:
                    del d[V.key(i * k % m)]
                    removed = True
        elif op == "churn":
            n = s.int(1, 300)
            line = "for (var i = 1000; i < %d; i += 1) { %s.add(i); %s.remove(i); }" % (1000 + n, v, v)
            removed = True
        elif op == "rmall":
            line = "%s.values().forEach(def (k) => %s.remove(k));" % (v, v)
            d.clear()
        elif op == "eq":
            m1, m2 = V.SetV(D["a"].values()), V.SetV(D["b"].values())
            line, out = "print(a == b); print(b != a);", [V.show(V.eq(m1, m2)), V.show(not V.eq(m1, m2))]
        elif op == "cond":
            line, out = "print(%s ? 1 : 2); if (not %s) { print(3); } print(%s.toBool());" % (v, v, v), \
                ["1" if d else "2"] + ([] if d else ["3"]) + [V.show(bool(d))]
        elif op == "reset":
            if s.below(3):
                continue
            D[v] = {}
            line = "%s = set();" % v
        steps.append((line, out, err))
        d = D[v]
        steps.append(('print(%s.len()); %s.values().forEach(def (k) => print("{} {}".format(type(k), k)));' % (v, v),
                      [str(len(d)), Any("%s %s" % (V.typ(k), V.show(k)) for k in d.values())], False))
        mx = max(mx, len(d))
    uni = KEYS + list(range(4, 12)) + ["k1", "k2", "s0", "s7"]
    for v in "ab":
        line = "".join("print(%s.contains(%s));" % (v, V.lit(k)) for k in uni)
        steps.append((line, [V.show(V.key(k) in D[v]) for k in uni], False))
    return steps, nt, mx


def check(case, ctx):
    (steps, nt, mx), mode = case
    if nt and mx >= 4:
        ctx.nontrivial([x[0] for x in steps])
    ctx.label("mode:" + ["top level", "in function", "repl"][mode])
    ctx.label("max size %s" % ("<8" if mx < 8 else "<32" if mx < 32 else ">=32"))
    if mode == 2:
        ctx.repl(steps)
        return
    decl = [x[0] for x in steps if x[0].startswith("var ")]
    body = [x[0] for x in steps if not x[0].startswith("var ")]
    src = "\n".join(decl) + "\n"
    for g in range(0, len(body), 6):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(body[g:g + 6]), g)
    if mode == 1:
        src = "def f() {\n" + src + "\n}\nf();"
    ctx.expect_items(src + "\n", [i for x in steps for i in x[1]])


def parts():
    return [Part("file", lambda s: (gen_ops(s, False), s.below(2)), check, 6000),
            Part("repl", lambda s: (gen_ops(s, True), 2), check, 6000)]
