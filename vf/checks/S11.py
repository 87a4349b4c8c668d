"""Random values stay inside and reach everything asked for; UUIDs are well formed, of their version and distinct."""
from ..core import Part
from .. import vals as V

RULE = ("range: bounds of every sign, fractional bounds, spans of 1-40 and huge; 300 draws per span <= 6 so that a missed value "
        "has probability < 1e-20; select from lists of 1-6 mixed elements likewise; uuid: batches of 40 of each kind compared "
        "pairwise in a dictionary; non-trivial = a span or list of two or more, or a uuid batch")


def bound(s):
    k = s.below(6)
    if k <= 2:
        return s.int(-10, 10)
    if k == 3:
        return s.int(-40, 40) / 4
    if k == 4:
        return s.int(-10 ** 9, 10 ** 9)
    return s.pick([0, -1, 2 ** 31 - 3, 2 ** 31, -2 ** 31, 2 ** 40, -2 ** 40])


def gen(s):
    import math
    lines, want, nt = ["import Random;"], [], False
    for i in range(len(list(s.many(2, 6, 3)))):
        k = s.below(5)
        if k == 0:
            s.label("random")
            lines.append("var lo%d = 0; var hi%d = 0; for (var i = 0; i < 200; i += 1) { const r = Random.random(); if (r < 0 or r > 1) { print(r); } "
                         "if (r < 0.5) { lo%d += 1; } else { hi%d += 1; } } print(lo%d > 20 and hi%d > 20);" % ((i,) * 6))
            want.append("true")
        elif k <= 3:
            a = bound(s)
            span = s.pick([0, 1, 1, 2, 3, 5, 5, 0.25, 0.75, 1.5, 2.25, 40, 1000, 2 ** 31, 2 ** 33])
            b = a + span
            lo, hi = math.ceil(a), math.floor(b)
            if lo > hi:
                continue
            s.label("span %s" % (hi - lo if hi - lo < 7 else "large"))
            n = 300 if hi - lo <= 6 else 60
            nt |= hi > lo
            lines.append("const seen%d = {}; var bad%d = 0; for (var i = 0; i < %d; i += 1) { const r = Random.range(%s, %s); if (r < %s or r > %s or r %% 1 != 0) { bad%d += 1; } "
                         "seen%d[r] = true; } print(bad%d);" % (i, i, n, V.lit(a), V.lit(b), V.lit(lo), V.lit(hi), i, i, i))
            want.append("0")
            if hi - lo <= 6:
                lines.append("print(seen%d.len());" % i)
                want.append(str(hi - lo + 1))
            elif hi - lo >= 1000:
                # not stuck in one part of the span
                mid = V.lit((lo + hi) // 2)
                lines.append("var l%d = 0; var h%d = 0; seen%d.forEach(def (k, v) => { if (k < %s) { l%d += 1; } else { h%d += 1; } }); print(l%d > 3 and h%d > 3);" % (
                    i, i, i, mid, i, i, i, i))
                want.append("true")
        else:
            vs = [V.gen_scalar(s) for _ in s.many(1, 6, 3)]
            d = {V.key(v): v for v in vs}
            s.label("select %d" % len(vs))
            nt |= len(d) > 1
            lines.append("const x%d = %s; const got%d = {}; for (var i = 0; i < 300; i += 1) { const v = Random.select(x%d); if (not x%d.contains(v)) { print('alien'); } got%d[v] = true; } "
                         "print(got%d.len()); print(x%d);" % (i, V.lit(vs), i, i, i, i, i, i))
            want += [str(len(d)), V.show(vs)]
    return lines, want, nt


def check(case, ctx):
    lines, want, nt = case
    if nt:
        ctx.nontrivial(lines)
    ctx.expect_items("\n".join(lines) + "\n", want)


def gen_bad(s):
    steps = [("import Random;", [], False)]
    for _ in s.many(3, 10, 5):
        k = s.below(5)
        if k == 0:
            e = "Random.random(%s)" % s.pick(["1", "nil", "1, 2"])
        elif k == 1:
            e = "Random.range(%s)" % s.pick(["", "1", "1, 2, 3", '"1", 2', "1, nil", "true, 3", "[1, 2]", "1, \"5\""])
        elif k == 2:
            a = bound(s)
            b = a - s.pick([1, 2, 10, 100, 1.5])
            e = "Random.range(%s, %s)" % (V.lit(a), V.lit(b))
        elif k == 3:
            n = s.int(-10, 10)
            e = "Random.range(%s, %s)" % (V.lit(n + .25), V.lit(n + .75))
        else:
            e = "Random.select(%s)" % s.pick(["", "[]", "1", "nil", '"abc"', "{}", "[1], [2]", "set(1)"])
        steps.append(("print(%s);" % e, [], True))
        if s.below(3) == 0:
            steps.append(("print(Random.range(7, 7)); print(Random.select([7]));", ["7", "7"], False))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def gen_uuid(s):
    return [s.pick(["generate", "generateRandom", "generateTime"]) for _ in s.many(1, 4, 2)], s.int(2, 40)


def check_uuid(case, ctx):
    fs, n = case
    ctx.nontrivial((fs, n))
    src = "import UUID;\n"
    for f in fs:
        src += "for (var i = 0; i < %d; i += 1) { print(UUID.%s().unwrap()); }\n" % (n, f)
    r = ctx.run(src)
    ctx.alive(r)
    ctx.status(r)
    lines = r.out.replace(b"\0", b"").decode("latin1").split("\n")[:-1]
    if len(lines) != n * len(fs):
        ctx.fail("uuid", "%d lines for %d UUIDs" % (len(lines), n * len(fs)))
    if len(set(lines)) != len(lines):
        ctx.fail("uuid", "repeated UUID: %r" % sorted(lines)[:4])
    import re
    for i, l in enumerate(lines):
        f = fs[i // n]
        v = {"generate": "[14]", "generateRandom": "4", "generateTime": "1"}[f]
        if not re.fullmatch(r"[0-9a-f]{8}-[0-9a-f]{4}-%s[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}" % v, l):
            ctx.fail("uuid", "UUID.%s() gave %r" % (f, l))


def parts():
    return [Part("values", gen, check, 2500), Part("errors", gen_bad, check_bad, 800), Part("uuid", gen_uuid, check_uuid, 500)]
