"""The programs of all other checks, with a collection at every allocation."""
import re
from .. import pool

VARIANTS = ("asan", "stress", "release")
TECHNIQUE = "differential property testing: generated programs under three collection schedules (every allocation, threshold with ASan, threshold optimised), with shrinking"
RULE = ("the generated programs, sessions and histories of every other check (language, collections, standard library); each is run with a "
        "collection at every allocation (ASan), with collections at the threshold (ASan/UBSan), and every fourth one optimised without "
        "instrumentation; output, error text and exit status must be identical and no run may touch memory it does not own; "
        "non-trivial = the other check counts the program as non-trivial")
RANDOM = re.compile(rb"\$2b\$\d\d\$[./A-Za-z0-9]{53}|[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|\d{4}/\d\d/\d\d \d\d:\d\d:\d\d")
LOST = re.compile(rb"Total bytes lost: -?\d+\n?$")


def clean(ctx, variant, b):
    # a bcrypt hash carries a random salt, a UUID is different every time, a log line has the time
    return RANDOM.sub(b"<random>", b.replace(ctx.dir(variant).encode(), b"<dir>"))


def hook(ctx, kind, src, variant, kw):
    f = ctx.run if kind == "run" else ctx.raw
    r = f(src, "asan", **kw)
    if r.crashed and not r.timeout:
        raise pool.Own("crash:" + r.site(), r.describe())
    kw2 = dict(kw)
    kw2["cpu"] = kw.get("cpu", 5) * 6
    variants = ["stress"] if len(src) % 4 else ["stress", "release"]
    for v in variants:
        q = f(src, v, **kw2)
        if q.timeout or r.timeout:
            continue
        if q.crashed:
            raise pool.Own("crash:" + q.site(), "%s (%s build)" % (q.describe(), v))
        a = clean(ctx, "asan", r.out), clean(ctx, "asan", r.err), r.exit
        b = LOST.sub(b"", clean(ctx, v, q.out)), clean(ctx, v, q.err), q.exit
        for i, what in enumerate(("output", "error output", "exit status")):
            if a[i] != b[i]:
                x, y = (a[i], b[i]) if i == 2 else diff(a[i], b[i])
                raise pool.Own("schedule", "%s differs between collection schedules: normal %r, %s %r" % (what, x, v, y))
    return r


def diff(a, b):
    x, y = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else b"<end>"
        q = y[i] if i < len(y) else b"<end>"
        if p != q:
            return p[:300], q[:300]
    return a[-100:], b[-100:]


def parts():
    return pool.wrap(hook, 120, 3000, skip=[("I01", "*"), ("S10", "clock"), ("S16", "http"), ("S16", "json"), ("S16", "fail"), ("S16", "peer"), ("S16", "pair"), ("S16", "dgram"),    # one server, one run
                                          ("R01", "sizes"), ("R01", "bytes"), ("R02", "recursion"), ("C01", "*")])
