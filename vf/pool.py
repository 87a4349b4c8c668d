"""Every generator of every other check, as a source of programs."""
import glob, importlib, os
from .core import Violation, Part, Discard, Ctx

# programs whose output legitimately differs between two runs, or that need a
# server or a directory of their own
SKIP = set()


class Own(Violation):
    """A violation of the property being checked (not of the generator's own)."""


def parts_of(exclude=(), skip=()):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for f in sorted(glob.glob(d + "/[CDILRS]*.py")):
        m = os.path.basename(f)[:-3]
        if m in exclude:
            continue
        mod = importlib.import_module("vf.checks." + m)
        for p in mod.parts():
            if p.name in getattr(mod, "POOL_SKIP_PARTS", ()) or (m, p.name) in skip or (m, "*") in skip:
                continue
            yield m, p


class Proxy:
    """Stands in for a Ctx inside another check: hands every run to hook."""
    pooled = True       # programs must not name their directory: it differs between builds

    def __init__(self, ctx, hook):
        self._c, self._hook = ctx, hook
        self.runs = ctx.runs

    def __getattr__(self, n):
        return getattr(self._c, n)

    def label(self, *a):
        pass

    def nontrivial(self, key):
        self._c.case_nontrivial = True
        self._c.case_key = key

    def run(self, source, variant="asan", **kw):
        return self._hook("run", source, variant, kw)

    def raw(self, args, variant="asan", **kw):
        return self._hook("raw", args, variant, kw)

    # the oracles call self.run, so they must be bound to the proxy
    fail, alive, expect, status, expect_items, repl = Ctx.fail, Ctx.alive, Ctx.expect, Ctx.status, Ctx.expect_items, Ctx.repl


def wrap(hook, quick, thorough, exclude=(), weight={}, skip=()):
    """Parts that run the other checks' cases through hook(ctx, kind, src, variant, kw)."""
    out = []
    for m, p in parts_of(exclude, skip):
        def check(case, ctx, p=p):
            try:
                p.check(case, Proxy(ctx, lambda *a: hook(ctx, *a)))
            except Own:
                raise
            except Violation:
                pass          # the other property's business
            ctx.label("programs of " + p.owner)
        p.owner = m
        q = max(8, int(quick * weight.get(m, 1)))
        out.append(Part("%s-%s" % (m, p.name), p.gen, check, q, max(q, int(thorough * weight.get(m, 1)))))
    return out
