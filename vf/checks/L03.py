"""Scoping and capture histories against the reference interpreter."""
from ..core import Part, Discard
from ..lang import Interp, render, TRACE, max_constants
from ..proggen import PG

RULE = ("random programs that declare shadowing names in nested blocks and functions, make closures (arrow functions, nested "
        "functions, makers, closures pushed to a list by a loop, methods of local classes), assign captured variables from every "
        "side, leave the scopes (falling out, break, continue, return) and go on calling the closures; non-trivial = at least 2 "
        "closures, 3 calls and one assignment or shadowing")


def gen(s):
    g = PG(s, closures=s.pick([1, 2]), control=s.pick([0, 1]), size=s.pick([20, 40, 60]), depth=s.pick([3, 4, 5]), classes=s.pick([0, 1]))
    return g.program(), g.count


def check(case, ctx):
    prog, count = case
    if max_constants(prog) > 245:
        raise Discard()
    I = Interp(budget=30000)
    src = TRACE + render(prog)
    err = I.run(prog)
    if err is not None or any("nan" in l or "inf" in l for l in I.out):
        raise Discard()
    if count.get("closure", 0) >= 2 and count.get("call", 0) >= 3 and (count.get("shadow") or count.get("assignment") or count.get("assigned in expression")):
        ctx.nontrivial(src)
    for k in count:
        ctx.label(k, count[k])
    ctx.label("printed lines", len(I.out))
    ctx.expect(src, I.out)


def parts():
    return [Part("scope", gen, check, 12000)]
