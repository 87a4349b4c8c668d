"""Statement sequences against the reference interpreter."""
from ..core import Part, Discard
from ..lang import Interp, render, TRACE, max_constants
from ..proggen import PG

RULE = ("random programs of nested if, while, for (every form of header), switch, blocks, break, continue and return, with local "
        "declarations and closures inside the loops, traced effects and a print of every visible variable after each loop; "
        "non-trivial = executed at least 3 loop iterations and a break, continue, switch case or early return")


def gen(s):
    g = PG(s, closures=s.pick([0, 0, 1]), control=1, size=s.pick([20, 40, 60]), depth=s.pick([3, 4, 5]))
    if s.below(3) == 0:
        g.bulk = 2
    return g.program(), g.count


def check(case, ctx):
    prog, count = case
    if max_constants(prog) > 245:
        raise Discard()
    I = Interp(budget=30000)
    src = TRACE + render(prog)
    err = I.run(prog)
    if err is not None or any("nan" in l or "inf" in l for l in I.out):
        raise Discard()
    st = I.stats
    if st.get("iteration", 0) >= 3 and (st.get("break") or st.get("continue") or st.get("case") or count.get("return in the middle")):
        ctx.nontrivial(src)
    for k in st:
        ctx.label("executed " + k, st[k])
    ctx.label("printed lines", len(I.out))
    ctx.expect(src, I.out)


def parts():
    return [Part("flow", gen, check, 9000)]
