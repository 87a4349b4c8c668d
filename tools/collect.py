"""Collect distinct findings of one part without stopping: python3-vt -m tools.collect R02 arguments 4000 [seed]"""
import sys, importlib, collections, multiprocessing, re
from vf.core import Ctx, run_case
from vf.gen import Source

def work(a):
    mod, part, n, seed, k = a
    m = importlib.import_module("vf.checks." + mod)
    p = [x for x in m.parts() if x.name == part][0]
    ctx = Ctx(); out = []; dis = 0
    for i in range(k, n, 8):
        src = Source(seed="%s/%s/%s/%d" % (seed, mod, part, i))
        v, case = run_case(p, src, ctx)
        if v == "discard": dis += 1
        elif v: out.append((str(v.kind), str(v), repr(case), ctx.runs[-1][1].decode("utf8","replace") if ctx.runs else ""))
    ctx.close()
    return out, dis

if __name__ == "__main__":
    mod, part, n = sys.argv[1], sys.argv[2], int(sys.argv[3]); seed = sys.argv[4] if len(sys.argv) > 4 else "1"
    res = multiprocessing.Pool(8).map(work, [(mod, part, n, seed, k) for k in range(8)])
    g = collections.defaultdict(list)
    for o, d in res:
        for kind, msg, case, src in o:
            key = (kind, re.sub(r"0x[0-9a-f]+", "", msg)[:90] if not case.startswith("('") else case.split(",")[0] + case.split(",")[1] + re.sub(r"0x[0-9a-f]+.*@", "", msg)[:60])
            g[key].append((msg, case, src))
    print("discards", sum(d for _, d in res))
    for k, l in sorted(g.items(), key=lambda x: -len(x[1])):
        l.sort(key=lambda x: len(x[2]))
        print(len(l), k); print("    ", l[0][1][:200]); print("    ", l[0][0][:500])
