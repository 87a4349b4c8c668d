"""Derive vf/signatures.json: for every built-in and receiver, the argument counts it accepts and, per count and position, the kinds
it accepts (a kind is accepted when some call with it was not refused by a runtime error); a count for which every call gave a
runtime error or an error Result is marked. Run on a tree known good and reviewed against the documentation; the result is a
committed specification that R02's part 'signatures' checks against. Usage: python3-vt -m tools.learnsigs [kind...]"""
import itertools, json, os, random, sys, zlib
from multiprocessing import Pool
from vf.checks import R02
from vf.server import Server

KINDS = sorted(R02.SIGVALUES)
MAXN = 5
DIR = os.path.join(os.path.dirname(R02.__file__), "..")
METHODS = json.load(open(os.path.join(DIR, "signed.json")))
# calls that end the program, wait, or are slow: written by hand from the documentation
BYHAND = {"Hashlib": {"bcrypt": {"1": [["string"]], "2": [["string"], ["number", "enum", "nan"]]}},
          "System": {"sleep": {"1": [["number", "enum", "nan"]]}, "exit": {"1": [["number", "enum", "nan"]]}},
          "FFI": {"load": {"1": [["string"]]}},
          "Log": {"fatal": {"1": [["string"]]}, "fatalln": {"1": [["string"]]}}, "logger": {"fatal": {"1": [["string"]]}, "fatalln": {"1": [["string"]]}}}


def outcome(srv, kind, call):
    src = R02.sigprogram(METHODS[kind], call)
    for _ in range(3):
        try:
            r = srv.run(src.encode(), cpu=6, tree={"x": None, "q": b"y"} if R02.contained(kind) else None)
            break
        except EOFError:
            srv.restart()
    return R02.sigoutcome(r)


def learn(job):
    kind, name, recv = job
    rnd = random.Random(zlib.crc32(repr(job).encode()))
    out = {}
    with Server("release") as srv:
        def val(k):
            return rnd.choice(R02.SIGVALUES[k])

        def call(ks):
            return "%s%s(%s)" % (recv + "." if recv else "", name, ", ".join(val(k) for k in ks))
        for n in range(MAXN + 1):
            ok, good = set(), False
            if n <= 1:
                cand = [ks for ks in itertools.product(KINDS, repeat=n) for _ in range(10)]
            elif n == 2:
                cand = [ks for ks in itertools.product(KINDS, repeat=n) for _ in range(2)]
            else:
                few = ["string", "number", "bool", "function", "list", "dict"]
                cand = [ks for ks in itertools.product(few[:6 if n == 3 else 4 if n == 4 else 3], repeat=n)]
                cand += [[rnd.choice(KINDS) for _ in range(n)] for _ in range(80)]
            done = set()

            def tried(ks):
                nonlocal good
                o = outcome(srv, kind, call(ks))
                good |= o == "A"
                if o != "R":
                    ok.add(ks)
            for ks in cand:
                tried(tuple(ks))
            base = list(ok)
            rnd.shuffle(base)
            if n >= 2:
                for ks in base[:20]:
                    for p in range(n):
                        for k in KINDS:
                            for _ in range(2):
                                v = ks[:p] + (k,) + ks[p + 1:]
                                if v in ok:
                                    break
                                tried(v)
            if ok:
                out[str(n)] = [sorted({ks[p] for ks in ok}) for p in range(n)] + ([] if good else ["error"])
    return kind, name, recv, out


NUMERIC, CALLABLE = {"number", "nan", "enum"}, {"function", "class", "method", "native"}
HTTP1 = {"1": [["string"]], "2": [["string"], ["list"]], "3": [["string"], ["list"], ["number"]]}
HTTP2 = {"1": [["string"]], "2": [["string"], ["string", "dict"]], "3": [["string"], ["string", "dict"], ["list"]], "4": [["string"], ["string", "dict"], ["list"], ["number"]]}
# where acceptance depends on the value, or needs a combination the sampling seldom meets: from the documentation
REVIEWED = {("HTTP", "get"): HTTP1, ("HTTP", "head"): HTTP1, ("HTTP", "options"): HTTP1, ("HTTP", "post"): HTTP2, ("HTTP", "put"): HTTP2,
            ("httpclient", "options"): {"1": [["string"]], "2": [["string"], KINDS], "3": [["string"], KINDS, KINDS]},
            ("set", "remove"): {"1": [KINDS]}, ("list", "remove"): {"1": [KINDS]}, ("dict", "remove"): {"1": [KINDS]}, ("global", "assert"): {"1": [KINDS]}}
for _n in ("gcd", "lcm"):
    REVIEWED[("Math", _n)] = {"0": [], "1": [["list"]], **{str(i): [["number"]] * i for i in range(2, 6)}}
for _n in ("max", "min", "sum", "average"):
    REVIEWED[("Math", _n)] = {"0": [], "1": [["list", "number"]], **{str(i): [["number"]] * i for i in range(2, 6)}}
DROP = {("list", "sort"), ("list", "unique"), ("Buffer", "readUInt8"), ("buffer", "readUInt8"), ("buffer", "writeUInt8")}


def review(sigs):
    """Widen what was learnt: kinds that go together, and calls whose fate hangs on values."""
    for k in list(sigs):
        for n in list(sigs[k]):
            if n == "nosuch" or (k, n) in DROP:
                del sigs[k][n]
                continue
            for r, sig in sigs[k][n].items():
                if (k, n) in REVIEWED:
                    sig = {a: [list(x) for x in b] for a, b in REVIEWED[(k, n)].items()}
                out = {}
                for a, b in sig.items():
                    ps = []
                    for p in b:
                        if p == "error":
                            if k == "bigint" and a != "0":
                                ps.append(p)
                            continue
                        p = set(p)
                        for group in (NUMERIC, CALLABLE):
                            if p & group:
                                p |= group
                        ps.append(sorted(p))
                    out[a] = ps
                sigs[k][n][r] = out
        if not sigs[k]:
            del sigs[k]


def main():
    only = sys.argv[1:]
    if only == ["review"]:
        only = ["-"]
    f = os.path.join(DIR, "signatures.json")
    sigs = json.load(open(f)) if only else {}
    jobs = [(k, n, r) for k, d in sorted(METHODS.items()) for n in d["names"] for r in d["receivers"] if not only or k in only]
    for k in only:
        if k != "-":
            sigs[k] = {}
    with Pool(8) as p:
        for kind, name, recv, out in p.imap_unordered(learn, jobs):
            sigs.setdefault(kind, {}).setdefault(name, {})[recv] = out
            print(kind, name, recv, {n: [len(x) if len(x) > 6 else x for x in v] for n, v in out.items()}, flush=True)
    for k, d in BYHAND.items():
        for n, v in d.items():
            sigs.setdefault(k, {})[n] = {r: v for r in METHODS[k]["receivers"]}
    review(sigs)
    with open(f, "w") as o:
        o.write("{\n" + ",\n".join(' %s: {\n' % json.dumps(k) + ",\n".join('  %s: %s' % (json.dumps(n), json.dumps(sigs[k][n], sort_keys=True)) for n in sorted(sigs[k])) + "\n }" for k in sorted(sigs)) + "\n}\n")


if __name__ == "__main__":
    main()
