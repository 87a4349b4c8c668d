"""Runs a check: shards generated cases over the cores, shrinks and replays a
failure, prints the verdict and writes the evidence file."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, queue, re, sys, time, traceback

from . import build as _build
from .gen import Source, Overrun, shrink
from .server import Server

VERIF = _build.VERIF
NPROC = int(os.environ.get("VF_JOBS", "8"))


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(message)
        self.kind, self.message = kind, message


ERR = re.compile(rb"File 'repl',")


class Discard(Exception):
    """The case is outside the property's domain (counted)."""


class Ctx:
    """What a check sees while it decides one case."""

    def __init__(self):
        self.servers = {}
        self.labels = collections.Counter()
        self.seen = set()
        self.samples = []
        self.programs = 0
        self.runs = []
        self.case_nontrivial = False
        self.case_key = None

    def server(self, variant="asan"):
        if variant not in self.servers:
            self.servers[variant] = Server(variant)
        return self.servers[variant]

    def run(self, source, variant="asan", **kw):
        s = self.server(variant)
        if isinstance(source, str):
            source = source.encode("utf-8", "surrogateescape")
        try:
            r = s.run(source, **kw)
        except EOFError:
            s.restart()
            r = s.run(source, **kw)
        self.programs += 1
        self.runs.append((variant, source, kw, r))
        return r

    def raw(self, args, variant="asan", **kw):
        s = self.server(variant)
        try:
            r = s.raw(args, **kw)
        except EOFError:
            s.restart()
            r = s.raw(args, **kw)
        self.programs += 1
        self.runs.append((variant, repr(args).encode(), kw, r))
        return r

    def as_nobody(self, tree, fn, variant="asan"):
        """fn() run by this process in the planted tree with the rights of the unprivileged user -> (its result, snapshot)"""
        here, mask = os.getcwd(), os.umask(0o002)

        def go(w):
            class R:
                pass
            r = R()
            os.chdir(w)
            gr = os.getgroups()
            os.setgroups([])
            os.setegid(65534)
            os.seteuid(65534)
            try:
                r.value = fn()
            finally:
                os.seteuid(0)
                os.setegid(0)
                os.setgroups(gr)
                os.chdir(here)
            return r
        try:
            r = self.server(variant).planted(tree, go)
        finally:
            os.umask(mask)
        return r.value, r.tree

    def dir(self, variant="asan"):
        return self.server(variant).dir

    def label(self, name, n=1):
        self.labels[name] += n

    def nontrivial(self, key):
        """Declare the case non-trivial; key identifies it for distinctness."""
        self.case_nontrivial = True
        self.case_key = key

    def close(self):
        for s in self.servers.values():
            s.close()

    # -- common oracles ---------------------------------------------------
    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def alive(self, r):
        if r.crashed:
            raise Violation("crash:" + r.site(), r.describe())

    def expect(self, source, lines, exit=0, variant="asan", **kw):
        """Run source; stdout must be exactly these lines (bytes or str)."""
        r = self.run(source, variant, **kw)
        self.alive(r)
        want = b"".join((l if isinstance(l, bytes) else l.encode("utf-8", "surrogateescape")) + b"\n" for l in lines)
        if r.out != want:
            g, w = r.out.split(b"\n"), want.split(b"\n")
            for i in range(max(len(g), len(w))):
                a = g[i] if i < len(g) else b"<end>"
                b = w[i] if i < len(w) else b"<end>"
                if a != b:
                    raise Violation("output", "output line %d is %r, the model says %r (exit %s, stderr %r)" % (
                        i + 1, a[:300], b[:300], r.exit, r.err[-300:]))
        self.status(r, exit)
        return r

    def status(self, r, exit=0):
        if r.exit != exit:
            raise Violation("exit", "exit status %s, expected %s, stderr %r" % (r.exit, exit, r.err[-400:]))

    def expect_items(self, source, items, exit=0, variant="asan", **kw):
        """Like expect, with items that may be unordered."""
        r = self.run(source, variant, **kw)
        self.alive(r)
        text = r.out.decode("utf-8", "surrogateescape")
        if variant in ("stress", "balance"):
            text = re.sub(r"Total bytes lost: 0\n$", "", text)
        if text and not text.endswith("\n"):
            raise Violation("output", "output does not end with a newline: %r" % text[-200:])
        m = match_output(text.split("\n")[:-1], items)
        if m:
            raise Violation("output", "%s (exit %s, stderr %r)" % (m, r.exit, r.err[-300:]))
        self.status(r, exit)
        return r

    def repl(self, steps, variant="asan", **kw):
        """steps: (line, items or None if not compared, error: bool|None).

        Feeds the lines to the REPL; after each one exactly items must be
        printed; the number of error reports must equal the errors expected."""
        s = self.server(variant)
        for f in (".dictu/history.txt",):
            try:
                os.unlink(os.path.join(s.dir, f))
            except OSError:
                pass
        inp = "".join(l + "\n" for l, _, _ in steps)
        r = self.raw(["dictu"], variant, stdin=inp, **kw)
        self.runs[-1] = (variant, ("// REPL input\n" + inp).encode("utf-8", "surrogateescape"), kw, r)
        self.alive(r)
        text = r.out.decode("utf-8", "surrogateescape")
        head, sep, text = text.partition("\n")
        for line, items, err in steps:
            echo = ">>> " + line.replace("\n", "\n... ") + "\n"
            if not text.startswith(echo):
                raise Violation("repl", "before line %r the REPL printed %r" % (line, text[:300]))
            text = text[len(echo):]
            j = text.find(">>> ") if not text.startswith(">>> ") else 0
            if j > 0:
                j = text.find("\n>>> ") + 1
            if j < 0:
                raise Violation("repl", "no prompt after %r: %r" % (line, text[:300]))
            got, text = text[:j], text[j:]
            if items is not None:
                m = match_output(got.split("\n")[:-1], items)
                if m:
                    raise Violation("output", "after line %r: %s (stderr %r)" % (line, m, r.err[-300:]))
        want = sum(int(e) for _, _, e in steps if e)      # True or the number of frames reported
        if not any(e is None for _, _, e in steps):
            n = len(ERR.findall(r.err))
            if n != want:
                raise Violation("errors", "%d error reports, expected %d: %r" % (n, want, r.err[-600:]))
        self.status(r, 0)
        return r


class Any(list):
    """These output lines in any order."""


class Shown:
    """A printed value compared up to the order inside dicts and sets."""

    def __init__(self, v):
        self.v = v


def match_output(got, items):
    """got: list of lines.  items: str | Any([...]) | Shown(v).  None or message."""
    from . import vals
    i = 0
    for it in items:
        if isinstance(it, Any):
            g = got[i:i + len(it)]
            if sorted(g) != sorted(it):
                return "output lines %d-%d are %r, the model says a permutation of %r" % (i + 1, i + len(it), g, list(it))
            i += len(it)
            continue
        if i >= len(got):
            return "output ends after %d lines, the model says line %d is %r" % (i, i + 1, it if isinstance(it, str) else vals.show(it.v))
        g = got[i]
        if isinstance(it, Shown):
            try:
                ok = vals.parse_shown(g) == vals.norm(it.v)
            except (vals.Parse, ValueError, IndexError):
                ok = False
            if not ok:
                return "output line %d is %r, the model says %r (up to order)" % (i + 1, g[:300], vals.show(it.v)[:300])
        elif g != it:
            return "output line %d is %r, the model says %r" % (i + 1, g[:300], it[:300])
        i += 1
    if i != len(got):
        return "extra output line %d: %r" % (i + 1, got[i][:300])
    return None


def digest(x):
    return hashlib.sha1(repr(x).encode("utf-8", "surrogateescape")).digest()[:8]


class Part:
    def __init__(self, name, gen, check, quick, thorough=None):
        self.name, self.gen, self.check = name, gen, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20


def run_case(part, src, ctx):
    """Generate and decide one case -> (Violation or None, case)."""
    ctx.runs = []
    ctx.case_nontrivial = False
    ctx.case_key = None
    try:
        case = part.gen(src)
    except (Overrun, Discard):
        return "discard", None
    try:
        part.check(case, ctx)
        return None, case
    except Violation as v:
        return v, case
    except Discard:
        return "discard", case
    except (KeyboardInterrupt, SystemExit, MemoryError, BrokenPipeError, OSError):
        raise
    except Exception as e:       # output the oracle cannot even read
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Violation("unreadable:%s" % type(e).__name__,
                         "the result cannot be interpreted: %r at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno)), case


def sample_text(ctx, case):
    if ctx.runs:
        v, src, kw, r = ctx.runs[0]
        return {"program": src.decode("latin1")[:1500], "stdout": r.out.decode("latin1")[:400], "exit": r.exit}
    return {"case": repr(case)[:800]}


def stability(part, choices, kind, ctx):
    """How often a failing case has to be run to fail again: 1 when it fails
    every time, more when a schedule outside the case decides, None when it
    fails too rarely to be claimed.  (A sanitizer report is a fact even if it
    needs luck; a differing result could come from a loaded machine.)"""
    ctx.labels["failing cases replayed"] += 1
    bad = tries = 0
    while tries < 3 or (bad < tries and tries < 24):
        tries += 1
        bad += isinstance(run_case(part, Source(choices=choices), ctx)[0], Violation)
    if bad == tries:
        return 1
    return 20 if bad >= (1 if kind.startswith("crash:") else 8) else None


def worker(modname, tier, seed, shard, nshards, stop, outq, deadline):
    try:
        mod = importlib.import_module("vf.checks." + modname)
        ctx = Ctx()
        evaluations = discards = nontrivial = 0
        perpart = collections.Counter()
        found = None
        timed = False
        parts = mod.parts()
        for part in parts:
            n = part.quick if tier == "quick" else part.thorough
            for i in range(shard, n, nshards):
                if stop.is_set():
                    break
                if time.monotonic() > deadline:
                    timed = True
                    break
                src = Source(seed="%s/%s/%s/%d" % (seed, modname, part.name, i))
                v, case = run_case(part, src, ctx)
                for k, c in src.labels.items():
                    ctx.labels[k] += c
                if v == "discard":
                    discards += 1
                    continue
                evaluations += 1
                perpart[part.name] += 1
                if ctx.case_nontrivial:
                    nontrivial += 1
                    ctx.seen.add(digest((part.name, ctx.case_key)))
                    if len(ctx.samples) < 2 or (len(ctx.samples) < 3 and i % 97 == 0):
                        ctx.samples.append(sample_text(ctx, case))
                if v is not None:
                    again = stability(part, src.out, v.kind, ctx)
                    if again is None:       # not claimed; keep looking
                        ctx.labels["unconfirmed failure (did not replay)"] += 1
                        sys.stderr.write("not reproduced: %r\n" % ((part.name, i, src.out, v.kind, v.message),))
                        continue
                    found = (part.name, i, src.out, v.kind, v.message, again)
                    stop.set()
                    break
            if stop.is_set():
                break
        ctx.close()
        outq.put(("done", dict(evaluations=evaluations, discards=discards, nontrivial=nontrivial, seen=ctx.seen,
                               labels=dict(ctx.labels), perpart=dict(perpart), samples=ctx.samples,
                               programs=ctx.programs, found=found, timed=timed)))
    except BaseException:
        outq.put(("error", traceback.format_exc()))


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append(json.loads(m.group(2)))
    return out


def report_known(pid, ctx):
    """Print the listed findings that still fail on this tree.

    A finding's program may show the listed defect ("shows") or the right
    behaviour ("right"); a finding with "right" that shows neither is a new
    violation, which is returned."""
    n, new = 0, []
    for f in load_findings(pid):
        r = ctx.run(f["program"], f.get("variant", "asan"), argv=f.get("argv", []), files=f.get("files"), cpu=f.get("cpu", 3), **({"env": tuple(f["env"])} if "env" in f else {}))
        seen = r.describe().encode() + b"\n" + r.out + b"\n" + r.err
        if re.search(f["shows"].encode(), seen):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
            n += 1
        elif "right" in f and not re.search(f["right"].encode(), seen):
            new.append((f["what"], dict(property=pid, known=f["what"], runs=describe_runs(ctx)[-1:],
                                        message="neither the listed defect nor the right behaviour: %r" % seen[:400])))
    return n, new


def regressions(pid, ctx):
    """Saved minimal programs with their required output: regress/<id>/*.du"""
    d = os.path.join(VERIF, "regress", pid)
    n = 0
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if not f.endswith(".du"):
                continue
            src = open(os.path.join(d, f), "rb").read()
            body, _, tail = src.partition(b"\n//EXPECT")
            m = re.match(rb" exit=(\S+)(?: variant=(\w+))?\n", tail)
            variant = (m.group(2) or b"asan").decode()
            r = ctx.run(body + b"\n", variant, cpu=5)
            n += 1
            want = tail[m.end():].replace(b"//| ", b"").replace(b"//|", b"")
            if r.crashed:
                return n, f, src, r.describe()
            if m.group(1) != b"any" and r.exit != int(m.group(1)):
                return n, f, src, "exit %s, expected %s (stderr %r)" % (r.exit, m.group(1).decode(), r.err[-300:])
            if want.strip() != b"*" and r.out.rstrip(b"\n") != want.rstrip(b"\n"):
                return n, f, src, "output %r, expected %r" % (r.out[:400], want[:400])
    return n, None, None, None


def write_replay(pid, name, info):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, name))
    with open(p, "w") as f:
        json.dump(info, f, indent=1)
    if info.get("runs"):
        with open(p[:-5] + ".du", "wb") as f:
            f.write(info["runs"][0]["source"].encode("latin1"))
    return p


def describe_runs(ctx):
    out = []
    for v, src, kw, r in ctx.runs:
        out.append(dict(variant=v, source=src.decode("latin1"),
                        options={k: (x if isinstance(x, (int, str, list)) else repr(x)) for k, x in kw.items()},
                        status=r.describe(), stdout=r.out.decode("latin1")[:20000], stderr=r.err.decode("latin1")[:6000]))
    return out


def main(pid, tier, seed):
    t0 = time.monotonic()
    mod = importlib.import_module("vf.checks." + pid)
    variants = getattr(mod, "VARIANTS", ["asan"])
    for v in variants:
        _build.build(v)
    if hasattr(mod, "setup"):
        mod.setup()
    ctx = Ctx()
    viol = []
    try:
        known, new = report_known(pid, ctx)
        for k, (_, info) in enumerate(new):
            viol.append((write_replay(pid, "known%d" % k, info), info["message"]))
        nreg, bad, bsrc, why = regressions(pid, ctx)
        extra = {}
        if bad:
            for _ in range(2):
                _, again, _, _ = regressions(pid, ctx)
                if again != bad:
                    bad = None
        if bad:
            p = write_replay(pid, "regress", dict(property=pid, regress=bad, message=why,
                                                  runs=[dict(source=bsrc.decode("latin1"))]))
            viol.append((p, why))
        if not viol and hasattr(mod, "custom"):
            res = mod.custom(tier, seed, ctx)   # -> (violations [(name, info)], coverage dict)
            for name, info in res[0]:
                viol.append((write_replay(pid, name, dict(property=pid, **info)), info.get("message", "")))
            extra = res[1]
        tot = dict(evaluations=0, discards=0, nontrivial=0, programs=0)
        labels, perpart, seen, samples = collections.Counter(), collections.Counter(), set(), []
        timed = False
        if not viol:
            budget = float(os.environ.get("VF_BUDGET", "240" if tier == "quick" else "3000"))
            deadline = time.monotonic() + budget
            mpc = mp.get_context("fork")
            stop, outq = mpc.Event(), mpc.Queue()
            procs = [mpc.Process(target=worker, args=(pid, tier, seed, k, NPROC, stop, outq, deadline)) for k in range(NPROC)]
            for q in procs:
                q.start()
            founds = []
            for _ in procs:
                while True:
                    try:
                        kind, d = outq.get(timeout=30)
                        break
                    except queue.Empty:
                        if time.monotonic() > deadline + 200:
                            raise RuntimeError("worker lost")
                if kind == "error":
                    stop.set()
                    for q in procs:
                        q.kill()
                    raise RuntimeError(d)
                for k in tot:
                    tot[k] += d[k]
                labels.update(d["labels"])
                perpart.update(d["perpart"])
                seen |= d["seen"]
                samples += d["samples"]
                timed |= d["timed"]
                if d["found"]:
                    founds.append(d["found"])
            for q in procs:
                q.join(20)
            byname = {q.name: q for q in mod.parts()}
            for f in sorted(founds, key=lambda f: (len(f[2]), f[1]))[:3]:
                p = confirm(pid, seed, byname[f[0]], f, ctx)
                if p:
                    viol.append(p)
                    break
                labels["unconfirmed failure (did not replay)"] += 1
                sys.stderr.write("not reproduced: %r\n" % (f,))
        wall = time.monotonic() - t0
        cov = dict(evaluations=tot["evaluations"] + nreg + extra.get("evaluations", 0),
                   distinct_nontrivial=len(seen) + extra.get("distinct_nontrivial", 0), rule=mod.RULE,
                   samples=(samples + extra.get("samples", []))[:6],
                   programs_executed=tot["programs"] + ctx.programs, discarded=tot["discards"],
                   nontrivial_cases=tot["nontrivial"], regressions_replayed=nreg, known_findings=known,
                   cases_by_part=dict(perpart), distribution=dict(sorted(labels.items())), stopped_by_time=timed)
        for k, v in extra.items():
            if k not in ("evaluations", "distinct_nontrivial", "samples"):
                cov[k] = v
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
                  assumptions=getattr(mod, "ASSUMES", []), wall_s=round(wall, 2), violations=len(viol))
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%s: %d cases (%d distinct non-trivial), %d programs, %.1fs" % (
            pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["programs_executed"], wall))
        if viol:
            p, msg = viol[0]
            print(msg)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)))
            return 1
        return 0
    finally:
        ctx.close()


def confirm(pid, seed, part, f, ctx):
    name, index, choices, kind, msg, tries = f

    def fails(c, anykind=False):
        for _ in range(tries):
            s = Source(choices=c)
            v, _case = run_case(part, s, ctx)
            if isinstance(v, Violation) and (anykind or v.kind == kind):
                return s.out, v, _case
        return None
    # the original must replay before anything is claimed
    for _ in range(3 if tries == 1 else 1):
        if fails(choices, True) is None:
            return None
    best, n = choices, 0
    if tries == 1:
        best, n = shrink(choices, lambda c: (fails(c) or (None,))[0], budget_s=45)
        if not all(fails(best) is not None for _ in range(3)):
            best = choices
    got = fails(best) or fails(choices, True)
    if got is None:
        return None
    best, v, case = got
    info = dict(property=pid, part=name, seed=seed, index=index, choices=best, kind=v.kind, message=v.message, tries=tries,
                case=repr(case)[:5000], shrink_evaluations=n, runs=describe_runs(ctx))
    return write_replay(pid, name, info), "%s: %s" % (v.kind, v.message)


def replay(path):
    info = json.load(open(path))
    pid = info["property"]
    mod = importlib.import_module("vf.checks." + pid)
    ctx = Ctx()
    try:
        if hasattr(mod, "setup"):
            mod.setup()
        if "choices" in info:
            part = {q.name: q for q in mod.parts()}[info["part"]]
            for _ in range(info.get("tries", 1)):
                v, case = run_case(part, Source(choices=info["choices"]), ctx)
                if isinstance(v, Violation):
                    break
            for d in describe_runs(ctx):
                print("--- program (%s) ---\n%s\n--- %s, stdout ---\n%s\n--- stderr ---\n%s" % (
                    d["variant"], d["source"], d["status"], d["stdout"], d["stderr"]))
            if isinstance(v, Violation):
                print("%s: %s" % (v.kind, v.message))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        elif "known" in info:
            _, new = report_known(pid, ctx)
            for _, i in new:
                print(i["message"])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        elif "regress" in info:
            _, bad, _, why = regressions(pid, ctx)
            if bad:
                print(why)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        elif hasattr(mod, "replay_custom"):
            v = mod.replay_custom(info, ctx)
            if v:
                print(v)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
        print("held")
        return 0
    finally:
        ctx.close()
