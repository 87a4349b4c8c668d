"""Coverage-guided campaigns: libFuzzer targets in harness/fuzz_*.c built from the working tree."""
import os, re, shutil, subprocess, tempfile

from . import build

ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:quarantine_size_mb=16",
           UBSAN_OPTIONS="halt_on_error=1")


def campaign(name, seeds, seed, seconds, jobs=8, max_len=6000):
    """-> (crashing inputs, coverage figures)"""
    exe = build.build("fuzz_" + name, target="fuzz_" + name)
    work = tempfile.mkdtemp(prefix="vf-fuzz-")
    try:
        cdir = os.path.join(work, "seeds")
        os.mkdir(cdir)
        for i, b in enumerate(seeds):
            with open(os.path.join(cdir, "%04d" % i), "wb") as f:
                f.write(b[:max_len])
        procs = []
        for k in range(jobs):
            own = os.path.join(work, "c%d" % k)
            os.makedirs(os.path.join(own, "corpus"))
            open(os.path.join(own, "main.du"), "w").close()     # the module the text pretends to be
            log = open(os.path.join(work, "log%d" % k), "wb")
            procs.append((subprocess.Popen(
                [exe, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % max_len, "-timeout=20",
                 "-rss_limit_mb=3000", "-artifact_prefix=%s/crash%d-" % (work, k), "-close_fd_mask=1", "-print_final_stats=1", "-verbosity=1",
                 os.path.join(own, "corpus"), cdir], stdout=subprocess.DEVNULL, stderr=log, stdin=subprocess.DEVNULL, cwd=own, env=dict(os.environ, HOME=own, **ENV)), log))
        execs = cov = 0
        for k, (p, log) in enumerate(procs):
            try:
                p.wait(seconds + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            with open(os.path.join(work, "log%d" % k), "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - 2000000))
                t = f.read()
            m = re.search(rb"stat::number_of_executed_units: (\d+)", t)
            execs += int(m.group(1)) if m else 0
            c = re.findall(rb" cov: (\d+) ft: (\d+)", t)
            cov = max([cov] + [int(x[0]) for x in c[-1:]])
        crashes = []
        for f in sorted(os.listdir(work)):
            if f.startswith("crash") and "slow-unit" not in f:
                with open(os.path.join(work, f), "rb") as fh:
                    crashes.append(fh.read())
        crashes.sort(key=len)
        return crashes, {"fuzz executions": execs, "fuzz edge coverage": cov, "fuzz reports": len(crashes), "fuzz seconds": seconds, "fuzz jobs": jobs}
    finally:
        if os.environ.get("VF_FUZZ_KEEP"):
            shutil.copytree(work, os.environ["VF_FUZZ_KEEP"], dirs_exist_ok=True)
        shutil.rmtree(work, ignore_errors=True)
