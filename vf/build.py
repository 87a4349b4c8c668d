"""Build harness binaries from /repo's current working tree.

Every source of the interpreter is compiled again from $REPO/src (default
/repo) into $VERIF/build/<variant>/ ; nothing under /repo is written.  The set
of sources mirrors /repo/src/CMakeLists.txt (glob, minus the CLI's own files,
minus the bundled sqlite3.c when the system libsqlite3 is used).
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SQLITE = "/usr/lib/x86_64-linux-gnu/libsqlite3.so"

COMMON = ["-std=gnu11", "-g", "-fno-omit-frame-pointer", "-w", "-DINCLUDE_SQLITE_LIB", "-D_FILE_OFFSET_BITS=64"]
# float->int conversions out of range, signed shifts and misaligned reads are
# outside what the properties claim; everything else UBSan knows is fatal.
UBSAN = "-fsanitize=undefined"
NO_UBSAN = "-fno-sanitize=alignment,shift,function,vptr,nonnull-attribute,pointer-overflow,signed-integer-overflow,float-cast-overflow"

VARIANTS = {
    # memory errors become visible, collector runs at its normal threshold
    "asan": dict(cc="clang", flags=["-O1", "-fsanitize=address", UBSAN, NO_UBSAN, "-fno-sanitize-recover=all"]),
    # the same with a collection at every growing allocation
    "stress": dict(cc="clang", flags=["-O1", "-fsanitize=address", UBSAN, NO_UBSAN, "-fno-sanitize-recover=all",
                                      "-DDEBUG_STRESS_GC", "-DDEBUG_FINAL_MEM"]),
    # what users run: optimised, no instrumentation
    "release": dict(cc="gcc", flags=["-O2"]),
    # optimised, but reporting the allocation balance at exit
    "fuzz_compile": dict(cc="clang", flags=["-O1", "-fsanitize=fuzzer-no-link,address", UBSAN, NO_UBSAN, "-fno-sanitize-recover=all"],
                         link=["-fsanitize=fuzzer"]),
    "balance": dict(cc="gcc", flags=["-O2", "-DDEBUG_FINAL_MEM"], track=True),
}


def sources(repo):
    out = []
    for p in sorted(glob.glob(os.path.join(repo, "src", "**", "*.c"), recursive=True)):
        rel = os.path.relpath(p, repo)
        if re.search(r"(main|stringbuf|linenoise(-win32)?|utf8)\.c", rel):
            continue
        if re.search(r"sqlite3\.c", rel):
            continue
        out.append(p)
    return out


def cli_sources(repo):
    d = os.path.join(repo, "src", "cli")
    return [os.path.join(d, "main.c")] + [os.path.join(d, "linenoise", f) for f in ("linenoise.c", "stringbuf.c", "utf8.c")]


def tree_hash(repo):
    h = hashlib.sha256()
    for base in (os.path.join(repo, "src"), os.path.join(VERIF, "harness")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".du", ".cpp")):
                    p = os.path.join(root, f)
                    if "sqlite3.c" in p:
                        continue
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def build(variant, repo=None, outroot=None, target=None):
    """Return the path of the fork server binary for a variant (or of the libFuzzer target harness/<target>.c)."""
    repo = repo or REPO
    outroot = outroot or os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
    spec = VARIANTS[variant]
    out = os.path.join(outroot, variant)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(outroot, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash(repo)
        stamp = os.path.join(out, "stamp")
        exe = os.path.join(out, "forkserver")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == th:
            return exe
        shutil.rmtree(os.path.join(out, "obj"), ignore_errors=True)
        os.makedirs(os.path.join(out, "obj"), exist_ok=True)
        jobs = []
        flags = COMMON + spec["flags"]
        for s in sources(repo):
            o = os.path.join(out, "obj", os.path.relpath(s, repo).replace("/", "_") + ".o")
            jobs.append(([spec["cc"]] + flags + (["-include", os.path.join(VERIF, "harness", "vf_alloc.h")] if spec.get("track") else []) + ["-c", s, "-o", o], o))
        if spec.get("track"):
            o = os.path.join(out, "obj", "vf_alloc.o")
            jobs.append(([spec["cc"]] + flags + ["-c", os.path.join(VERIF, "harness", "vf_alloc.c"), "-o", o], o))
        for s in [] if target else cli_sources(repo):
            o = os.path.join(out, "obj", os.path.relpath(s, repo).replace("/", "_") + ".o")
            extra = ["-DUSE_UTF8"] + (["-Dmain=dictu_main"] if s.endswith("main.c") else [])
            jobs.append(([spec["cc"]] + flags + extra + ["-c", s, "-o", o], o))
        fs = os.path.join(VERIF, "harness", (target or "forkserver") + ".c")
        o = os.path.join(out, "obj", "forkserver.o")
        jobs.append(([spec["cc"]] + flags + ["-I", os.path.join(repo, "src"), "-I", os.path.join(repo, "src", "include"), "-c", fs, "-o", o], o))

        cache = os.environ.get("VF_OBJCACHE")           # for campaigns over many changed trees
        if cache:
            os.makedirs(cache, exist_ok=True)
            heads = hashlib.sha256()
            for f in sorted(glob.glob(os.path.join(repo, "src", "**", "*.h"), recursive=True)):
                with open(f, "rb") as fh:
                    heads.update(f.encode() + fh.read())
            heads = heads.hexdigest()

        def run(j):
            if cache:
                src = j[0][j[0].index("-c") + 1]
                with open(src, "rb") as fh:
                    key = os.path.join(cache, hashlib.sha256(repr((j[0][:-1], heads)).encode() + fh.read()).hexdigest())
                if os.path.exists(key):
                    shutil.copyfile(key, j[1])
                    return
            r = subprocess.run(j[0], capture_output=True, text=True)
            if cache and not r.returncode:
                shutil.copyfile(j[1], key + ".tmp")
                os.replace(key + ".tmp", key)
            if r.returncode:
                raise RuntimeError("compile failed: %s\n%s" % (" ".join(j[0]), r.stderr[-3000:]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        tmp = exe + ".tmp"
        objs = [j[1] for j in jobs]
        if target:          # one object exporting nothing but the entry point: Dictu's dirname() must not replace the library's
            one = os.path.join(out, "obj", "one.o")
            for c in (["ld", "-r", "-o", one] + objs, ["objcopy", "--keep-global-symbol=LLVMFuzzerTestOneInput", one]):
                r = subprocess.run(c, capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError("link failed: %s" % r.stderr[-3000:])
            objs = [one]
        cmd = [spec["cc"]] + flags + spec.get("link", []) + objs + ["-o", tmp, "-lcurl", "-luuid", "-lm", "-ldl", "-lpthread", SQLITE]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed: %s" % r.stderr[-3000:])
        os.replace(tmp, exe)
        shutil.rmtree(os.path.join(out, "obj"), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(th)
        return exe


def tool(name):
    """Compile harness/<name>.c, a helper program that has nothing to do with /repo."""
    root = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
    os.makedirs(root, exist_ok=True)
    src, exe = os.path.join(VERIF, "harness", name + ".c"), os.path.join(root, name)
    with open(exe + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            subprocess.run(["gcc", "-O1", "-o", exe + ".tmp", src], check=True)
            os.replace(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or VARIANTS:
        t = time.time()
        print(build(v), "%.1fs" % (time.time() - t))
