"""Client side of the fork server: run one Dictu program per case."""
import os, re, shutil, signal, struct, subprocess, tempfile

from . import build as _build

ASAN = ("abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=4096:"
        "malloc_context_size=4:fast_unwind_on_malloc=1:quarantine_size_mb=64")
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=99"


NOBODY = 65534


class Tree(dict):
    def __init__(self):
        self.modes = {}


def snapshot(root):
    """path -> bytes, None for a directory, ("link", target); .modes: path -> permission bits"""
    out, root = Tree(), os.fsencode(root)

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            full, r = os.path.join(d, n), os.path.join(rel, n)
            k = os.fsdecode(r)
            out.modes[k] = os.lstat(full).st_mode & 0o7777
            if os.path.islink(full):
                out[k] = ("link", os.fsdecode(os.readlink(full)))
            elif os.path.isdir(full):
                out[k] = None
                walk(full, r)
            elif os.path.isfile(full):
                with open(full, "rb") as f:
                    out[k] = f.read()
            else:
                out[k] = ("other",)
    walk(root, b"")
    return out


class Result:
    __slots__ = ("status", "out", "err", "rss", "tree")

    def __init__(self, status, out, err, rss=0):
        self.status, self.out, self.err, self.rss = status, out, err, rss
        self.tree = None

    @property
    def timeout(self):
        return self.status < 0 or (self.signal in (signal.SIGXCPU, signal.SIGKILL))

    @property
    def signal(self):
        return self.status & 0x7f if self.status >= 0 else 0

    @property
    def exit(self):
        if self.status < 0 or self.signal:
            return None
        return (self.status >> 8) & 0xff

    @property
    def sanitizer(self):
        return self.exit == 99 and (b"Sanitizer" in self.err or b"runtime error:" in self.err)

    @property
    def crashed(self):
        """The process died instead of reporting: signal, sanitizer report, or limit."""
        return self.exit is None or self.sanitizer

    def describe(self):
        if self.timeout:
            return "no answer within the memory limit" if self.status == -2 else "no answer within the CPU limit"
        if self.sanitizer:
            m = re.search(rb"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", self.err)
            fr = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?/src/([^\s:]+:\d+)", self.err)[:4]
            return "%s @ %s" % (m.group(1).decode("latin1") if m else "sanitizer report",
                                " < ".join("%s(%s)" % (a.decode(), b.decode()) for a, b in fr))
        if self.exit is None:
            return "killed by signal %d" % self.signal
        return "exit %d" % self.exit

    def site(self):
        """A stable name of the crash site, independent of line numbers."""
        if self.timeout:
            return "hang"
        fr = re.findall(rb"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?/src/([^\s:]+):\d+", self.err)
        return fr[0][0].decode() if fr else ("signal%d" % self.signal)


class Server:
    def __init__(self, variant="asan", repo=None):
        self.exe = _build.build(variant, repo)
        self.variant = variant
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.proc = None
        self.count = 0

    def _start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "TZ": "UTC", "LC_ALL": "C", "ASAN_OPTIONS": ASAN,
               "UBSAN_OPTIONS": UBSAN}
        self.proc = subprocess.Popen([self.exe, str(r1), str(w2)], pass_fds=(r1, w2), env=env,
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def close(self):
        if self.proc:
            os.close(self.w)
            os.close(self.r)
            try:
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def restart(self):
        if self.proc:
            for fd in (self.w, self.r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _read(self, n):
        buf = bytearray()
        while len(buf) < n:
            b = os.read(self.r, min(n - len(buf), 1 << 20))
            if not b:
                raise EOFError("fork server died")
            buf += b
        return bytes(buf)

    def planted(self, tree, go):
        """Run go(cwd) for an unprivileged user in a new directory holding tree
        (path -> bytes, None for a directory, ("link", target) or ("mode", bits, content));
        the tree it leaves behind becomes .tree of the result."""
        os.chmod(self.dir, 0o755)
        w = os.path.join(self.dir, "w")
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        home = os.path.join(self.dir, "home")
        shutil.rmtree(home, ignore_errors=True)
        os.mkdir(home)
        os.chown(home, NOBODY, NOBODY)
        modes = []
        for p, c in tree.items():
            full = os.path.join(os.fsencode(w), os.fsencode(p))
            if isinstance(c, tuple) and c[0] == "mode":
                modes.append((full, c[1]))
                c = c[2]
            if c is None:
                os.mkdir(full)
            elif isinstance(c, tuple):
                os.symlink(c[1], full)
            else:
                with open(full, "wb") as f:
                    f.write(c)
            os.lchown(full, NOBODY, NOBODY)
            if not isinstance(c, tuple):
                os.chmod(full, 0o755 if c is None else 0o644)
        os.chown(w, NOBODY, NOBODY)
        for full, m in modes:
            os.chmod(full, m)
        try:
            r = go(w)
            r.tree = snapshot(w)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        return r

    def raw(self, args, stdin=b"", cwd=None, cpu=5, wall=120000, env=(), tree=None):
        if tree is not None:
            return self.planted(tree, lambda w: self.raw(args, stdin, w, cpu, wall, tuple(env) + ("VF_UID=%d" % NOBODY, "HOME=" + os.path.join(self.dir, "home"))))
        if self.proc is None:
            self._start()
        enc = lambda s: s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
        pk = lambda b: struct.pack("<I", len(b)) + b
        msg = struct.pack("<I", len(args)) + b"".join(pk(enc(a)) for a in args)
        msg += pk(enc(stdin)) + pk(enc(cwd or self.dir)) + struct.pack("<II", cpu, wall)
        msg += struct.pack("<I", len(env)) + b"".join(pk(enc(e)) for e in env)
        mv = memoryview(msg)
        while mv:
            n = os.write(self.w, mv)
            mv = mv[n:]
        st, = struct.unpack("<i", self._read(4))
        n, = struct.unpack("<I", self._read(4))
        out = self._read(n) if n else b""
        n, = struct.unpack("<I", self._read(4))
        err = self._read(n) if n else b""
        rss, = struct.unpack("<I", self._read(4))
        self.count += 1
        return Result(st, out, err, rss)

    def run(self, source, argv=(), files=None, api=False, tree=None, **kw):
        """Write source as main.du in the scratch directory and run it."""
        if isinstance(source, str):
            source = source.encode("utf-8", "surrogateescape")
        with open(os.path.join(self.dir, "main.du"), "wb") as f:
            f.write(source)
        for name, content in (files or {}).items():
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content if isinstance(content, bytes) else content.encode("utf-8", "surrogateescape"))
        return self.raw(["dictu-api" if api else "dictu", "main.du" if tree is None else "../main.du"] + list(argv), tree=tree, **kw)
