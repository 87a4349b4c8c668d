"""Processes started with generated arguments, outputs and endings, observed by the started program itself."""
import functools, hashlib, os, signal
from .. import build
from ..core import Part
from .S08 import blit, same_tree

POOL_SKIP_PARTS = ("kill",)     # process numbers differ between runs
TECHNIQUE = ("model-based generation of child processes: a helper program reports the exact arguments, environment and directory it was started "
             "with and produces outputs and endings with known results; what Process returns and what reaches the shared output are compared with the model")
RULE = ("(run) 2-12 calls of run with and without capture and exec per program: 0-120 arguments of arbitrary bytes, outputs of 0-300 kB in "
        "chunks on stdout and stderr, NULs, exit codes 0-255, fatal signals, missing, forbidden and non-executable programs, PATH search, "
        "environment and working directory inheritance, waiting, fire-and-forget; (kill) 8 signals sent to a child that notes which arrived; "
        "non-trivial = at least two started children of different kinds")


@functools.lru_cache(None)
def child():
    with open(build.tool("child"), "rb") as f:
        return f.read()


def arg(s):
    k = s.weighted([(4, "word"), (3, "odd"), (2, "bytes"), (1, "empty"), (1, "long")])
    if k == "word":
        return s.text("abc-=/.", 1, 8).encode()
    if k == "odd":
        return s.pick([b"a b", b"'", b'"', b"$HOME", b"`id`", b"*", b"\\", b"a\nb", b";", b"\xc3\xa9", b"%s%n", b"-n", b"--", b"|", b"&", b"\t", b"$(x)", b"\\n", b"{}"])
    if k == "bytes":
        return bytes(s.int(1, 255) for _ in range(s.int(1, 12)))
    return b"" if k == "empty" else b"L" * s.pick([255, 1024, 4096, 8000])


def ll(args):
    return "[" + ", ".join(blit(a) if isinstance(a, bytes) else blit(a.encode()) if isinstance(a, str) else a[0] for a in args) + "]"


def data(n, seed):
    return bytes((i * 7 + i // 251 + seed) & 255 for i in range(n))


def gen_run(s):
    tree = {"child": ("mode", 0o755, None), "plain": b"not a program\n", "d": None, "bin": None, "locked": ("mode", 0o000, b"x")}
    lines, out, files, kinds = ["import Process; import System; import Env; import Hashlib;"], [], {}, set()
    forgot = {}
    for n in range(len(list(s.many(2, 12, 5)))):
        k = s.weighted([(5, "args"), (5, "gen"), (3, "say"), (3, "exit"), (2, "sig"), (3, "bad"), (2, "env"), (1, "cwd"), (2, "append"), (2, "exec"), (1, "path"), (2, "type"), (1, "print")])
        kinds.add(k)
        s.label(k)
        lines.append("def step%d() {" % n)       # a chunk has at most 256 constants
        cap = s.below(2) == 0
        c = ", true" if cap else s.pick(["", "", ", false"])
        if k == "args":
            a = [arg(s) for _ in range(s.weighted([(4, 0), (6, 2), (4, 5), (1, 40), (1, 120)]))]
            want = ["%d" % (len(a) + 2), b"./child".hex(), b"args".hex()] + [x.hex() for x in a]
            lines.append("%s(Process.run(%s%s)%s);" % ("print" if cap else "print", ll(["./child", "args"] + a), c, ".unwrap()" if cap else ".unwrap() == nil"))
            out.append("\n".join(want) + "\n" + ("\n" if cap else "true\n"))
        elif k == "gen":
            size = s.pick([0, 1, 2, 100, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073, 9215, 9216, 9217, 65535, 65536, 65537, 100000, 300000, s.int(0, 5000)])
            seed, chunk = s.below(256), s.pick([1, 7, 100, 1023, 1024, 1025, 4096, 70000]) if size < 5000 else s.pick([512, 1023, 1024, 4096, 65536, 400000])
            code = s.pick([0, 0, 0, 1, 7])
            pause = 1500 if size // chunk < 10 and s.below(3) == 0 else 0      # the parent sees every chunk by itself
            d = data(size, seed)
            call = "Process.run(%s%s)" % (ll(["./child", "gen", str(size), str(seed), str(chunk), str(code), str(pause)]), ", true")
            if code:
                lines.append("print(%s.success());" % call)
                out.append("false\n")
            else:
                lines.append("const o%d = %s.unwrap(); print(o%d.len()); print(Hashlib.sha256(o%d));" % (n, call, n, n))
                out.append("%d\n%s\n" % (size, hashlib.sha256(d).hexdigest()))
        elif k == "say":
            t = s.pick([b"hello", b"two\nlines", b"", b"x\n", b"%d %s", b"  padded  "])
            # what the program printed before comes before the child's output
            lines.append("System.collect(); print('before %d'); const r%d = Process.run(%s%s); print('after');" % (n, n, ll(["./child", "say", t, "0"]), c))
            out.append("before %d\n%safter\n" % (n, "" if cap else t.decode()))
            if cap:
                lines.append("print(r%d.unwrap());" % n)
                out.append(t.decode() + "\n")
        elif k == "exit":
            code = s.pick([0, 1, 2, 3, 126, 127, 128, 255, s.below(256)])
            lines.append("const r%d = Process.run(%s%s); print(r%d.success());" % (n, ll(["./child", "say", "", str(code)]), c, n))
            out.append("true\n" if code == 0 else "false\n")
            if code:
                lines.append("print(r%d.unwrapError().len() > 0);" % n)
                out.append("true\n")
        elif k == "sig":
            lines.append("print(Process.run(%s%s).success());" % (ll(["./child", "sig", str(s.pick([1, 2, 6, 9, 13, 15, 10, 31]))]), c))
            out.append("false\n")
        elif k == "bad":
            p = s.pick(["./missing", "missing-program", "./plain", "./d", "./locked", "nodir/x", "", "./child/x", "/dev/null"])
            f = s.pick(["run", "run", "exec"])
            lines.append("const r%d = Process.%s(%s%s); print(r%d.success()); print(r%d.unwrapError().len() > 0);" % (n, f, ll([p] + [arg(s)] * s.below(2)), c if f == "run" else "", n, n))
            out.append("false\ntrue\n")
        elif k == "env":
            v = s.pick(["", "value", "a=b", "sp ace", "\u00e9"])
            lines.append('Env.set("VF_X%d", %s).unwrap(); print(Process.run(%s, true).unwrap());' % (n, blit(v.encode()), ll(["./child", "env", "VF_X%d" % n])))
            out.append(v + "\n")
            if s.below(2):
                lines.append('Env.set("VF_X%d", nil).unwrap(); print(Process.run(%s, true).unwrap());' % (n, ll(["./child", "env", "VF_X%d" % n])))
                out.append("<unset>\n")
        elif k == "cwd":
            lines.append("System.setCWD('d').unwrap(); print(Process.run(%s, true).unwrap() == System.getCWD().unwrap()); System.setCWD('..').unwrap();" % ll(["../child", "cwd"]))
            out.append("true\n")
        elif k == "append":
            # run waits for the end; every program is started once
            f = s.pick(["f1", "f2"])
            t = "%d." % n
            files[f] = files.get(f, "") + t
            lines.append("print(Process.run(%s%s).success()); with('%s', 'r') { print(file.read()); }" % (ll(["./child", "append", f, t, str(s.pick([0, 0, 5, 20]))]), c, f))
            out.append("true\n%s\n" % files[f])
        elif k == "exec":
            f = "e%d" % n
            t = "x" * s.int(1, 4)
            forgot[f] = t
            lines.append("print(Process.exec(%s).unwrap());" % ll(["./child", "append", f, t, str(s.pick([0, 3, 10]))]))
            out.append("nil\n")
        elif k == "path":
            lines.append("Env.set('PATH', 'bin:/usr/bin:/bin').unwrap(); print(Process.run(%s, true).unwrap());" % ll(["prog", "say", "found", "0"]))
            tree["bin/prog"] = ("mode", 0o755, None)
            out.append("found\n")
        elif k == "type":
            e = s.pick(["[]", '["./child", 1]', '["./child", nil]', "[1]", '["./child", "say", "x", 0]', '["./child", ["args"]]'])
            f = s.pick(["run(%s%s)" % (e, c), "exec(%s)" % e])
            lines.append("const r%d = Process.%s; print(r%d.success());" % (n, f, n))
            out.append("false\n")
        else:
            t = s.text("abc", 0, 3)
            lines.append("System.collect(); print(%s);" % blit(t.encode()))
            out.append(t + "\n")
        lines.append("} step%d();" % n)
    for f, t in sorted(forgot.items()):
        lines.append("Process.run(%s).unwrap();" % ll(["./child", "wait", f, str(len(t))]))
    files.update(forgot)
    return tree, "\n".join(lines) + "\n", "".join(out), files, len(kinds) > 1


def plant(tree):
    return {p: ("mode", 0o755, child()) if p in ("child", "bin/prog") else c for p, c in tree.items()}


def check_run(case, ctx):
    tree, src, out, files, nt = case
    if nt:
        ctx.nontrivial(src)
    r = ctx.run(src, tree=plant(tree), env=("LANG=C",), cpu=10)
    ctx.runs[-1][2].pop("tree")
    ctx.alive(r)
    want = out.encode("utf-8", "surrogateescape")
    if r.out != want:
        i = next((i for i in range(min(len(want), len(r.out))) if want[i] != r.out[i]), min(len(want), len(r.out)))
        ctx.fail("output", "output differs from the model at byte %d: got %r, the model says %r (exit %s, stderr %r)" % (
            i, r.out[max(0, i - 60):i + 100], want[max(0, i - 60):i + 100], r.exit, r.err[-300:]))
    ctx.status(r)
    end = {f: t.encode() for f, t in files.items()}
    for p, c in plant(tree).items():
        end[p] = c[2] if isinstance(c, tuple) else c
    same_tree(ctx, r.tree, end)


# -- kill ------------------------------------------------------------------
SIGS = ["SIGINT", "SIGTERM", "SIGHUP", "SIGQUIT", "SIGUSR1", "SIGUSR2", "SIGILL", "SIGKILL", "SIGKILL"] + ["SIG" + n for n in "FPE SEGV ABRT TRAP IOT BUS PIPE STKFLT URG XCPU XFSZ VTALRM PROF WINCH IO PWR SYS".split()]
NAMES = SIGS + ["SIGALRM", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU"]


def gen_kill(s):
    return [(s.pick(SIGS + [None]), s.below(2)) for _ in range(s.int(1, 3))]


def check_kill(case, ctx):
    lines, want, tree = ["import Process;"], [], {"child": ("mode", 0o755, child())}
    end = {"child": child()}
    for i, (sig, number) in enumerate(case):
        lines.append("Process.exec(%s).unwrap(); Process.run(%s).unwrap(); var p%d; with('pid%d', 'r') { p%d = file.read(); }" % (
            ll(["./child", "target", "pid%d" % i, "note%d" % i]), ll(["./child", "wait", "pid%d" % i, "8"]), i, i, i))
        n = int(signal.Signals[sig]) if sig else 9
        a = "" if sig is None else ", %s" % (n if number else "Process." + sig)
        lines.append("const r%d = Process.kill(p%d.toNumber().unwrap()%s); print(r%d.success()); print(r%d.unwrap()); Process.run([\"./child\", \"dead\", p%d]).unwrap();" % (i, i, a, i, i, i))
        want += ["true", "nil"]
        if n != 9:
            end["note%d" % i] = b"got %d" % n
    lines.append("print(Process.kill(4194304 * 2 + 17).success());")
    want.append("false")
    if len(case) > 1:
        ctx.nontrivial(case)
    r = ctx.expect("\n".join(lines) + "\n", want, tree=tree)
    got = {k: v for k, v in r.tree.items() if not k.startswith("pid")}
    same_tree(ctx, got, end)


def gen_bad(s):
    steps = [("import Process;", [], False)]
    for _ in s.many(2, 8, 4):
        f, a = s.pick([("run", ["", '"ls"', "nil", '["true"], 1', '["true"], true, true', '["true"], nil']), ("exec", ["", '"ls"', '["true"], true', "{}"]),
                       ("kill", ["", '"1"', "nil", '8388625, "9"', "8388625, 9, 9"])])
        steps.append(("Process.%s(%s);" % (f, s.pick(a)), [], True))
        if s.below(3) == 0:
            steps.append(('print(Process.run(["true"]).success());', ["true"], False))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    r = ctx.repl(steps, tree={"a": b"kept"})
    if r.tree != {"a": b"kept"}:
        ctx.fail("tree", "refused calls changed the tree to %r" % r.tree)


# -- many processes ----------------------------------------------------------
def gen_many(s):
    return [(s.weighted([(4, "run"), (4, "capture"), (2, "failing"), (2, "missing"), (2, "missing captured"), (1, "exec")]), s.int(1, 60)) for _ in range(s.int(3, 5))], [s.pick(NAMES) for _ in range(6)]


def check_many(case, ctx):
    """Descriptors are few: a call that keeps one makes later ones fail."""
    runs, names = case
    src = ["import Process;", "def start(p) {"]
    src += ["print(Process.%s == %d);" % (n, int(getattr(signal, n))) for n in names]
    src.append("}\nstart(0);")
    want = ["true"] * len(names)
    call = {"run": ("Process.run([\"./child\", \"say\", \"\", \"0\"])", "true"), "capture": ("Process.run([\"./child\", \"say\", \"x\", \"0\"], true)", "true"),
            "failing": ("Process.run([\"./child\", \"say\", \"y\", \"3\"], true)", "false"), "missing": ("Process.run([\"./nothing\"])", "false"),
            "missing captured": ("Process.run([\"./nothing\"], true)", "false"), "exec": ("Process.exec([\"./nothing\"])", "false")}
    total = 0
    for k, n in runs:
        ctx.label(k)
        total += n
        c, w = call[k]
        src.append("{ var n = 0; for (var i = 0; i < %d; i += 1) { if (%s.success() == %s) n += 1; } print(n); }" % (n, c, w))
        want.append(str(n))
    if total > 128:
        ctx.nontrivial(repr(case))
    src.append('print(Process.run(["./child", "say", "end", "0"], true).unwrap());')
    want.append("end")
    ctx.expect("\n".join(src) + "\n", want, tree={"child": ("mode", 0o755, child())}, cpu=20, wall=60000)


def parts():
    return [Part("run", gen_run, check_run, 1200), Part("kill", gen_kill, check_kill, 160), Part("many", gen_many, check_many, 48), Part("errors", gen_bad, check_bad, 300)]
