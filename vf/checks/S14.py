"""System calls on planted trees against the same calls made directly, both with the rights of an unprivileged user."""
import os
from ..core import Part
from .S08 import blit, brief

TECHNIQUE = ("differential stateful testing: generated histories of System and Path calls in planted directory trees, each outcome and the "
             "resulting tree (contents, links, permission bits) compared with the same history performed through Python's os module with the same rights")
RULE = ("(history) 3-14 planted files, directories, links and forbidden directories and 8-40 of 13 calls with existing, missing, nested, "
        "slash-laden, overlong, absolute, linked and forbidden paths, modes and working-directory changes; (identity) process, "
        "host and clock queries against Python's; non-trivial = at least 3 calls that change the tree and 2 that must fail")

NAMES = ["a", "b", "c", "x y", "\u00e9", ".h", "back\\slash"]


def gen_history(s):
    tree, dirs = {}, [""]
    for _ in s.many(3, 14, 6):
        d = s.pick(dirs)
        n = s.pick(NAMES)
        p = d + "/" + n if d else n
        if p in tree:
            continue
        k = s.weighted([(4, "dir"), (4, "file"), (1, "link"), (1, "locked")])
        if k == "dir":
            tree[p] = None if s.below(4) else ("mode", s.pick([0o755, 0o700]), None)
            dirs.append(p)
        elif k == "file":
            tree[p] = p.encode() if s.below(3) else ("mode", s.pick([0o400, 0, 0o222, 0o755]), p.encode())
        elif k == "link":
            # never upwards: a link that is moved must not lead out of the tree
            t = s.pick([q for q in sorted(tree) if q.startswith(d + "/" if d else "")] + ["nowhere"])
            tree[p] = ("link", t[len(d) + 1:] if d and t != "nowhere" else t)
        else:
            tree[p] = ("mode", s.pick([0o555, 0o000, 0o333]), None)
            if s.below(2):
                tree[p + "/in"] = s.pick([None, b"locked in"])
    ops, depth = [], 0
    made = sorted(tree)

    def path(new=False):
        k = s.below(24)
        if k == 0:
            return s.pick(["", ".", "./", "nodir/x", "a/b/c/d", "n" * 255, "n" * 256, "/".join(["long%02d" % i for i in range(s.pick([30, 36, 37, 38, 45, 60]))])])
        if k == 1 and depth == 0:
            return "//ABS//" + s.pick(made + ["new"])
        b = s.pick(made) if made and not (new and s.below(2)) else (s.pick(made) + "/" if made and s.below(2) else "") + s.pick(NAMES + ["n1", "n2"])
        if k == 2:
            b += s.pick(["/", "//", "/."])
        elif k == 3:
            b = "./" + b
        elif k == 4:
            b = b.replace("/", "//")
        elif k == 5:
            b = b + "/../" + s.pick(NAMES)
        return b
    for _ in s.many(8, 40, 18):
        f = s.weighted([(4, "mkdir"), (4, "mkdirAll"), (3, "rmdir"), (4, "remove"), (5, "rename"), (3, "chmod"), (1, "chown"), (2, "access"),
                        (2, "setCWD"), (1, "getCWD"), (2, "mkdirTemp"), (2, "write"), (3, "query")])
        if f in ("mkdir", "mkdirAll"):
            p = path(True)
            a = [p] + ([s.pick([0o777, 0o755, 0o700, 0o711, 0o777, 0o555, 0])] if s.below(3) == 0 else [])
            made.append(p) if p and "//ABS" not in p else None
        elif f == "rename":
            b = path(True)
            a = [path(), b]
            made.append(b) if b and "//ABS" not in b else None
        elif f == "chmod":
            a = [path(), s.pick(["644", "755", "000", "700", "600", "4755", "0640", "7", "555", "", "abc", "9", "u+x", "77777", "-1", "64 4"])]
        elif f == "chown":
            a = [path()] + s.pick([[65534, 65534], [0, 0], [-1, -1], [65534, -1], [65534, 0]])
        elif f == "access":
            a = [path(), s.pick([0, 1, 2, 4, 6, 7])]
        elif f == "setCWD":
            if depth and s.below(2):
                a = [".."]      # back to the top, where depth is 0 again
                depth -= 1
            else:
                a = [path()]
        elif f == "mkdirTemp":
            a = s.pick([[], [""], ["t_XXXXXX"], ["XXXXXXXX"], ["bad"], ["nodir/XXXXXX"], ["XXXXXXt"], ["a/q.XXXXXX"], ["XXXXX"]])
        elif f == "write":
            p = path(True)
            a = [p, s.text("abc\n", 0, 5)]
            made.append(p) if p and "//ABS" not in p else None
        elif f == "getCWD":
            a = []
        elif f in ("rmdir", "remove"):
            a = [path()]
        else:
            a = [s.pick(["exists", "isDir", "read", "list"]), path()]
        ops.append((f, a))
        s.label(f)
    return tree, ops


def oracle(ops, notes):
    """Perform ops here; -> steps.  The working directory is kept at or below the top."""
    top = os.getcwd()
    steps = [("import System; import Path; def res(r) { if (r.success()) { return 'ok'; } return 'error ' + type(r.unwrapError()); }", [], False)]
    changed = failed = n = 0

    def attempt(fn):
        try:
            fn()
            return True
        except (OSError, ValueError):
            return False

    def all_dirs(p, mode):
        while len(p) > 1 and p.endswith("/"):
            p = p[:-1]
        for i in range(1, len(p)):
            if p[i] == "/":
                try:
                    os.mkdir(p[:i], mode)
                except FileExistsError:
                    pass
        os.mkdir(p, mode)
    for f, a in ops:
        n += 1
        a = [top + "/" + x[7:] if isinstance(x, str) and x.startswith("//ABS//") else x for x in a]
        lits = ", ".join(blit(x.encode()) if isinstance(x, str) else str(x) for x in a)
        call = "print(res(System.%s(%s)));" % (f, lits)
        if f == "setCWD":
            try:
                old = os.getcwd()
                os.chdir(a[0])
                cwd = os.getcwd()
                if not (cwd + "/").startswith(top + "/"):
                    os.chdir(old)       # never above the top
                    continue
                ok = True
            except OSError:
                ok = False
        elif f == "getCWD":
            try:
                cwd = os.getcwd()
            except OSError:
                steps.append(("print(System.getCWD().success());", ["false"], False))
                continue
            steps.append(("print(System.getCWD().unwrap());", [cwd], False))
            continue
        elif f == "query":
            q, p = a
            lit = blit(p.encode())
            if q == "exists":
                steps.append(("print(Path.exists(%s));" % lit, ["true" if os.path.exists(p) else "false"], False))
            elif q == "isDir":
                steps.append(("print(Path.isDir(%s));" % lit, ["true" if os.path.isdir(p) else "false"], False))
            elif q == "read":
                try:
                    with open(p, "rb") as h:
                        text = h.read().decode("utf-8", "surrogateescape")
                    steps.append(('with(%s, "r") { print(file.read()); }' % lit, text.split("\n"), False))
                except OSError:
                    steps.append(('with(%s, "r") { print(file.read()); }' % lit, [], True))
            else:
                try:
                    names = os.listdir(p)
                    from ..core import Any
                    steps.append(("const l%d = Path.listDir(%s); print(l%d.len()); l%d.forEach(def (x) => print(x));" % (n, lit, n, n), [str(len(names)), Any(names)], False))
                except OSError:
                    steps.append(("Path.listDir(%s);" % lit, [], True))
            continue
        elif f == "write":
            try:
                with open(a[0], "wb") as h:
                    h.write(a[1].encode())
                ok = True
            except OSError:
                ok = False
            steps.append(('with(%s, "w") { print(file.write(%s)); }' % (blit(a[0].encode()), blit(a[1].encode())), [str(len(a[1]))] if ok else [], not ok))
            changed += ok
            failed += not ok
            continue
        elif f == "mkdirTemp":
            t = a[0] if a and a[0] else "XXXXXX"
            name = os.path.join(os.path.dirname(t), "temp%d" % n)
            ok = t.endswith("XXXXXX") and not os.path.exists(name) and attempt(lambda: os.mkdir(name, 0o700))
            if not ok:
                if t.endswith("XXXXXX") and os.path.exists(name):
                    continue
                steps.append(("print(System.mkdirTemp(%s).success());" % lits, ["false"], False))
                failed += 1
                continue
            changed += 1
            steps.append(("const t%d = System.mkdirTemp(%s).unwrap(); print(t%d.len()); print(t%d[0:%d]); print(t%d.find('XXXXXX')); print(System.rename(t%d, %s).success());" % (
                n, lits, n, n, len(t) - 6, n, n, blit(name.encode())), [str(len(t)), t[:-6], "-1", "true"], False))
            continue
        elif f == "mkdir":
            ok = attempt(lambda: os.mkdir(*a))
        elif f == "mkdirAll":
            ok = attempt(lambda: all_dirs(a[0], a[1] if len(a) > 1 else 0o777))
        elif f == "rmdir":
            ok = attempt(lambda: os.rmdir(a[0]))
        elif f == "remove":
            ok = attempt(lambda: os.unlink(a[0]))
        elif f == "rename":
            ok = attempt(lambda: os.rename(*a))
        elif f == "chmod":
            ok = bool(a[1]) and set(a[1]) <= set("01234567") and int(a[1], 8) <= 0o7777 and attempt(lambda: os.chmod(a[0], int(a[1], 8)))
        elif f == "chown":
            ok = attempt(lambda: os.chown(*a))
        else:
            try:
                ok = a[0] != "" and os.access(a[0], a[1], effective_ids=True)
            except OSError:
                ok = False
        if f not in ("access", "setCWD"):
            changed += ok
        failed += not ok
        steps.append((call, ["ok" if ok else "error string"], False))
    notes.update(changed=changed, failed=failed)
    return steps


def check_history(case, ctx):
    tree, ops = case
    if getattr(ctx, "pooled", False):
        ops = [o for o in ops if not any("//ABS//" in str(x) for x in o[1])]
    notes = {}
    steps, want = ctx.as_nobody(tree, lambda: oracle(ops, notes))
    if notes["changed"] >= 3 and notes["failed"] >= 2:
        ctx.nontrivial((sorted(tree), ops))
    r = ctx.repl(steps, tree=tree)
    for n in sorted(set(r.tree) | set(want)):
        g, w = r.tree.get(n, "absent"), want.get(n, "absent")
        if g != w:
            ctx.fail("tree", "afterwards %r is %s, performed directly it is %s" % (n, brief(g), brief(w)))
        if r.tree.modes.get(n) != want.modes.get(n):
            ctx.fail("mode", "afterwards %r has mode %o, performed directly %o" % (n, r.tree.modes[n], want.modes[n]))


# -- the process and the host --------------------------------------------------
def gen_identity(s):
    qs = []
    for _ in s.many(1, 8, 4):
        qs.append(s.pick(["getuid", "geteuid", "getgid", "getegid", "pid", "uname", "time", "clock", "sleep", "platform", "version", "const", "bad"]))
    return qs


def check_identity(qs, ctx):
    import platform, time
    lines, want = ["import System;"], []
    now = time.time()
    u = os.uname()
    for i, q in enumerate(qs):
        if q in ("getuid", "geteuid", "getgid", "getegid"):
            lines.append("print(System.%s());" % q)
            want.append("65534")
        elif q == "pid":
            lines.append("print(System.getpid() != System.getppid() and System.getpid() > 1 and System.getpid() == System.getpid());")
            want.append("true")
        elif q == "uname":
            for k in ("sysname", "nodename", "machine", "release", "version"):
                lines.append('print(System.uname()["%s"]);' % k)
                want.append(getattr(u, k))
        elif q == "platform":
            lines.append("print(System.platform);")
            want.append(u.sysname[:1].lower() + u.sysname[1:])
        elif q == "time":
            lines.append("print(System.time() >= %d and System.time() <= %d);" % (int(now) - 1, int(now) + 60))
            want.append("true")
        elif q == "clock":
            lines.append("{ const a = System.clock(); var t = 0; for (var j = 0; j < 20000; j += 1) { t += j; } const b = System.clock(); print(a >= 0 and b >= a and b < 60); }")
            want.append("true")
        elif q == "sleep":
            lines.append("System.sleep(%s);" % [0, 0.02, 0.05, 1][3 if i == 0 and len(qs) == 8 else i % 3])
        elif q == "version":
            lines.append('print(System.version["major"] + "." + System.version["minor"] + "." + System.version["patch"]);')
            want.append(version())
        elif q == "const":
            import stat
            for k in ("S_IRWXU", "S_IRUSR", "S_IWUSR", "S_IXUSR", "S_IRWXG", "S_IRGRP", "S_IWGRP", "S_IXGRP", "S_IRWXO", "S_IROTH", "S_IWOTH", "S_IXOTH", "S_ISUID", "S_ISGID"):
                lines.append("print(System.%s);" % k)
                want.append(str(getattr(stat, k)))
            for k in ("F_OK", "X_OK", "W_OK", "R_OK"):
                lines.append("print(System.%s);" % k)
                want.append(str(getattr(os, k)))
    if len(qs) > 2:
        ctx.nontrivial(qs)
    t0 = time.monotonic()
    ctx.expect("\n".join(lines) + "\n", want, tree={})
    took = time.monotonic() - t0
    need = sum([0, 0.02, 0.05, 1][3 if i == 0 and len(qs) == 8 else i % 3] for i, q in enumerate(qs) if q == "sleep")
    if took < need:
        ctx.fail("sleep", "%.3f s passed, the program sleeps %.3f s" % (took, need))


def version():
    import re
    from .. import build
    t = open(os.path.join(build.REPO, "src/include/dictu_include.h")).read()
    return ".".join(re.search(r'#define DICTU_%s_VERSION "(\d+)"' % k, t).group(1) for k in ("MAJOR", "MINOR", "PATCH"))


def gen_bad(s):
    steps = [("import System;", [], False)]
    for _ in s.many(2, 8, 4):
        f, a = s.pick([("mkdir", ["", "1", '"n", "x"', '"n", 1, 2', "nil"]), ("mkdirAll", ["", "[]", '"n", nil', '"a", 1, 1']), ("rmdir", ["", "1", '"a", "b"']),
                       ("remove", ["", "nil", '"a", "b"']), ("rename", ["", '"a"', '"a", 1', 'nil, "b"', '"a", "b", "c"']), ("chmod", ['"a"', '"a", 644', '1, "644"', ""]),
                       ("chown", ['"a"', '"a", 1', '"a", "b", 1', '1, 1, 1', ""]), ("access", ['"a"', '"a", "r"', "1, 1", ""]), ("setCWD", ["", "1", '"a", "b"']),
                       ("mkdirTemp", ["1", '"aXXXXXX", 1', "nil"]), ("sleep", ["", '"1"', "0, 0"]), ("getpid", ["1"]), ("getuid", ["nil"]), ("uname", ["1"]), ("exit", ["", '"1"', "1, 2"])])
        steps.append(("System.%s(%s);" % (f, s.pick(a)), [], True))
        if s.below(3) == 0:
            steps.append(("print(System.getCWD().success());", ["true"], False))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    tree = {"a": b"kept", "b": None}
    r = ctx.repl(steps, tree=tree)
    if r.tree != tree:
        ctx.fail("tree", "refused calls changed the tree to %r" % r.tree)


def parts():
    return [Part("history", gen_history, check_history, 4000), Part("identity", gen_identity, check_identity, 200), Part("errors", gen_bad, check_bad, 600)]
