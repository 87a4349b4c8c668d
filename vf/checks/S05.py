"""Path functions: text components against a component model; file-system queries against a generated directory tree."""
import os, shutil
from ..core import Part, Any
from .. import vals as V

RULE = ("text: 6-25 calls of basename, dirname, extname, isAbsolute and join on paths built from separators, dots, names with "
        "and without extensions, empty parts and non-ASCII; tree: a generated directory tree with files, directories, empty "
        "directories, symbolic links (good, dangling, cyclic), then 8-30 queries with existing, missing and redundant paths; "
        "non-trivial = a path with two or more components (text), a link or a missing path queried (tree)")

NAMES = ["a", "b", "tmp", "usr", "file.txt", "archive.tar.gz", ".hidden", "..", ".", "no ext", "trailing.", "é", "x.y", ".a.b", "..."]
SEPS = ["/", "/", "/", "//", "///"]


def gen_path(s):
    k = s.below(12)
    if k == 0:
        return s.pick(["", "/", "//", ".", "..", "/.", "./", "a", "a/", "/a", "///a///"])
    if k == 1:
        return s.text("/./ab", 0, 12, 5)
    p = s.pick(SEPS) if s.below(2) else ""
    first = True
    for _ in s.many(1, 6, 3):
        if not first:
            p += s.pick(SEPS)
        p += s.pick(NAMES)
        first = False
    if s.below(4) == 0:
        p += s.pick(SEPS)
    return p


def basename(p):
    if not p:
        return ""
    t = p.rstrip("/")
    return t.split("/")[-1] if t else "/"


def dirname(p):
    if not p:
        return "."
    t = p.rstrip("/")
    if not t:
        return "/"
    if "/" not in t:
        return "."
    d = t[:t.rindex("/")]
    d = d.rstrip("/")
    return d or "/"


def extname(p):
    last = p.split("/")[-1]
    return last[last.rindex("."):] if "." in last else ""


def join(parts):
    mid = [x.strip("/") for x in parts]
    out = "/" if parts[0].startswith("/") else ""
    out += "/".join(x for x in mid if x)
    if parts[-1].endswith("/") and not out.endswith("/"):
        out += "/"
    return out


def gen_text(s):
    lines, want, nt = ["import Path;"], [], False
    for i in range(len(list(s.many(6, 25, 12)))):
        f = s.pick(["basename", "dirname", "extname", "isAbsolute", "join", "join", "recompose", "nested"])
        s.label("fn:" + f)
        if f == "join":
            ps = [gen_path(s) if s.below(3) else s.pick(NAMES) for _ in s.many(1, 5, 2.5)]
            a = ", ".join(V.lit(p) for p in ps)
            e, w = "Path.join(%s)" % ("[%s]" % a if s.below(2) else a), join(ps)
            nt |= len(ps) > 1
        elif f == "recompose":
            # basename and dirname of a clean path put it together again
            ps = [s.pick(["a", "b.c", "dir", "x y"]) for _ in s.many(1, 4, 2)]
            p = "/" + "/".join(ps)
            e, w = "Path.join(Path.dirname(%s), Path.basename(%s)) == %s" % (V.lit(p), V.lit(p), V.lit(p)), True
        elif f == "nested":
            p = gen_path(s)
            e, w = "Path.dirname(Path.dirname(%s))" % V.lit(p), dirname(dirname(p))
        else:
            p = gen_path(s)
            nt |= len([x for x in p.split("/") if x]) > 1
            w = {"basename": basename, "dirname": dirname, "extname": extname, "isAbsolute": lambda x: x.startswith("/")}[f](p)
            if s.below(4) == 0:
                lines.append("{ var p = %s; print([Path.%s(p), p]); }" % (V.lit(p), f))
                want.append(V.show([w, p]))
                continue
            e = "Path.%s(%s)" % (f, V.lit(p))
        lines.append("print([%s]);" % e)
        want.append(V.show([w]))
    if s.below(6) == 0:
        lines.append("print(Path.dirSeparator); print(Path.delimiter);")
        want += ["/", ":"]
    return lines, want, nt


def check_text(case, ctx):
    lines, want, nt = case
    if nt:
        ctx.nontrivial(lines)
    ctx.expect_items("\n".join(lines) + "\n", want)


# -- the file system ---------------------------------------------------------
def gen_tree(s):
    """-> list of (relative path, kind, target)"""
    dirs, out = [""], []
    used = set()
    for _ in s.many(2, 12, 6):
        d = s.pick(dirs)
        n = s.pick(["a", "b", "c", "file.txt", "x y", ".dot", "é", "d1", "d2", "long_name_of_an_entry"])
        p = (d + "/" + n) if d else n
        if p in used:
            continue
        used.add(p)
        k = s.weighted([(4, "file"), (3, "dir"), (3, "link")])
        if k == "dir":
            dirs.append(p)
            out.append((p, "dir", None))
        elif k == "file":
            out.append((p, "file", None))
        else:
            t = s.pick([q for q, _, _ in out] + ["missing", p, "."])
            rel = os.path.relpath(t, d or ".") if t not in ("missing",) else "missing"
            out.append((p, "link", rel))
    q = []
    for _ in s.many(8, 30, 14):
        f = s.pick(["exists", "isDir", "listDir", "realpath", "realpath"])
        base = s.pick([p for p, _, _ in out] + [""]) if s.below(5) else s.pick(["nope", "a/nope", "file.txt/x", "../" * 3 + "nope"])
        k = s.below(6)
        if k == 0:
            base += "/"
        elif k == 1:
            base = "./" + base
        elif k == 2:
            base = base + "/.."
        elif k == 3:
            base = base.replace("/", "//")
        q.append((f, base))
    return out, q


def check_tree(case, ctx):
    tree, q = case
    top = os.path.join(ctx.dir(), "w")
    root = os.path.join(top, "tree")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(root)
    plan = {"tree": None}
    try:
        for p, k, t in tree:
            full = os.path.join(root, p)
            if not os.path.isdir(os.path.dirname(full)):
                continue
            try:
                if k == "dir":
                    os.mkdir(full)
                elif k == "file":
                    open(full, "w").close()
                else:
                    os.symlink(t, full)
                plan["tree/" + p] = {"dir": None, "file": b"", "link": ("link", t)}[k]
            except OSError:
                pass
        steps, nt = [("import Path;", [], False)], False
        for f, p in q:
            rel = "tree/" + p
            full = os.path.join(top, rel)
            lit = V.lit(rel)
            nt |= os.path.islink(full.rstrip("/")) or not os.path.exists(full)
            if f == "exists":
                steps.append(("print(Path.exists(%s));" % lit, [V.show(os.path.exists(full))], False))
            elif f == "isDir":
                steps.append(("print(Path.isDir(%s));" % lit, [V.show(os.path.isdir(full))], False))
            elif f == "realpath":
                try:
                    w = os.path.realpath(full, strict=True)
                    # a trailing separator or /.. is refused on what is not a directory
                    os.stat(full)
                    steps.append(("print(Path.realpath(%s).unwrap());" % lit, [w], False))
                except OSError:
                    steps.append(("print(Path.realpath(%s).success());" % lit, ["false"], False))
            else:
                try:
                    names = os.listdir(full)
                    steps.append(("const l%d = Path.listDir(%s); print(l%d.len()); l%d.forEach(def (x) => print(x));" %
                                  ((len(steps), lit) + (len(steps),) * 2), [str(len(names)), Any(names)], False))
                except OSError:
                    steps.append(("Path.listDir(%s);" % lit, [], True))
        if nt:
            ctx.nontrivial((tree, q))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    ctx.repl(steps, tree=plan)


def gen_bad(s):
    steps = [("import Path;", [], False)]
    for _ in s.many(3, 10, 5):
        f = s.pick(["basename", "dirname", "extname", "isAbsolute", "exists", "isDir", "realpath", "join", "listDir"])
        if f == "join":
            ps = [V.lit(gen_path(s)) for _ in s.many(0, 3, 1)]
            ps.insert(s.below(len(ps) + 1), s.pick(["nil", "1", "true", "{}", "[]"] if ps else ["nil", "1", "[]", "[nil]", '["a", 1]', ""]))
            a = ", ".join(ps)
            if s.below(2) and ps != [""]:
                a = "[" + a + "]"
        else:
            a = s.pick(["1", "nil", "true", '["/a"]', '"/a", "/b"'] + ([] if f == "listDir" else [""]))
        steps.append(("Path.%s(%s);" % (f, a), [], True))
        if s.below(3) == 0:
            steps.append(('print(Path.basename("/usr/bin"));', ["bin"], False))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def gen_many(s):
    return [(s.pick(["listDir", "exists", "isDir", "realpath"]), s.pick(["d", "f", "d/e", "none", "l"]), s.int(1, 80)) for _ in range(s.int(3, 6))]


def check_many(case, ctx):
    """Descriptors are few (128): a query that keeps one makes later ones fail."""
    tree = {"d": None, "f": b"x", "d/e": None, "d/e/g": b"", "l": ("link", "d")}
    src, want = ["import Path;"], []
    lists = {"d": 1, "d/e": 1, "l": 1}
    for f, p, n in case:
        ctx.label(f)
        if f == "listDir" and p in lists:
            e, w = "Path.listDir('%s').len() == 1" % p, True
        elif f == "listDir":
            continue
        elif f == "realpath":
            e, w = "Path.realpath('%s').success()" % p, p != "none"
        else:
            e, w = "Path.%s('%s')" % (f, p), p != "none" if f == "exists" else p in ("d", "d/e", "l")
        src.append("{ var n = 0; for (var i = 0; i < %d; i += 1) { if (%s) n += 1; } print(n); }" % (n, e))
        want.append(str(n if w else 0))
    if sum(n for f, _, n in case if f == "listDir") > 128:
        ctx.nontrivial(repr(case))
    src.append("print(Path.listDir('d/e')); with ('f', 'r') { print(file.read()); }")
    want += ['["g"]', "x"]
    ctx.expect("\n".join(src) + "\n", want, tree=tree)


def parts():
    return [Part("text", gen_text, check_text, 6000), Part("tree", gen_tree, check_tree, 3000), Part("errors", gen_bad, check_bad, 600), Part("many", gen_many, check_many, 200)]
