"""Random graphs of importing files against a model of modules and name spaces."""
import os, posixpath, shutil
from ..core import Part

VARIANTS = ["asan", "stress"]
TECHNIQUE = ("model-based generation of whole module graphs (files, directories, every import form, cycles, failing imports), run as "
             "files against a Python model of module loading and name spaces, in the ordinary and the GC-stress interpreter")
RULE = ("2-8 files in up to 5 directories and dictu_modules that all declare the same names, import one another in random forms (aliased, "
        "plain, from-import, in blocks, loops and functions called later, by different relative paths, cyclically), read, call and change "
        "one another's values and print after every step; some end in a use of a name, module or file that does not exist, a syntax error or "
        "a leaked name; non-trivial = at least 3 modules loaded, one of them imported more than once")


class Err(Exception):
    pass


class SyntaxErr(Exception):
    pass


class Mod:
    def __init__(self, path):
        self.path, self.g = path, {}


class Fn:
    def __init__(self, mod, kind, arg=None):
        self.mod, self.kind, self.arg = mod, kind, arg


class Cls:
    def __init__(self, mod):
        self.mod = mod


STD = ["v", "get", "put", "push", "l", "helper", "call", "K"]


def prelude(k):
    """The declarations every module starts from: (name, text, maker)"""
    return {
        "v": ('var v = "v%d";' % k, lambda m: "v%d" % k),
        "l": ("var l = [];", lambda m: []),
        "get": ("def get() { return v; }", lambda m: Fn(m, "get")),
        "put": ("def put(x) { v = x; }", lambda m: Fn(m, "put")),
        "push": ("def push(x) { l.push(x); return l.len(); }", lambda m: Fn(m, "push")),
        "helper": ('def helper() { return "h%d"; }' % k, lambda m: Fn(m, "helper", k)),
        "call": ("def call() { return helper(); }", lambda m: Fn(m, "call")),
        "K": ('class K { who() { return "%d:" + v; } }' % k, lambda m: Cls(m)),
        "c": ("const c = %d;" % k, lambda m: str(k)),
    }


def show(v):
    if isinstance(v, list):
        return "[" + ", ".join('"%s"' % x for x in v) + "]"
    if isinstance(v, Mod):
        raise Err("module printed")
    return str(v)


class World:
    """The model: runs the statement trees the generator made."""

    def __init__(self, files, bodies):
        self.files, self.bodies = files, bodies
        self.mods, self.out, self.loads, self.repeats = {}, [], 0, 0
        self.steps = 0

    def load(self, path):
        self.steps += 1
        if path is None:
            raise Err("file")
        if path in self.mods:
            self.repeats += 1
            return self.mods[path]
        if self.bodies[path] is None:
            raise SyntaxErr()
        m = self.mods[path] = Mod(path)
        self.loads += 1
        self.run(m, self.bodies[path], None)
        return m

    def lookup(self, m, env, n):
        e = env
        while e is not None:
            if n in e[0]:
                return e[0][n]
            e = e[1]
        if n in m.g:
            return m.g[n]
        raise Err("undefined " + n)

    def attr(self, v, n):
        if not isinstance(v, Mod) or n not in v.g:
            raise Err("attribute " + n)
        return v.g[n]

    def call(self, f, args):
        self.steps += 1
        if self.steps > 3000:
            raise RecursionError
        if not isinstance(f, Fn):
            raise Err("not callable")
        m = f.mod
        if f.kind == "get":
            return self.lookup(m, None, "v")
        if f.kind == "put":
            self.lookup(m, None, "v")
            m.g["v"] = args[0]
            return "nil"
        if f.kind == "push":
            l = self.lookup(m, None, "l")
            if not isinstance(l, list):
                raise Err("push")
            l.append(args[0])
            return str(len(l))
        if f.kind == "helper":
            return "h%d" % f.arg
        if f.kind == "call":
            return self.call(self.lookup(m, None, "helper"), [])
        if f.kind == "imp":         # imports when called
            t = self.load(f.arg)
            return self.call(self.attr(t, "get"), [])
        if f.kind == "impfrom":
            t = self.load(f.arg)
            return self.attr(t, "v")
        raise AssertionError(f.kind)

    def ev(self, m, env, e):
        k = e[0]
        if k == "str":
            return e[1]
        if k == "name":
            return self.lookup(m, env, e[1])
        if k == "attr":
            return self.attr(self.ev(m, env, e[1]), e[2])
        if k == "call":
            f = self.ev(m, env, e[1])
            return self.call(f, [self.ev(m, env, a) for a in e[2]])
        if k == "who":
            c = self.ev(m, env, e[1])
            if not isinstance(c, Cls):
                raise Err("not a class")
            return "%s:%s" % (c.mod.g["c"], self.lookup(c.mod, None, "v"))
        if k == "same":
            return "true" if self.ev(m, env, e[1]) is self.ev(m, env, e[2]) else "false"
        if k == "type":
            return "module" if isinstance(self.ev(m, env, e[1]), Mod) else "?"
        if k == "file":
            return "true" if isinstance(self.ev(m, env, e[1]), Mod) else "?"
        raise AssertionError(k)

    def run(self, m, body, env):
        for s in body:
            k = s[0]
            if k == "print":
                self.out.append(show(self.ev(m, env, s[1])))
            elif k == "do":
                self.ev(m, env, s[1])
            elif k == "decl":
                m.g[s[1]] = s[2](m)
            elif k == "assign":
                v = self.ev(m, env, s[2])
                e = env
                while e is not None:
                    if s[1] in e[0]:
                        e[0][s[1]] = v
                        break
                    e = e[1]
                else:
                    if s[1] not in m.g:
                        raise Err("undefined")
                    m.g[s[1]] = v
            elif k == "import":
                t = self.load(s[1])
                if s[2]:
                    (m.g if env is None else env[0])[s[2]] = t
            elif k == "from":
                t = self.load(s[1])
                vals = [self.attr(t, n) for n in s[2]]
                for n, v in zip(s[2], vals):
                    (m.g if env is None else env[0])[n] = v
            elif k == "block":
                for _ in range(s[1]):
                    self.run(m, s[2], ({}, env))
            elif k == "fail":
                raise Err(s[1])
            elif k == "math":
                self.out.append("3")


def rel(s, frm, to):
    """A path text that leads from the directory of file frm to the file to."""
    d = posixpath.dirname(frm)
    p = posixpath.relpath(to, d or ".")
    k = s.below(6)
    if k == 0:
        p = "./" + p
    elif k == 1 and d:
        p = "../" + posixpath.basename(d) + "/" + p
    elif k == 2:
        p = p.replace("/", "//", 1) if "/" in p else ".//" + p
    return p


def src_expr(e):
    k = e[0]
    return {"str": lambda: '"%s"' % e[1], "name": lambda: e[1], "attr": lambda: "%s.%s" % (src_expr(e[1]), e[2]),
            "call": lambda: "%s(%s)" % (src_expr(e[1]), ", ".join(map(src_expr, e[2]))), "who": lambda: "%s().who()" % src_expr(e[1]),
            "same": lambda: "%s == %s" % (src_expr(e[1]), src_expr(e[2])), "type": lambda: "type(%s)" % src_expr(e[1]),
            "file": lambda: "%s.__file__.len() > 0" % src_expr(e[1])}[k]()


def src(body, ind=""):
    out = []
    for s in body:
        k = s[0]
        if k == "print":
            out.append("print(%s);" % src_expr(s[1]))
        elif k == "do":
            out.append("%s;" % src_expr(s[1]))
        elif k == "decl":
            out.append(s[3])
        elif k == "assign":
            out.append("%s = %s;" % (s[1], src_expr(s[2])))
        elif k == "import":
            out.append('import "%s"%s;' % (s[3], " as " + s[2] if s[2] else ""))
        elif k == "from":
            out.append('from "%s" import %s;' % (s[3], ", ".join(s[2])))
        elif k == "block":
            if s[1] == 1:
                out.append("{\n%s}" % src(s[2], ind + "    "))
            else:
                out.append("for (var i = 0; i < %d; i += 1) {\n%s}" % (s[1], src(s[2], ind + "    ")))
        elif k == "fail":
            out.append(s[2])
        elif k == "math":
            out.append(s[1])
    return "".join(ind + l.replace("\n", "\n" + ind) + "\n" for l in out)


def gen(s):
    n = s.int(1, 7)
    dirs = s.pick([["p"], ["p", "p/a"], ["p", "p/a", "p/a/b", "p/c"], ["p", "dictu_modules", "p/a"]])
    files, taken = ["main.du"], set()
    for i in range(n):
        for _ in range(9):
            f = "%s/%s.du" % (s.pick(dirs), s.pick(["m", "n", "m%d" % i, "Math", "a", "x-y", "m%d.v2" % i]))
            if f not in taken:
                break
        else:
            continue
        taken.add(f)
        files.append(f)
    cyc = s.below(3) == 0
    broken = s.int(1, len(files) - 1) if len(files) > 1 and s.below(12) == 0 else None
    bodies = {}
    names = {}
    for k in range(len(files) - 1, -1, -1):
        bodies[files[k]] = None if k == broken else module(s, k, files, cyc, names)
    w = World(files, bodies)
    w.main = True
    err = 0
    try:
        m = Mod("main.du")
        w.loads += 1
        w.run(m, bodies["main.du"], None)
    except Err:
        err = 70
    except SyntaxErr:
        err = 65
    except RecursionError:
        from ..core import Discard
        raise Discard()
    texts = {f: src(bodies[f]) if bodies[f] is not None else 'print("never");\nvar = 5;\n' for f in files}
    return dict(texts=texts, out=w.out, exit=err, nt=w.loads >= 3 and w.repeats > 0, stress=s.below(8) == 0)


def module(s, k, files, cyc, names):
    me = files[k]
    body = [("print", ("str", "start %d" % k))]
    pre = prelude(k)
    order = ["c"] + (STD if s.below(3) else s.shuffle(STD))
    late = []
    if s.below(4) == 0:             # some declarations only after the imports
        cut = s.int(1, len(order))
        order, late = order[:cut], order[cut:]
    for n in order:
        body.append(("decl", n, pre[n][1], pre[n][0]))
    have = {}                       # aliases bound to modules at top level: name -> file
    later = [f for f in files[k + 1:]] if not cyc else [f for f in files[1:] if f != me] + ([me] if s.below(8) == 0 and k else [])
    fns = []

    def target():
        return s.pick(later) if later else None

    def ref(env):
        """An expression for a module in scope."""
        nms = [n for n in env] + list(have)
        if not nms:
            return None
        n = s.pick(nms)
        f = env.get(n) or have.get(n)
        e = ("name", n)
        for _ in range(2):
            sub = names.get(f)
            if sub and s.below(4) == 0:
                a = s.pick(sorted(sub))
                e, f = ("attr", e, a), sub[a]
        return e

    def use(env):
        e = ref(env)
        r = s.below(14)
        if e is None or r < 2:
            r2 = s.below(8)
            if r2 == 0:
                return ("assign", "v", ("str", "w%d.%d" % (k, s.below(90))))
            if r2 == 1 and fns:
                return ("print", ("call", ("name", s.pick(fns)), []))
            if r2 == 2:
                return ("do", ("call", ("name", "put"), [("str", "s%d.%d" % (k, s.below(90)))]))
            return ("print", s.pick([("name", "v"), ("call", ("name", "get"), []), ("call", ("name", "call"), []), ("name", "l"), ("name", "c"), ("who", ("name", "K"))]))
        at = lambda n: ("attr", e, n)
        if r < 4:
            return ("print", at("v"))
        if r == 4:
            return ("print", ("call", at("get"), []))
        if r == 5:
            return ("do", ("call", at("put"), [("str", "s%d.%d" % (k, s.below(90)))]))
        if r == 6:
            return ("print", ("call", at("push"), [("str", "p%d.%d" % (k, s.below(90)))]))
        if r == 7:
            return ("print", at("l"))
        if r == 8:
            return ("print", ("call", at("call"), []))
        if r == 9:
            return ("print", ("who", at("K")))
        if r == 10:
            return ("print", at("c"))
        if r == 11:
            o = ref(env)
            return ("print", ("same", e, o))
        if r == 12:
            return ("print", s.pick([("type", e), ("file", e)]))
        return ("print", ("call", at("f0" if s.below(2) else "helper"), [])) if s.below(2) else ("print", ("call", at("helper"), []))

    def imp(env, top):
        f = target()
        if f is None:
            return []
        # a bare name is looked up in dictu_modules when there is no such file here
        p = f[len("dictu_modules/"):] if f.startswith("dictu_modules/") and posixpath.join(posixpath.dirname(me), f[len("dictu_modules/"):]) not in files and s.below(3) else rel(s, me, f)
        r = s.below(10)
        if r < 5:
            a = "A%d" % s.below(4)
            if not top and a in env:
                return []
            (have if top else env)[a] = f
            if top:
                names.setdefault(me, {})[a] = f
            return [("import", f, a, p)]
        if r < 7:
            return [("import", f, None, p)]
        nms = s.shuffle(["v", "get", "put", "helper", "l", "K", "push"])[:s.int(1, 3)]
        if not top and any(n in env for n in nms):
            return []
        if not top:
            for n in nms:
                env.setdefault(n, None)
        return [("from", f, nms, p)]

    for _ in s.many(2, 16, 7):
        r = s.below(12)
        if r < 4:
            body += imp({}, True)
        elif r == 4 and target():
            f, nm = target(), "f%d" % len(fns)
            fns.append(nm)
            p = rel(s, me, f)
            if s.below(2):
                body.append(("decl", nm, (lambda f: lambda m: Fn(m, "imp", f))(f), 'def %s() { import "%s" as Z; return Z.get(); }' % (nm, p)))
            else:
                body.append(("decl", nm, (lambda f: lambda m: Fn(m, "impfrom", f))(f), 'def %s() { from "%s" import v; return v; }' % (nm, p)))
        elif r == 5:
            env, b = {}, []
            for _ in range(s.int(1, 4)):
                b += imp(env, False) if s.below(2) else [use({a: f for a, f in env.items() if f})]
            if b:
                body.append(("block", s.pick([1, 1, 2, 3]), b))
        elif r == 6 and late:
            x = late.pop(0)
            body.append(("decl", x, pre[x][1], pre[x][0]))
        elif r == 7 and s.below(3) == 0:
            body.append(("math", s.pick(["import Math; print(Math.abs(-3));", "{ import Math; print(Math.abs(-3)); }", "{ from Math import abs; print(abs(-3)); }"])))
            if s.below(2):
                body.append(("math", "{ import Math as ignored; }")) if False else None
        else:
            body.append(use({}))
    for x in late:
        body.append(("decl", x, pre[x][1], pre[x][0]))
    if k < 3 and s.below(10) == 0:
        t = target()
        bad = [("unknown module", "import Mathx;")] if False else []
        bad += [("missing", 'import "nowhere.du" as Q;'), ("missing from", 'from "nowhere.du" import v;'), ("not declared", "print(q%d);" % s.below(9)),
                ("attribute", "print(%s.nothing);" % src_expr(ref({}))) if ref({}) else ("missing", 'import "./x/y.du";'),
                ("import by name", 'from Math import nothing;'), ("module without alias", "print(Base64);")]
        if t:
            bad.append(("from nothing", 'from "%s" import nothing%d;' % (rel(s, me, t), k)))
            if bad[-1]:
                pass
        what, text = s.pick(bad)
        if what == "from nothing":
            body.append(("import", t, None, rel(s, me, t)))
        body.append(("fail", what, text))
    body.append(("print", ("str", "end %d" % k)))
    return body


def check(case, ctx):
    variant = "stress" if case["stress"] else "asan"
    d = ctx.dir(variant)
    for sub in ("p", "dictu_modules"):
        shutil.rmtree(os.path.join(d, sub), ignore_errors=True)
    for sub in ("p/a/b", "p/c", "dictu_modules"):
        os.makedirs(os.path.join(d, sub))
    if case["nt"]:
        ctx.nontrivial(tuple(sorted(case["texts"].items())))
    ctx.label("exit %d" % case["exit"])
    files = {f: t for f, t in case["texts"].items() if f != "main.du"}
    ctx.expect_items(case["texts"]["main.du"], case["out"], exit=case["exit"], variant=variant, files=files, cpu=20 if case["stress"] else 5)


NAMES = "Argparse Math Env IO JSON Log Path Datetime Socket Net Random Base64 Hashlib Queue Stack Sqlite Process System Term UUID UnitTest Inspect Object HTTP BigInt Buffer FFI".split()


def gen_builtin(s):
    n = s.pick(NAMES)
    r = s.below(8)
    if r == 0:
        n = n[:s.int(1, len(n) - 1)]
    elif r == 1:
        n = n + s.pick(["x", "s", "_", "2", n])
    elif r == 2:
        n = n.lower() if n.lower() != n else n.upper()
    elif r == 3:
        n = n[:-1] + chr((ord(n[-1]) - 96) % 26 + 97)
    form = s.weighted([(3, "import %s;"), (1, "import %s ;"), (1, "import\n%s\n;"), (1, "{ import %s; }"), (2, "from %s import __file__;"), (1, "def f() { import %s; } f();"), (1, "import %s; import %s;")])
    return n, form


def check_builtin(case, ctx):
    n, form = case
    ctx.nontrivial(case)
    known = n in NAMES
    if "print" in n:
        return
    p = 'print("a");\n' + form.replace("%s", n) + '\nprint("b");\n'
    if not known:
        ctx.label("unknown")
        r = ctx.run(p)
        ctx.alive(r)
        if r.exit != 65 or r.out or b"Unknown module" not in r.err:
            ctx.fail("builtin", "import of the unknown module %s: exit %s, printed %r, %r" % (n, r.exit, r.out, r.err[:200]))
    else:
        more = ""
        if form.startswith("import") and form.count("%s") == 1:
            more = 'print(%s.__file__);print(type(%s));\n' % (n, n)
        elif form.startswith("from"):
            more = 'print(__file__);'
        ctx.expect_items(p + more, ["a", "b"] + ([n, "module"] if form.startswith("import") and more else [n] if more else []))


def parts():
    return [Part("graphs", gen, check, 4000), Part("standard modules", gen_builtin, check_builtin, 400)]
