"""A native module built from /repo's FFI header, its functions called in generated histories; loading that must fail or succeed."""
import copy
import hashlib
import os
import subprocess
import sys

from .. import build, core
from .. import vals as V
from ..core import Discard, Part, Shown

VARIANTS = ["asan", "stress"]
TECHNIQUE = ("model-based histories over a native module that uses every function and structure the FFI hands over, compared with a Python model "
             "and with what the interpreter's own methods say about the same objects")
RULE = ("(calls) 1-25 calls per program of a module compiled at check time against /repo's header, and of one compiled against the header the API "
        "version was fixed with: values of every type passed in and out, lists, dictionaries and sets built, read and changed on both sides, results, "
        "native objects with state, own memory, files, runtime errors raised by native code at a random call depth, with collections between; "
        "(load) sequences of loads in a file or REPL lines: good modules, missing files, files that are no library, libraries without "
        "the entry point, modules refusing or wanting a newer version, wrong arguments; non-trivial = at least 3 native calls, or a failing load")
HERE = os.path.dirname(os.path.abspath(__file__))
FFI = os.path.join(HERE, "..", "..", "harness", "ffi")
class Libs(dict):
    def __missing__(self, k):        # another check runs these programs
        setup()
        return self[k]


LIBS = Libs()
MODS = {                  # name -> (source, flags, header from the tree?)
    "mod": ("mod.c", [], True),
    "old": ("mod.c", [], False),
    "init1": ("mod.c", ["-DVF_INIT=1"], True),
    "init5": ("mod.c", ["-DVF_INIT=5"], True),
    "noinit": ("noinit.c", [], None),
    "newer": ("newer.c", [], None),
}


def setup():
    head = os.path.join(build.REPO, "src", "include", "dictu_ffi_include.h")
    base = os.path.join(FFI, "baseline_include.h")
    out = os.path.join(os.environ.get("VF_BUILD", os.path.join(build.VERIF, "build")), "ffi")
    os.makedirs(out, exist_ok=True)
    for name, (src, flags, cur) in MODS.items():
        h = head if cur else base
        key = hashlib.sha256(open(h, "rb").read() + open(os.path.join(FFI, src), "rb").read() + repr(flags).encode()).hexdigest()[:16]
        so = os.path.join(out, "%s-%s.so" % (name, key))
        if not os.path.exists(so):
            tmp = "%s.%d" % (so, os.getpid())
            r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", '-DVF_HEADER="%s"' % os.path.abspath(h)] + flags + ["-o", tmp, os.path.join(FFI, src)], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("native module does not compile: " + r.stderr[-2000:])
            os.replace(tmp, so)
        LIBS[name] = so


class Native:
    """Model of one program's native calls."""

    def __init__(self, s):
        self.s = s
        self.src, self.items = [], []
        self.n = 0
        self.dicts, self.sets, self.lists, self.counters = [], [], [], []
        self.alive = 0
        self.failed = None

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def line(self, src, *items):
        self.src.append(src)
        self.items += [Shown(copy.deepcopy(i.v)) if isinstance(i, Shown) else i for i in items]

    def shown(self, expr, v):
        self.line("print([%s]);" % expr, Shown([v]))

    def value(self):
        return V.gen_value(self.s)

    def arg(self, v):
        """v as an argument, sometimes by way of a variable, a call or the module itself."""
        k = self.s.below(8)
        if k == 0:
            x = self.name("x")
            self.line("const %s = %s;" % (x, V.lit(v)))
            return x
        if k == 1:
            return "m.first(%s)" % V.lit(v)
        if k == 2:
            return "(def () => (%s))()" % V.lit(v)
        return V.lit(v)

    def step(self):
        s = self.s
        k = s.below(24)
        s.label("step %d" % k)
        if k == 0:
            vs = [self.value() for _ in s.many(0, 6, 3)]
            self.shown("m.echo(%s)" % ", ".join([self.arg(v) for v in vs]), vs)
        elif k == 1:
            vs = [self.value() for _ in s.many(0, 9, 3)]
            if s.below(3):
                self.line("print(m.count(%s));" % ", ".join(map(V.lit, vs)), str(len(vs)))
            else:
                self.line("print(m.count(...%s));" % V.lit(vs), str(len(vs)))
        elif k == 2:
            d = V.DictV([(V.gen_scalar(s), self.value()) for _ in s.many(0, 12, 3)])
            x = self.name("d")
            flat = [y for p in d.items() for y in p]
            self.line("const %s = m.dict(%s);" % (x, ", ".join(map(V.lit, flat))))
            self.line("print([%s, %s.len()]);" % (x, x), Shown([d, len(d.d)]))
            self.dicts.append((x, d))
        elif k == 3:
            v = V.SetV([V.gen_scalar(s) for _ in s.many(0, 12, 3)])
            x = self.name("s")
            self.line("const %s = m.set(%s);" % (x, ", ".join(map(V.lit, v.items()))))
            self.line("print([%s, %s.len()]);" % (x, x), Shown([v, len(v.d)]))
            self.sets.append((x, v))
        elif k == 4:
            x = self.name("l")
            v = [self.value() for _ in s.many(0, 5, 2)]
            self.line("const %s = %s;" % (x, V.lit(v) if s.below(2) else "m.echo(%s)" % ", ".join(map(V.lit, v))))
            self.lists.append((x, v))
        elif k in (5, 6, 7) and self.dicts:
            x, d = s.pick(self.dicts)
            key = s.pick(d.items())[0] if d.d and s.below(2) else V.gen_scalar(s)
            op = s.below(6)
            kk = V.key(key)
            if op == 0:
                v = self.value()
                self.line("print(m.dset(%s, %s, %s));" % (x, V.lit(key), self.arg(v)), V.show(kk not in d.d))
                d.d[kk] = (key, v)
            elif op == 1:
                v = self.value()
                self.line("%s[%s] = %s;" % (x, V.lit(key), self.arg(v)))
                d.d[kk] = (key, v)
            elif op == 2:
                self.line("print(m.ddel(%s, %s));" % (x, V.lit(key)), V.show(kk in d.d))
                d.d.pop(kk, None)
            elif op == 3:
                if kk not in d.d:
                    self.line("print(m.dget(%s, %s).unwrapError());" % (x, V.lit(key)), "no such key")
                else:
                    self.shown("m.dget(%s, %s).unwrap()" % (x, V.lit(key)), d.d[kk][1])
            elif op == 4:
                self.line("print(%s.exists(%s));" % (x, V.lit(key)), V.show(kk in d.d))
            else:
                self.shown(x, d)
                flat = [V.show(y, True) for k2, v2 in d.items() for y in (k2, v2)]
                self.line("print(m.inside(%s).len());" % x, str(len(flat)))
        elif k in (8, 9) and self.sets:
            x, v = s.pick(self.sets)
            key = s.pick(v.items()) if v.d and s.below(2) else V.gen_scalar(s)
            kk = V.key(key)
            op = s.below(6)
            if op <= 1:
                self.line("%s(%s%s);" % (("m.sadd", x + ", ", V.lit(key)) if op else (x + ".add", "", V.lit(key))))
                v.d.setdefault(kk, key)
            elif op == 2:
                self.line("print(m.sdel(%s, %s));" % (x, V.lit(key)), V.show(kk in v.d))
                v.d.pop(kk, None)
            elif op == 3:
                self.line("print([m.sget(%s, %s), %s.contains(%s)]);" % (x, V.lit(key), x, V.lit(key)), V.show([kk in v.d] * 2))
            elif op == 4:
                self.shown(x, v)
            else:
                self.line("print([m.inside(%s).len(), %s.len()]);" % (x, x), V.show([len(v.d)] * 2))
        elif k == 10 and self.lists:
            x, l = s.pick(self.lists)
            for _ in s.many(1, 12, 3):
                v = self.value()
                self.line(("m.ladd(%s, %s);" if s.below(3) else "%s.push(%s);") % (x, self.arg(v)))
                l.append(v)
            self.shown("m.inside(%s)" % x if s.below(2) else x, list(l))
        elif k == 11:
            v = self.value()
            while isinstance(v, (V.DictV, V.SetV)) or "{" in V.lit(v) or "set(" in V.lit(v):
                v = V.gen_scalar(s)
            # a list's text and a string's text, as toString and format have them
            self.line("print(m.str(%s));" % self.arg(v), V.show(v))
        elif k == 12:
            v = self.value()
            self.line("print([m.typ(%s), m.kind(%s)]);" % (self.arg(v), V.lit(v)), V.show([V.typ(v)] * 2))
        elif k == 13:
            src, t = s.pick([("print", "native"), ("def () => 1", "function"), ("Cl", "class"), ("Cl()", "Cl"), ("En", "enum"), ("Math", "module"), ("Cl().me", "method"),
                             ("m", "abstract"), ("Success(1)", "result"), ("m.ok(1)", "result"), ("En.B", "number")])
            self.line("print(m.kind(%s));" % src, "instance" if t == "Cl" else t)
            self.line("print(m.typ(%s) == type(%s));" % (src, src), "true")
        elif k == 14:
            a, b = self.value(), self.value()
            if not s.below(2):
                b = a
            self.line("print(m.eq(%s, %s));" % (self.arg(a), self.arg(b)), V.show(V.eq(a, b)))
        elif k == 15:
            a = self.value() if s.below(3) else s.pick([None, False, 0, "", [], V.DictV(), V.SetV(), -0.0])
            self.line("print(m.falsey(%s));" % self.arg(a), V.show(not V.truthy(a)))
        elif k == 16:
            a, b = V.gen_str(s), V.gen_str(s)
            # the arguments arrive as from the stack: the last operand first
            x, y = a.encode(), b.encode()
            self.line("print([m.less(%s, %s), m.greater(%s, %s)]);" % (V.lit(a), V.lit(b), V.lit(a), V.lit(b)), V.show([y < x, y > x]))
        elif k == 17:
            v = self.value()
            op = s.below(4)
            if op == 0:
                self.shown("m.ok(%s).unwrap()" % self.arg(v), v)
            elif op == 1:
                t = V.gen_str(s)
                self.line("print([m.err(%s).success(), m.err(%s).unwrapError()]);" % (V.lit(t), V.lit(t)), V.show([False, t]))
            elif op == 2:
                good = bool(s.below(2))
                self.shown("m.inside(m.res(%s, %s))" % (V.show(good), self.arg(v)), [good, v])
            else:
                self.shown("m.inside(Success(%s))" % self.arg(v), [True, v])
        elif k == 18:
            vs = [self.value() for _ in s.many(0, 5, 2)]
            if any("{" in V.lit(v) or "set(" in V.lit(v) for v in vs):
                vs = [V.gen_scalar(s) for _ in vs]
            self.line("m.pr(%s);" % ", ".join(map(V.lit, vs)), *[y for v in vs for y in V.show(v).split("\n")])
        elif k == 19:
            vs = [self.value() for _ in s.many(0, 6, 3)]
            self.shown("m.stack(%s)" % ", ".join(map(V.lit, vs)), vs[::-1] * 2)
        elif k == 20:
            ns = [s.int(-50, 50) for _ in s.many(0, 20, 6)]
            self.line("print(m.sum(%s));" % ", ".join(map(V.lit, ns + ([None] if s.below(2) else []))), str(sum(ns)))
            ms = [s.pick([0, 1, 7, 8, 100, 5000, 70000]) for _ in s.many(0, 6, 3)]
            self.line("print(m.mem(%s));" % ", ".join(map(str, ms)), "true")
        elif k == 21:
            t = V.gen_str(s) + V.gen_str(s)
            b = t.encode()
            if not t.isascii():
                self.shown("m.inside(%s)" % V.lit(t), list(b))
                return
            i = s.int(0, len(b))
            j = s.int(i, len(b))
            self.line("print([m.sub(%s, %d, %d), m.sub(%s, %d, %d) == %s]);" % (V.lit(t), i, j - i, V.lit(t), i, j - i, V.lit(t[i:j])), V.show([t[i:j], True]))
        elif k == 22:
            if self.counters and s.below(3):
                c = s.pick(self.counters)
                if s.below(3):
                    n = s.int(-9, 9)
                    c[1] += n
                    self.line("print(%s.add(%d));" % (c[0], n), str(c[1]))
                else:
                    self.line("print([%s, %s.get(), %s.start]);" % ((c[0],) * 3), "[<Counter %d>, %d, %d]" % (c[1], c[1], c[2]))
            else:
                x, n = self.name("c"), s.int(-5, 5)
                self.line("const %s = m.counter(%d);" % (x, n))
                self.counters.append([x, n, n])
                self.alive += 1
        elif k == 23:
            self.line(s.pick(["System.collect();", "for (var i = 0; i < 40; i += 1) { m.echo(i, [i], m.counter(i)); }", "print([m.answer, m.name, m.yes, m.none]);",
                              "const %s = []; for (var i = 0; i < 300; i += 1) %s.push(m.echo(i));"]).replace("%s", "g%d" % len(self.src)))
            if self.src[-1].startswith("print"):
                self.items.append('[42.5, "mod", true, nil]')
            if s.below(2):
                # what is no longer reachable is freed by its own function, what is reachable is not
                self.line("System.collect(); print(m.living());", str(self.alive))

    def fail(self):
        """A runtime error from native code, at a depth; nothing after it runs."""
        s = self.s
        t = "bad " + s.pick(["x", "y%d", "%s", ""])
        call = "m.fail(%s)" % V.lit(t)
        depth = s.int(0, 3)
        if depth == 0:
            self.line(call + ";")
        else:
            self.line("def f0(a) { const keep = [a]; const r = %s; print(keep); return r; }" % call)
            for i in range(1, depth):
                self.line("def f%d(a) { return f%d(a); }" % (i, i - 1))
            self.line("f%d(1);" % (depth - 1))
        self.failed = ("failed with 1: " + t, ["f%d" % i for i in range(depth)])
        self.src.append('print("not reached");')


def gen_calls(s):
    p = Native(s)
    for _ in s.many(1, 25, 10):
        p.step()
    if not s.below(6):
        p.fail()
    return s.pick(["mod", "mod", "mod", "old"]), p, s.pick(["asan", "asan", "asan", "stress"])


PRE = "import FFI; import System; import Math;\nclass Cl { me() {} }\nenum En { A, B }\n"


def check_calls(case, ctx):
    lib, p, variant = case
    # a chunk holds at most 256 constants: the calls stand in functions of a few steps sharing module variables
    src = PRE + "const m = FFI.load(%s);\n" % V.qlit(LIBS[lib]) + "\n".join(p.src) + "\n"
    if len(p.src) > 90:
        raise Discard()
    r = ctx.run(src, variant)
    if r.exit == 65 and b"constants" in r.err:
        raise Discard()
    calls = sum(l.count("m.") for l in p.src)
    if calls >= 3:
        ctx.nontrivial(src)
    ctx.label("module " + lib)
    if p.failed:
        ctx.expect_items(src, p.items, 70, variant)
        msg, fns = p.failed
        err = r.err.decode("utf-8", "replace")
        if msg not in err:
            ctx.fail("message", "the native error's text %r is not reported: %r" % (msg, err[:300]))
        from .R02 import frames
        got = [f for f, _, _ in frames(r.err) if f]
        if got != fns:
            ctx.fail("frames", "the native error is reported inside %r, expected inside %r" % (got, fns))
        ctx.label("native error at depth %d" % len(fns))
    else:
        ctx.expect_items(src, p.items, 0, variant)


# -- files handed over by native code ---------------------------------------
def gen_files(s):
    lines = [s.text("abc xyz", 0, 8, 3) for _ in s.many(0, 5, 2)]
    return lines, s.below(3)


def check_files(case, ctx):
    lines, way = case
    text = "".join(l + "\n" for l in lines)
    src = PRE + "const m = FFI.load(%s);\nconst f = m.openFile(\"f\", \"r\");\nconst o = m.openFile(\"o\", \"w\");\n" % V.qlit(LIBS["mod"])
    items = []
    if way == 0:
        src += "print([f.read()]);\n"
        items += ('["%s"]' % text).split("\n")
    elif way == 1:
        for l in lines:
            src += "print(f.readLine());\n"
            items.append(l)
        src += "print(f.readLine());\n"
        items.append("nil")
    else:
        src += "print(type(f)); System.collect();\n"
        items.append("file")
    for l in lines:
        src += "o.writeLine(%s);\n" % V.qlit(l)
    src += "m.closeFile(f); m.closeFile(o);\n"
    if lines:
        ctx.nontrivial(src)
    r = ctx.run(src, tree={"f": text.encode(), "o": b""})
    ctx.alive(r)
    m = core.match_output(r.out.decode().split("\n")[:-1], items)
    if m:
        ctx.fail("output", m + " stderr %r" % r.err[-200:])
    ctx.status(r)
    if r.tree[b"o" if b"o" in r.tree else "o"] not in (text.encode(),) and text.encode() not in (r.tree.get("o"), r.tree.get(b"o")):
        ctx.fail("file", "the file written through the native handle holds %r, expected %r" % (r.tree.get("o"), text))


# -- loading -----------------------------------------------------------------
def gen_load(s):
    steps = []
    for _ in s.many(1, 6, 3):
        steps.append(s.pick(["mod", "mod", "old", "init1", "init5", "noinit", "newer", "missing", "text", "empty", "number", "nil", "none", "two", "list", "collect", "suffix"]))
    return steps, s.below(2)


def check_load(case, ctx):
    steps, repl = case
    loaded = set()
    tree_missing = os.path.join(os.path.dirname(LIBS["mod"]), "no-such.so")
    prog, bad = [], 0
    for i, st in enumerate(steps):
        if st == "collect":
            prog.append(("System.collect();", None, None))
            continue
        if st == "suffix":
            prog.append(('print("x{}".format(FFI.suffix));', ["x.so"], None))
            continue
        if st in ("mod", "old"):
            if st in loaded:
                prog.append(("FFI.load(%s);" % V.qlit(LIBS[st]), None, "already initialized"))
            else:
                loaded.add(st)
                prog.append(("const k%d = FFI.load(%s); print([k%d.count(1, 2), k%d, k%d.answer]);" % (i, V.qlit(LIBS[st]), i, i, i), ["[2, <FFIInstance>, 42.5]"], None))
            continue
        err = {"init1": "error code: 1", "init5": "error code: 5", "noinit": "Couldn't initialize ffi api", "newer": "newer", "missing": "Couldn't load shared object",
               "text": "Couldn't load shared object", "empty": None, "number": "must be a string", "nil": "must be a string", "list": "must be a string", "none": "0 given", "two": "2 given"}[st]
        arg = {"missing": V.qlit(tree_missing), "text": V.qlit(os.path.join(FFI, "mod.c")), "empty": V.qlit("./"), "number": "5", "nil": "nil", "list": '["a"]', "none": "", "two": '"a", "b"'}.get(st)
        prog.append(("FFI.load(%s);" % (V.qlit(LIBS[st]) if arg is None else arg), None, err or "Couldn't"))
    n_err = sum(1 for _, _, e in prog if e)
    if n_err:
        ctx.nontrivial(repr(case))
    for st in steps:
        ctx.label(st)
    if repl:
        lines = [("import FFI;", [], None), ("import System;", [], None)]
        # a REPL line shows nothing of its value here: only the error count and the lines after it are compared
        r = ctx.repl([(a, b, bool(c)) for a, b, c in lines] + [(l, it if it is not None else None, bool(e)) for l, it, e in prog] + [("print(6 * 7);", ["42"], False)])
        texts = r.err.decode("utf-8", "replace")
        at = 0
        for l, it, e in prog:
            if e:
                j = texts.find(e, at)
                if j < 0:
                    ctx.fail("message", "%s should report %r; stderr %r" % (l, e, texts[:600]))
                at = j
    else:
        src = "import FFI;\nimport System;\n" + "\n".join(l for l, _, _ in prog) + "\nprint(42);\n"
        items, end = [], None
        for l, it, e in prog:
            if e:
                end = e
                break
            items += it or []
        if end is None:
            items.append("42")
        r = ctx.expect_items(src, items, 70 if end else 0)
        if end and end not in r.err.decode("utf-8", "replace"):
            ctx.fail("message", "the failing load should report %r; stderr %r" % (end, r.err[:300]))


def parts():
    return [Part("calls", gen_calls, check_calls, 5000), Part("files", gen_files, check_files, 300), Part("load", gen_load, check_load, 1500)]
