"""The built-in functions: input, print, printError, assert, isDefined and type."""
from .. import vals as V
from ..core import Part

VARIANTS = ["asan"]
TECHNIQUE = ("model-based property testing of generated programs that read standard input, write both streams, assert and ask about names, "
             "against a Python model of each built-in, with shrinking")
RULE = ("(input) 1-12 calls with and without prompt over 0-12 lines of 0-70000 bytes (around every growth step of the buffer, without NUL, "
        "last line with or without its end), past the end of the input, mixed with printing and collections; (streams) print and printError of 0-4 generated values, "
        "interleaved; (assert) sequences of assertions over values of every type, in functions or not, up to the first false one; (names) definitions of every "
        "kind of global in a program and in a module it imports, locals of the same names, questions asked at every point from both; "
        "non-trivial = at least two lines read / a value on each stream / a false assertion / both answers given")


def line(s):
    k = s.below(6)
    n = s.pick([126, 127, 128, 129, 130, 190, 191, 192, 193, 254, 255, 256, 257, 383, 384, 511, 512, 1023, 1024, 1025, 4096, 70000]) if k == 0 else s.int(0, 12) if k < 4 else s.int(0, 400)
    if s.below(4) == 0:
        return bytes(s.pick([1, 9, 13, 32, 37, 92, 34, 195, 169, 255, 128, 65]) for _ in range(min(n, 200)))
    return (b"abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[s.below(3):][:n]


def gen_input(s):
    lines = [line(s) for _ in s.many(0, 12, 4)]
    data = b"".join(l + b"\n" for l in lines)
    if lines and s.below(3) == 0:
        data = data[:-1]          # the last line is not ended
    src, out, at = [], [], 0
    cur = b""
    i = 0
    for _ in s.many(1, 12, 5):
        k = s.below(8)
        if k == 7:
            src.append(s.pick(["System.collect();", 'print("-");', "for (var i = 0; i < 300; i += 1) keep.push(i.toString());"]))
            if src[-1].startswith("print"):
                cur += b"-\n"
            continue
        prompt = s.pick([None, None, "", "> ", "100%s", "a\\nb"])
        got = lines[at] if at < len(lines) else b""
        at += 1
        call = "input(%s)" % ("" if prompt is None else '"%s"' % prompt)
        if prompt:
            cur += prompt.replace("\\n", "\n").encode()
        x = "l%d" % i
        i += 1
        src.append("const %s = %s; keep.push(%s);" % (x, call, x))
        form = s.below(3)
        if form == 0:
            src.append("print(%s);" % x)
            cur += got + b"\n"
        elif form == 1:
            src.append('print(%s.len(), type(%s));' % (x, x))
            cur += b"%d\nstring\n" % len(got)
        else:
            src.append('print(%s == "" , %s + "|");' % (x, x))
            cur += (b"true" if got == b"" else b"false") + b"\n" + got + b"|\n"
    src.append('print(keep.filter(def (x) => type(x) == "string").len() >= %d);' % i)
    cur += b"true\n"
    body = "const keep = [];\n" + "\n".join(src)
    if s.below(2):
        body = "def main() {\n%s\n}\nmain();" % body
    return body, data, cur, min(at, len(lines))


def check_input(case, ctx):
    body, data, want, read = case
    if read > 1:
        ctx.nontrivial(body + repr(data[:200]))
    r = ctx.run("import System;\n" + body + "\n", stdin=data)
    ctx.alive(r)
    if r.out != want:
        i = next((i for i in range(min(len(want), len(r.out))) if r.out[i] != want[i]), min(len(want), len(r.out)))
        ctx.fail("input", "output differs from the model at byte %d: %r, expected %r (stderr %r)" % (i, r.out[i:i + 80], want[i:i + 80], r.err[-200:]))
    ctx.status(r)


def gen_streams(s):
    calls = []
    for _ in s.many(1, 14, 5):
        # sets and dictionaries with more than one entry print in an order of their own
        vs = []
        for _ in range(s.pick([0, 1, 1, 1, 2, 3, 4])):
            v = V.gen_value(s)
            vs.append(V.gen_scalar(s) if "{" in V.lit(v) or "set(" in V.lit(v) else v)
        calls.append((s.below(2), vs))
    return calls, s.below(3)


def check_streams(case, ctx):
    calls, way = case
    src, outs = [], [b"", b""]
    for err, vs in calls:
        src.append("%s(%s);" % (("print", "printError")[err], ", ".join(map(V.lit, vs))))
        outs[err] += "".join(V.show(v) + "\n" for v in vs).encode("utf-8", "surrogateescape") if vs else b"\n"
    if all(outs):
        ctx.nontrivial("\n".join(src))
    if way == 1:
        src = ["def f() {"] + src + ["}", "f();"]
    elif way == 2:
        src = ["def f(p, e) {"] + [x.replace("printError(", "e(", 1) if x.startswith("printE") else x.replace("print(", "p(", 1) for x in src] + ["}", "f(print, printError);"]
    r = ctx.run("\n".join(src) + "\n")
    ctx.alive(r)
    for got, want, what in ((r.out, outs[0], "standard output"), (r.err, outs[1], "standard error")):
        if got != want:
            ctx.fail("stream", "%s holds %r, expected %r" % (what, got[:400], want[:400]))
    ctx.status(r)


def gen_assert(s):
    return [(V.gen_value(s) if s.below(4) else s.pick([True, False, 0, 1, None, "", [], -1, V.DictV(), V.SetV(), "a", [0]])) for _ in s.many(1, 8, 3)], s.below(3)


def check_assert(case, ctx):
    from .R02 import frames
    vs, way = case
    src, out, failed = [], [], None
    for i, v in enumerate(vs):
        src.append("assert(%s); print(%d);" % (V.lit(v), i))
        if failed is None:
            if V.truthy(v):
                out.append(str(i))
            else:
                failed = i
    if failed is not None:
        ctx.nontrivial("\n".join(src))
    text = "\n".join(src) + '\nprint("end");\n' if way == 0 else "def f() {\n" + "\n".join(src) + '\n}\nf();\nprint("end");\n'
    if failed is None:
        out.append("end")
    r = ctx.expect(text, out, 70 if failed is not None else 0)
    if failed is not None:
        got = [(f, l) for f, l, _ in frames(r.err)]
        n = sum(V.lit(v).count("\n") + 1 for v in vs[:failed]) + 1
        want = [(None, n)] if way == 0 else [("f", n + 1), (None, len("\n".join(src).split("\n")) + 3)]
        if [l for _, l in got] != [l for _, l in want] and "\n" not in "".join(map(V.lit, vs)):
            ctx.fail("line", "the false assertion is reported at %r, expected %r" % (got, want))


# -- isDefined ----------------------------------------------------------------
NAMES = "alpha beta gamma delta Eps Zeta eta".split()
FORMS = ["var %s = 1;", "const %s = nil;", "def %s() {}", "class %s {}", "enum %s { A }", "trait %s {}", "abstract class %s {}", "var [%s, %s_] = [1, 2];", "import Math as %s;", "from Math import floor as %s;"]
ALWAYS = ["print", "printError", "type", "set", "input", "assert", "isDefined", "Success", "Error", "Math", "JSON", "System", "Inspect"]


def gen_names(s):
    steps, mod = [], []
    for where in (mod, steps):
        free = list(NAMES)
        for _ in s.many(1, 10, 5):
            k = s.below(5)
            if k < 2 and free:
                n = free.pop(s.below(len(free)))
                where.append(("def", n, s.below(8)))
            elif k == 4 and where is steps:
                where.append(("local", s.pick(NAMES), s.below(3)))
            else:
                where.append(("ask", s.pick(NAMES + ["", "alph", "alphaa", "m", "has", "x y"] + ALWAYS), s.below(4)))
    return mod, steps


def check_names(case, ctx):
    mod, steps = case
    out, seen = [], set()

    def know(have, n):
        a = n in have or n in ALWAYS
        seen.add(a)
        return V.show(a)

    have = {"has"}
    msrc = ["def has(n) { return isDefined(n); }"]
    for k, n, j in mod:
        if k == "def":
            msrc.append(FORMS[j].replace("%s", n))
            have.add(n)
        else:
            msrc.append('print(%s("%s"));' % (("isDefined", "has")[j % 2], n))
            out.append(know(have, n))
    inmod = have
    src = ['import "m.du" as m;', "def ask(n) { return isDefined(n); }"]
    have = {"m", "ask"}
    for i, (k, n, j) in enumerate(steps):
        if k == "def":
            src.append(FORMS[j].replace("%s", n))
            have.add(n)
        elif k == "local":
            src.append(['{ var %s = 1; print(isDefined("%s")); }', 'def l%d(%%s) { return isDefined("%%s"); } print(l%d(1));' % (i, i),
                        'for (var %s = 0; %s < 1; %s += 1) { print(ask("%s")); }'][j].replace("%s", n))
            have.add("l%d" % i) if j == 1 else None
            out.append(know(have, n))
        elif j == 3:
            src.append('print(m.has("%s"));' % n)
            out.append(know(inmod, n))
        else:
            src.append(['print(isDefined("%s"));', 'print(ask("%s"));', '(def () => { print(isDefined("%s")); })();'][j] % n)
            out.append(know(have, n))
    if len(seen) == 2:
        ctx.nontrivial(repr(case))
    ctx.expect("\n".join(src) + "\n", out, files={"m.du": ("\n".join(msrc) + "\n").encode()})


def parts():
    return [Part("input", gen_input, check_input, 4000), Part("streams", gen_streams, check_streams, 4000), Part("assert", gen_assert, check_assert, 2000), Part("names", gen_names, check_names, 2000)]
