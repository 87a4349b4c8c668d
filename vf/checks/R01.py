"""Any text: mutated, random and oversized programs are run or rejected cleanly; plus a coverage-guided compiler fuzzer."""
import glob, os, re
from ..core import Part
from .. import build, fuzz, vals as V

TECHNIQUE = ("grammar-, token- and byte-level mutation fuzzing of programs under ASan/UBSan with a clean-outcome oracle, size-limit families "
             "with a computed answer, and a coverage-guided libFuzzer target of the compiler")
RULE = ("(mutated) a file of the repository's tests and examples with 1-12 byte or token edits, splices of two files, random token "
        "sequences and random bytes, after a first statement that stops execution, so only compiling is exercised; the outcome must "
        "be 'compiled' or a compile error with a line inside the text and no output; (sizes) 40 families of valid programs with n of "
        "one construct, whose answer is known: the answer, or beyond the documented limits a compile error; (fuzz) libFuzzer over "
        "the compiler, seeded with the repository's programs; non-trivial = an edited program of at least 40 bytes, or n > 100")

HEAD = b'print("S"); neverDefined();\n'
KW = ("and or not if else while for in return break continue switch case default class abstract trait use static var const def "
      "private super this true false nil import from as with enum instanceof end init print").split()
OPS = ("+ - * / % ** == != < > <= >= = += -= *= /= &= |= ^= & | ^ ! && || ? : ; , . ?. ( ) [ ] { } => ... @ # ' \" // /* */ \\ $ ~ ` "
       "0 1 10 1.5 1e5 0x1F 0x 1_000 1. .5 1e a b _x foo \"s\" 's' r\"x\" \"\\x41\" \"\\n\" \"").split()
VOC = [x.encode() for x in KW + OPS]
TOK = re.compile(rb"[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9_.xXa-fA-F]*|\"(?:[^\"\\\n]|\\.)*\"|'(?:[^'\\\n]|\\.)*'|//[^\n]*|/\*.*?\*/|\s+|[=!<>]=|\*\*|\?\.|=>|[-+*/&|^]=|\.\.\.|.", re.S)

_corpus = []


def corpus():
    if not _corpus:
        for pat in ("tests/**/*.du", "examples/**/*.du"):
            for f in sorted(glob.glob(os.path.join(build.REPO if os.path.isdir(build.REPO + "/tests") else "/repo", pat), recursive=True)):
                with open(f, "rb") as fh:
                    b = fh.read()
                if 20 < len(b) < 20000:
                    _corpus.append(b)
        _corpus.append(b"class A { init(var a, b=1) { this.b = b; } m(...x) { return x; } }\nA(1).m(1, 2);\n")
    return _corpus


def piece(s):
    t = s.pick(corpus())
    lines = t.split(b"\n")
    n = s.pick([5, 15, 40, 120])
    i = s.int(0, max(0, len(lines) - n))
    return b"\n".join(lines[i:i + n]) if s.below(4) else t[:6000]


def gen_tokmut(s):
    toks = TOK.findall(piece(s))
    if s.below(4) == 0:
        o = TOK.findall(piece(s))
        i, j = s.int(0, len(toks)), s.int(0, len(o))
        toks = toks[:i] + o[j:]
    for _ in range(s.int(1, 12)):
        if not toks:
            break
        i = s.below(len(toks))
        k = s.below(7)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, s.pick(VOC))
        elif k == 2:
            toks[i] = s.pick(VOC)
        elif k == 3:
            j = s.below(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            toks.insert(i, toks[s.below(len(toks))])
        elif k == 5:
            j = min(len(toks), i + s.int(1, 30))
            toks[i:i] = toks[i:j] if s.below(2) else []
            if s.below(2):
                del toks[i:j]
        else:
            toks = toks[:i]
    return b"".join(toks)


def gen_bytemut(s):
    t = bytearray(piece(s))
    for _ in range(s.int(1, 12)):
        i = s.int(0, len(t))
        k = s.below(6)
        if k == 0:
            t[i:i + s.int(1, 5)] = b""
        elif k == 1:
            t[i:i] = bytes([s.int(1, 255)])
        elif k == 2 and i < len(t):
            t[i] = s.int(1, 255)
        elif k == 3 and i < len(t):
            t[i] ^= 1 << s.below(8)
            t[i] = t[i] or 32
        elif k == 4:
            del t[i:]
        else:
            t[i:i] = s.pick([b"\"", b"'", b"/*", b"//", b"\\", b"\\x", b"{", b"}", b"(", b"0x", b"1e", b"...", b"?.", b"r\"", b"\xff", b"\xc3", b"\0"])
    return bytes(t)


def gen_tokens(s):
    out = []
    names = [b"a", b"b", b"C", b"f", b"this", b"super"]
    for _ in s.many(3, 80, 25):
        k = s.below(10)
        out.append(s.pick(VOC) if k < 6 else s.pick(names) if k < 8 else s.pick(
            [b"class C {", b"def f(", b"if (", b"for (var i = 0;", b"switch (a) { case 1: {", b"[1, 2", b"{\"a\": 1", b"var a =", b"const b =",
             b"from X import", b"import \"x\" as", b"@A(1)", b"with (\"f\", \"r\") {", b"enum E { A,", b"trait T {", b"use T;", b"a[1:", b"=> {", b"}", b")", b"]", b";"]))
        out.append(s.pick([b" ", b"", b"\n", b" ", b" "]))
    return b"".join(out)


def gen_bytes(s):
    k = s.below(3)
    n = s.weighted([(5, 20), (3, 100), (1, 800)])
    if k == 0:
        return bytes(s.int(1, 255) for _ in range(s.int(1, n)))
    a = s.pick([b"\"'\\x \n", b"/*/ \n", b"0123456789xXeE._-+", b"(){}[];", b"aeiou_ =.;@", b"?.:=!<>&|^~%"])
    return bytes(s.pick(a) for _ in range(s.int(1, n)))


ERR = re.compile(rb"File '[^']*main\.du', (?:\x1b\[\d*m)*line (\d+)")


def clean(text, ctx, r):
    """Only two outcomes are clean."""
    ctx.alive(r)
    lines = text.count(b"\n") + 1
    if r.exit == 65:
        ctx.label("rejected")
        if r.out:
            ctx.fail("effects", "rejected, but printed %r" % r.out[:200])
        m = ERR.search(r.err)
        if not m:
            ctx.fail("report", "rejected without file and line: %r" % r.err[:300])
        for n in ERR.findall(r.err):
            if not 1 <= int(n) <= lines:
                ctx.fail("report", "reported line %d of a text of %d lines: %r" % (int(n), lines, r.err[:300]))
    elif r.exit == 70:
        ctx.label("compiled")
        if r.out != b"S\n" or b"Undefined variable 'neverDefined'" not in r.err:
            ctx.fail("run", "printed %r, %r" % (r.out[:200], r.err[:200]))
    else:
        ctx.fail("exit", "exit status %s, stdout %r, stderr %r" % (r.exit, r.out[:200], r.err[:300]))


def check_text(t, ctx):
    if len(t) >= 40:
        ctx.nontrivial(t)
    if b"\0" in t:          # no text file
        r = ctx.run(HEAD + t, cpu=4)
        ctx.alive(r)
        if r.exit != 65 or r.out or b"main.du" not in r.err:
            ctx.fail("nul", "a source with a NUL character: exit %s, printed %r, %r" % (r.exit, r.out[:100], r.err[:200]))
        ctx.label("NUL")
        return
    clean(HEAD + t, ctx, ctx.run(HEAD + t, cpu=4))


# -- sizes ------------------------------------------------------------------
def fams():
    F = {}

    def fam(name, must, top, edges=()):
        def d(f):
            F[name] = (must, top, list(edges), f)
            return f
        return d
    J = ", ".join
    R = range

    @fam("constants", 200, 400, (250, 253, 254, 255, 256, 257))
    def _(n): return "var x = 0;\n" + "".join("x += %d;\n" % (1000 + i) for i in R(n)) + "print(x);", [sum(1000 + i for i in R(n))]

    @fam("locals", 100, 300, (253, 254, 255, 256, 257))
    def _(n): return "def f(){\n" + "".join("var l%d = 1;\n" % i for i in R(n)) + "return " + (" + ".join("l%d" % i for i in R(n)) or "0") + ";\n} print(f());", [n]

    @fam("block locals", 100, 300, (253, 254, 255, 256, 257))
    def _(n): return "{\n" + "".join("var l%d = %d;\n" % (i, i % 7) for i in R(n)) + "print(l%d); print(l0); }" % (n - 1), [(n - 1) % 7, 0]

    @fam("globals", 100, 300, (253, 254, 255, 256))
    def _(n): return "".join("var g%d = 1;\n" % i for i in R(n)) + "print(g%d);" % (n - 1), [1]

    @fam("params", 60, 300, (126, 127, 128, 253, 254, 255, 256))
    def _(n): return "def f(%s) { return p%d; } print(f(%s));" % (J("p%d" % i for i in R(n)), n - 1, J("1" for i in R(n - 1)) + (", " if n > 1 else "") + "2"), [2]

    @fam("default params", 60, 300, (254, 255, 256))
    def _(n): return "def f(%s) { return p%d; } print(f());" % (J("p%d=3" % i for i in R(n)), n - 1), [3]

    @fam("constructor params", 40, 300, (254, 255, 256))
    def _(n): return "class A { init(%s) {} } print(A(%s).p%d);" % (J("var p%d" % i for i in R(n)), J("5" for i in R(n)), n - 1), [5]

    @fam("variadic", 200, 400, (254, 255, 256))
    def _(n): return "def f(...a) { return a.len(); } print(f(%s));" % J("1" for i in R(n)), [n]

    @fam("native args", 200, 300, (254, 255, 256))
    def _(n): return "print(set(%s).len());" % J(str(i % 3) for i in R(n)), [min(n, 3)]

    @fam("spread", 2000, 12000)
    def _(n): return "def f(...a) { return a.len(); } const l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } print(f(...l));" % n, [n]

    @fam("list", 200, 600, (254, 255, 256, 257))
    def _(n): return "print([%s].len());" % J(str(i % 2) for i in R(n)), [n]

    @fam("list of calls", 200, 600, (254, 255, 256))
    def _(n): return "def f() { return [1]; } print([%s].len());" % J("f()" for i in R(n)), [n]

    @fam("dict", 100, 300, (127, 128, 253, 254, 255, 256))
    def _(n): return "print({%s}.len());" % J("%d: 1" % i for i in R(n)), [n]

    @fam("dict same key", 100, 600, (254, 255, 256, 257))
    def _(n): return "print({%s}.len());" % J("1: 2" for i in R(n)), [1]

    @fam("upvalues", 60, 280, (253, 254, 255, 256))
    def _(n): return ("def o(){\n" + "".join("var l%d = 1;\n" % i for i in R(n)) + "def m() { def i() { return %s; } return i; } return m; } print(o()()());"
                      % " + ".join("l%d" % i for i in R(n))), [n]

    @fam("cases", 100, 300, (254, 255, 256, 257))
    def _(n): return "def f(x) { switch (x) {\n" + "".join("case x - %d: { return 'c'; }\n" % (i % 5 + 1) for i in R(n)) + "default: { return 'd'; } } } print(f(9));", ["d"]

    @fam("case values", 200, 300, (254, 255, 256, 257, 258))
    def _(n): return "switch (7) { case %s: { print('hit'); } default: { print('miss'); } }" % J(["1"] * (n - 1) + ["7"]), ["hit"]

    @fam("unpack", 60, 300, (254, 255, 256))
    def _(n): return "{ var [%s] = [%s]; print(v%d); }" % (J("v%d" % i for i in R(n)), J(["1"] * (n - 1) + ["4"]), n - 1), [4]

    @fam("if body", 3000, 30000, (8190, 8191, 8192, 8193, 9361, 9362, 10922, 10923, 13107, 16383, 16384))
    def _(n): return "def f(c) { var x = 0; var o = 1; if (c) {\n" + "x += o;" * n + "} else { x = -5; } return x; } print(f(true)); print(f(false));", [n, -5]

    @fam("while body", 3000, 30000, (8190, 8191, 8192, 9361, 9362, 10922, 10923, 13106, 13107, 16383, 16384))
    def _(n): return "def f() { var x = 0; var o = 1; var k = 2; while (k > 0) {\n k -= 1;" + "x += o;" * n + "} return x; } print(f());", [2 * n]

    @fam("for body", 3000, 30000, (8190, 8191, 8192, 9361, 9362, 10922, 10923, 13106, 13107, 16383))
    def _(n): return "def f() { var x = 0; var o = 1; for (var k = 0; k < 2; k += 1) {\n if (k > 5) { break; }" + "x += o;" * n + " continue; } return x; } print(f());", [2 * n]

    @fam("case body", 3000, 20000, (8191, 8192, 9361, 9362, 10922, 10923, 13107))
    def _(n): return "def f(c) { var x = 0; var o = 1; switch (c) { case 1: {\n" + "x += o;" * n + "} case 2: { x = -2; } default: { x = -3; } } return x; } print(f(1)); print(f(2)); print(f(3));", [n, -2, -3]

    @fam("and operand", 3000, 30000, (16382, 16383, 16384, 21844, 21845))
    def _(n): return "def f(c, a) { return c and (a" + " + a" * n + "); } print(f(true, 1)); print(f(false, 1));", [n + 1, "false"]

    @fam("or operand", 3000, 30000, (16382, 16383, 16384, 21844, 21845))
    def _(n): return "def f(c, a) { return c or (a" + " + a" * n + "); } print(f(false, 1)); print(f(true, 1));", [n + 1, "true"]

    @fam("ternary operand", 3000, 30000, (16382, 16383, 16384, 21844, 21845))
    def _(n): return "def f(c, a) { return c ? a" + " + a" * n + " : a - a; } print(f(true, 1)); print(f(false, 1));", [n + 1, 0]

    @fam("function body", 5000, 40000)
    def _(n): return "def f() { var x = 0; var o = 1;\n" + "x += o;\n" * n + "return x; } print(f());", [n]

    @fam("parens", 300, 6000, (1990, 1999, 2000))
    def _(n): return "print(%s7%s);" % ("(" * n, ")" * n), [7]

    @fam("lists nested", 300, 6000)
    def _(n): return "var x = %s1%s; var d = 0; while (type(x) == 'list') { x = x[0]; d += 1; } print(d);" % ("[" * n, "]" * n), [n]

    @fam("dicts nested", 200, 6000)
    def _(n): return "var x = %s1%s; var d = 0; while (type(x) == 'dict') { x = x[1]; d += 1; } print(d);" % ("{1: " * n, "}" * n), [n]

    @fam("blocks nested", 300, 6000)
    def _(n): return "%s print(1); %s print(2);" % ("{" * n, "}" * n), [1, 2]

    @fam("ifs nested", 300, 6000)
    def _(n): return "var t = true; %s print(1); %s print(2);" % ("if (t) {" * n, "}" * n), [1, 2]

    @fam("loops nested", 60, 400)
    def _(n): return "def f() { var c = 0; %s c += 1; %s return c; } print(f());" % ("".join("for (var i%d = 0; i%d < 1; i%d += 1) {" % (i, i, i) for i in R(n)), "}" * n), [1]

    @fam("else if chain", 100, 2000)
    def _(n): return "def f(x) { " + "else ".join("if (x == 1) { return 1; } " for i in R(n)) + "return 0; } print(f(5));", [0]

    @fam("functions nested", 60, 400, (99, 100, 101))
    def _(n): return "%s return 3; %s print(f%s);" % ("def f() {" * n, "} return f; " * (n - 1) + "}", "()" * n), [3]

    @fam("arrows nested", 60, 400, (99, 100, 101))
    def _(n): return "const f = %s3; print(f%s);" % ("def() => " * n, "()" * n), [3]

    @fam("calls nested", 200, 6000)
    def _(n): return "def f(x) { return x + 1; } print(%s0%s);" % ("f(" * n, ")" * n), [n]

    @fam("args nested", 100, 6000)
    def _(n): return "def f(a, b) { return a + b; } print(%s0%s);" % ("f(1, " * n, ")" * n), [n]

    @fam("call chain", 1000, 8000)
    def _(n): return "def f() { return f; } print(type(f%s));" % ("()" * n), ["function"]

    @fam("nots", 300, 6000)
    def _(n): return "const t = true; print(%st);" % ("not " * n), ["false" if n % 2 else "true"]

    @fam("minuses", 300, 6000)
    def _(n): return "const t = 3; print(%st);" % ("- " * n), [-3 if n % 2 else 3]

    @fam("sum", 3000, 30000)
    def _(n): return "const t = 1; print(t%s);" % (" + t" * n), [n + 1]

    @fam("power", 200, 6000)
    def _(n): return "const t = 1; print(t%s);" % (" ** t" * n), [1]

    @fam("ternaries", 100, 3000)
    def _(n): return "const t = false; print(%s2);" % ("t ? 1 : " * n), [2]

    @fam("subscripts", 1000, 8000)
    def _(n): return "const l = []; const i = 0; l.push(l); print(type(l%s));" % ("[i]" * n), ["list"]

    @fam("attributes", 1000, 8000)
    def _(n): return "class A {} const a = A(); a.x = a; a.v = 4; print(a%s.v);" % (".x" * n), [4]

    @fam("methods", 60, 300, (120, 250, 256))
    def _(n): return "class A {\n" + "".join("m%d() { return %d; }\n" % (i, i % 9) for i in R(n)) + "} print(A().m%d());" % (n - 1), [(n - 1) % 9]

    @fam("class variables", 60, 300, (120, 250, 256))
    def _(n): return "class A {\n" + "".join("var v%d = %d;\n" % (i, i % 9) for i in R(n)) + "} print(A.v%d);" % (n - 1), [(n - 1) % 9]

    @fam("enum", 60, 300, (120, 250, 256))
    def _(n): return "enum E {\n" + J("V%d" % i for i in R(n)) + "} print(E.V%d);" % (n - 1), [n - 1]

    @fam("breaks", 200, 3000, (255, 256, 257))
    def _(n): return "def f() { var x = 0; while (true) { x += 1;" + "if (x == 0) { break; }" * n + " if (x == 3) { break; } } return x; } print(f());", [3]

    @fam("continues", 200, 2000, (255, 256, 257))
    def _(n): return "def f() { var x = 0; for (var i = 0; i < 3; i += 1) { " + "if (x == -1) { continue; }" * n + " x += 1; } return x; } print(f());", [3]

    @fam("withs", 3, 60)
    def _(n): return 'import System; %s print(1); %s print(2);' % ('with("w.txt", "w") {' * n, "}" * n), [1, 2]

    @fam("name", 5000, 100000)
    def _(n): return "var %s = 8; print(%s);" % ("n" * n, "n" * n), [8]

    @fam("string", 5000, 200000)
    def _(n): return "print('%s'.len());" % ("s" * n), [n]

    @fam("escapes", 3000, 50000)
    def _(n): return "print('%s'.len());" % ("\\x41\\n" * n), [2 * n]

    @fam("comment", 5000, 200000)
    def _(n): return "/*%s*/ print(1); // %s" % ("* " * n, "x" * n), [1]

    @fam("lines", 5000, 100000)
    def _(n): return "\n" * n + "print(1);" + "\n" * n, [1]

    @fam("number", 100, 600, (255, 256, 257, 308, 309, 310))
    def _(n): return "print(%s == %s); print(0.%s1 < 1);" % ("1" * n, "1" * n, "0" * n), ["true", "true"]

    @fam("statements", 3000, 50000)
    def _(n): return "var x = 0; var o = 1;\n" + "x += o;\n" * n + "print(x);", [n]

    @fam("functions", 80, 300, (125, 250, 256))
    def _(n): return "".join("def f%d() { return %d; }\n" % (i, i % 9) for i in R(n)) + "print(f%d());" % (n - 1), [(n - 1) % 9]

    @fam("annotations", 40, 300, (120, 250, 256))
    def _(n): return "".join("@A%d(%d)\n" % (i, i % 9) for i in R(n)) + "class C {} print(C.classAnnotations.len());", [n]

    @fam("imports", 3, 400)
    def _(n): return "import Math;\n" * n + "print(Math.abs(-3));", [3]

    @fam("from import", 2, 300, (254, 255, 256))
    def _(n): return "def f() { from Math import %s; return abs(-2); } print(f());" % J(["abs"] if n < 2 else ["abs"] + ["m" for _ in R(0)]), [2]

    @fam("string concatenation", 100, 2000)
    def _(n): return "const a = 'x'; print((%s).len());" % " + ".join(["a"] * n), [n]

    @fam("compound chain", 50, 2000)
    def _(n): return "const d = {'k': [0]}; " + "d['k'][0] += 1;" * n + " print(d['k'][0]);", [n]
    return F


FAMS = fams()
NAMES = sorted(FAMS)


def gen_size(s):
    name = s.pick(NAMES)
    must, top, edges, f = FAMS[name]
    k = s.below(4)
    if k == 0 and edges:
        n = s.pick(edges)
    elif k == 1:
        n = s.int(1, must)
    elif k == 2 and edges:
        n = s.int(max(1, edges[0] - 8), edges[-1] + 8)
    else:
        n = s.int(max(1, must), top)
    return name, n


def check_size(case, ctx):
    name, n = case
    must, top, edges, f = FAMS[name]
    if n > 100:
        ctx.nontrivial((name, n))
    src, want = f(n)
    r = ctx.run(src + "\n", cpu=10)
    ctx.alive(r)
    out = "".join("%s\n" % x for x in want).encode()
    if r.exit == 0:
        ctx.label("accepted")
        if r.out != out:
            ctx.fail("size", "%d x %s printed %r, expected %r" % (n, name, r.out[:100], out[:100]))
    elif r.exit == 65:
        ctx.label("over the limit")
        if n <= must:
            ctx.fail("limit", "a program with %d x %s was rejected: %r" % (n, name, r.err[-200:]))
        if r.out:
            ctx.fail("effects", "rejected, but printed %r" % r.out[:100])
    elif r.exit == 70 and name in ("spread", "calls nested", "args nested") and n > must and b"overflow" in r.err.lower():
        ctx.label("runtime limit")
    else:
        ctx.fail("size", "%d x %s: exit %s, %r" % (n, name, r.exit, r.err[-300:]))


def parts():
    return [Part("tokens edited", gen_tokmut, check_text, 4000), Part("bytes edited", gen_bytemut, check_text, 4000),
            Part("token sequences", gen_tokens, check_text, 3000), Part("bytes", gen_bytes, check_text, 1500),
            Part("sizes", gen_size, check_size, 1500)]


def custom(tier, seed, ctx):
    """The libFuzzer campaign; every input it reports is confirmed through the ordinary interpreter."""
    crashes, cov = fuzz.campaign("compile", corpus(), seed, 12 if tier == "quick" else 1500)
    viol = []
    for data in crashes:
        t = data.split(b"\0")[0]
        for head in (HEAD, b""):
            r = ctx.run(head + t, cpu=6)
            if r.crashed:
                viol.append(("fuzz", dict(message="the compiler fails on a fuzzed text: " + r.describe(), part="fuzz",
                                          runs=[dict(source=(head + t).decode("latin1"))], text=t.decode("latin1"))))
                break
        else:
            cov["unconfirmed crashes"] = cov.get("unconfirmed crashes", 0) + 1
    return viol[:1], cov


def replay_custom(info, ctx):
    if "text" not in info:
        return None
    r = ctx.run(HEAD + info["text"].encode("latin1"), cpu=6)
    return r.describe() if r.crashed else None
