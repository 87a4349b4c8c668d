"""REPL sessions against a model, the same code as a file and with -c, arguments, and exit statuses."""
import re
from ..core import Part, Violation

VARIANTS = ["asan", "stress"]
TECHNIQUE = ("model-based generation of REPL sessions with failing lines in between, a metamorphic file / -c / REPL relation over the same "
             "code, and generated command lines and exit situations with computed outcomes")
RULE = ("(sessions) 8-60 lines (declarations, closures, classes, imports, multi-line input with braces, quotes and comments, literals over several lines, echoed "
        "values, `_`) with compile and runtime errors of 30 kinds in between, each line's output compared with a Python model; (modes) "
        "the lines without errors as one file, through -c and through -c with arguments; (command lines) random argument vectors; "
        "(status) every way to end; non-trivial = a session with at least 3 errors after which closures, objects and variables are used again")

COMPILE = ["1 1;", "print(1;", "[1, 2;", "%s = 5; )", "return 5;", "break;", "continue;", "class { }", "def (x) {}", "1 +;", "import Nonsense;", "this;", "}", ")",
           "var = 1;", "%s = ;", "const %s = ;", "var %s = ;", "{ %s = 99; var = 1; }", "def %s(a { }", "class %s { m( }", "super.m();", "%s += ;", "5 = %s;",
           "if (%s { }", "for (;; { }", "from Math import;", "@", "print(%s); print(%s", "'a' = 'b';", "def q(a, a) {}", "\"\\x\";", "1.2.3;", "enum { }",
           "{ const z = 1; z = 2; }", "def %s() { this.x = 1; }", "var [a, b = [1, 2];", "const %s = 1; 1 1;"]


class St:
    def __init__(self):
        self.v = {}         # name -> int or list
        self.last = None
        self.const = set()
        self.fns = {}       # name -> (kind, data)


def num(s, st):
    """(text, value) of an integer expression"""
    names = [n for n in st.v if isinstance(st.v[n], int)]
    k = s.below(7)
    if k < 3 or not names:
        n = s.int(0, 99)
        return str(n), n
    a = s.pick(names)
    if k == 3:
        return a, st.v[a]
    n = s.int(1, 9)
    if k == 4:
        return "%s + %d" % (a, n), st.v[a] + n
    if k == 5:
        return "(%s - %d)" % (a, n), st.v[a] - n
    b = s.pick(names)
    return "%s + %s" % (a, b), st.v[a] + st.v[b]


def literal(s):
    """(text, value) of a string literal over one or more lines, with what ends lines, literals and blocks elsewhere inside it"""
    q, raw = s.pick("\"'"), s.below(4) == 0
    t = v = ""
    for _ in range(s.int(1, 10)):
        k = s.below(8)
        if k == 0:
            c = x = "\n"
        elif k == 1:
            c = x = "\\\n"                       # no escape sequence: both characters stay
        elif k == 2 and not raw:
            c, x = s.pick([("\\\\", "\\"), ("\\" + q, q), ("\\n", "\n"), ("\\\\\n", "\\\n")])
        elif k == 3:
            c = x = "'" if q == '"' else '"'
        else:
            c = x = s.pick(["{", "}", "//", "/*", "*/", "ab", " ", "#", "{{"])
        t += c
        v += x
    return ("r" if raw else "") + q + t + q, v


def gen_session(s):
    st, steps = St(), []         # step: (repl text, repl output, errors, file text or None, file output)
    errs = used = 0
    cnt = [0]
    noerr = s.below(3) == 0      # such sessions are also run as a file

    def fresh(p):
        cnt[0] += 1
        return "%s%d" % (p, cnt[0])

    def add(text, out, err=0, ftext=None, fout=None):
        if noerr and err != 0:
            return
        steps.append((text, out, err, text if ftext is None and not err else ftext, fout if fout is not None else [] if ftext is None and not err else (fout or [])))

    def val(v):
        st.last = v
        return [v]
    for _ in s.many(8, 60, 24):
        ints = [n for n in st.v if isinstance(st.v[n], int)]
        lists = [n for n in st.v if isinstance(st.v[n], list)]
        k = s.weighted([(4, "var"), (3, "echo"), (3, "print"), (3, "assign"), (3, "compile"), (5, "runtime"), (2, "def"), (4, "callfn"), (1, "last"), (1, "import"),
                        (2, "multi"), (1, "const"), (2, "reconst"), (1, "loop"), (1, "comment")])
        if noerr and k in ("compile", "runtime"):
            continue
        s.label("step:" + k)
        if k == "var":
            if s.below(4) == 0:
                n = fresh("l")
                xs = [s.int(0, 9) for _ in range(s.int(0, 3))]
                st.v[n] = xs
                add("var %s = %s;" % (n, xs), [])
            else:
                n = s.pick(ints) if ints and s.below(4) == 0 else fresh("v")
                t, v = num(s, st)
                st.v[n] = v
                add("var %s = %s;" % (n, t), [])
        elif k == "echo":
            if lists and s.below(3) == 0:
                n = s.pick(lists)
                if s.below(2):
                    x = s.int(0, 9)
                    st.v[n].append(x)
                    add("%s.push(%d);" % (n, x), [], 0)
                else:
                    add("%s;" % n, [str(st.v[n])])
                    st.last = st.v[n]       # the list itself
            elif s.below(5) == 0:
                t = "".join(s.pick("ab {}()#>.") for _ in range(s.int(0, 8)))
                add('"%s";' % t, val(t))
            elif s.below(5) == 0:
                add("nil;", [])
            else:
                t, v = num(s, st)
                add("%s;" % t, val(str(v)))
        elif k == "print":
            t, v = num(s, st)
            u, w = num(s, st)
            if s.below(2):
                add("print(%s); print(%s);" % (t, u), [str(v), str(w)], 0, None, [str(v), str(w)])
            else:
                st.last = str(w)
                add("print(%s); %s;" % (t, u), [str(v), str(w)], 0, None, [str(v)])
        elif k == "assign" and ints:
            n = s.pick([x for x in ints if x not in st.const] or [None])
            if n is None:
                continue
            t, v = num(s, st)
            if s.below(3) == 0:
                st.v[n] += v
                add("%s += %s;" % (n, t), val(str(st.v[n])))
            else:
                st.v[n] = v
                add("%s = %s;" % (n, t), [])         # only other statements' values are echoed
        elif k == "const":
            n = fresh("k")
            t, v = num(s, st)
            st.v[n] = v
            st.const.add(n)
            add("const %s = %s;" % (n, t), [])
            if s.below(2):
                errs += 1
                add("%s = 1;" % n, [], 1)
        elif k == "reconst" and st.const:
            n = s.pick(sorted(st.const))        # still a constant, whatever was rejected since
            errs += 1
            add(s.pick(["%s = 1;", "%s += 1;", "{ %s = 2; }", "def bad() { %s = 3; }"]) % n, [], 1)
            add("%s;" % n, val(str(st.v[n])))
        elif k == "compile":
            n = s.pick(ints + ["zz"])
            t = s.pick(COMPILE)
            errs += 1
            add(t.replace("%s", n), [], None)
        elif k == "def":
            r = s.below(4)
            n = fresh("f")
            nl = s.pick(["\n", " "])
            if r == 0 and ints:
                a, c = s.pick(ints), s.int(1, 50)
                st.fns[n] = ("add", a, c)
                add(nl.join(["def %s() {" % n, "    return %s + %d;" % (a, c), "}"]), [])
            elif r == 1:
                c = s.int(0, 9)
                st.fns[n] = ["count", c]
                add(nl.join(["def mk%s() {" % n, "    var c = %d;" % c, "    return def() => { c += 1; return c; };", "}", "var %s = mk%s();" % (n, n)] if nl == " "
                            else ["def mk%s() { // it's {" % n, "    var c = %d; /* } */" % c, "    return def() => { c += 1; return c; };", "} var %s = mk%s();" % (n, n)]), [])
            elif r == 2:
                c = s.int(0, 9)
                st.fns[n] = ["obj", c]
                add(nl.join(["class C%s {" % n, "    init(var x) {}", "    add(n) { this.x += n; return this.x; }", "} const %s = C%s(%d);" % (n, n, c)]), [])
            else:
                st.fns[n] = ["boom"]
                add("def %s(x) {%sprint(x); nothing; return 1; }" % (n, nl), [])
        elif k == "callfn" and st.fns:
            n = s.pick(sorted(st.fns))
            f = st.fns[n]
            if errs >= 3:
                used += 1
            if f[0] == "add":
                v = str(st.v[f[1]] + f[2])
                add("%s();" % n, val(v))
            elif f[0] == "count":
                f[1] += 1
                add("%s();" % n, val(str(f[1])))
            elif f[0] == "obj":
                x = s.int(0, 9)
                f[1] += x
                add("%s.add(%d);" % (n, x), val(str(f[1])))
            else:
                x = s.int(0, 9)
                errs += 1
                add("%s(%d);" % (n, x), [str(x)], 1)
        elif k == "last":
            if st.last is None:
                errs += 1
                add("print(_);", [], 1)
            elif s.below(2):
                add("print(_);", [str(st.last)], 0, "", [])
            else:
                add("_;", [str(st.last)], 0, "", [])
        elif k == "import":
            r = s.below(6)
            if r == 0:
                add("import Math;", [])
                add("Math.abs(-%d);" % cnt[0], val(str(cnt[0])))
            elif r == 1:
                add("from Math import max; print(max(1, %d));" % (cnt[0] + 1), [str(cnt[0] + 1)], 0, None, [str(cnt[0] + 1)])
            elif r == 2:
                n = fresh("M")
                add('import "cli_mod.du" as %s;' % n, [], 0, None, [])
                add("print(%s.v);" % n, ["5"], 0, None, ["5"])
                if s.below(2):
                    errs += 1
                    add("%s.bad();" % n, [], 1)
                add("%s.get();" % n, val("5"))
            elif r == 3:
                errs += 1
                add('import "no such file.du";', [], 1)
            elif r == 4:
                errs += 1
                add("from Math import nothing;", [], 1)
            else:
                errs += 1
                add('import "cli_syntax.du" as S;', [], None) if not getattr(st, "syn", False) else add("nothing;", [], 1)
                st.syn = True
        elif k == "multi":
            r = s.below(9)
            if r >= 6:
                t, v = literal(s)
                if r == 6:
                    add("print(%s);" % t, v.split("\n"), 0, None, v.split("\n"))
                elif r == 7:
                    add("print([1].map(def (x) => {\n%s;\n return %s; })[0]);" % (literal(s)[0], t), v.split("\n"), 0, None, v.split("\n"))
                else:
                    n = fresh("s")
                    add("const %s = %s;" % (n, t), [])
                    add("%s.len();" % n, val(str(len(v))))
            elif r == 0:
                a, b = s.int(0, 9), s.int(0, 9)
                add('var d = {"a": %d,\n "b": %d\n}; print(d["b"]);' % (a, b), [str(b)], 0, None, [str(b)])
            elif r == 1:
                t = s.pick(["a{", "it's", "}", "{{", "// x", "/* {"])
                add('print("%s");' % t, [t], 0, None, [t])
            elif r == 2:
                add("print('one\ntwo');", ["one", "two"], 0, None, ["one", "two"])
            elif r == 3:
                add("if (true) {\n    print(1);\n} else {\n    print(2);\n}", ["1"], 0, None, ["1"])
            elif r == 4:
                add("/* a {\n ' b */ print(3);", ["3"], 0, None, ["3"])
            else:
                add("print(r'\\'); print(\"\\\"{\");", ["\\", '"{'], 0, None, ["\\", '"{'])
        elif k == "loop" and ints:
            n = s.pick([x for x in ints if x not in st.const] or [None])
            if n is None:
                continue
            m = s.int(1, 4)
            st.v[n] = m - 1
            add("for (var i = 0; i < %d; i += 1) { %s = i; }" % (m, n), [])
        elif k == "comment":
            add(s.pick(["// it's { \"", "/* ' */", "", "   ", "// }", "#! '"]), [])
        elif k == "runtime":
            errs += 1
            n = s.pick([x for x in ints if x not in st.const] or [None])
            r = s.below(17)
            if r < 3 and n:
                v = s.int(0, 99)
                st.v[n] = v
                add(s.pick(["%s = %d; nothing;", "{ %s = %d; nothing; }", "{ var q = [1]; %s = %d; nothing; }"]) % (n, v), [], 1)
            elif r == 3 and n:
                v = s.int(1, 4)
                st.v[n] = v
                add("for (var i = 0; i < 9; i += 1) { %s = i; if (i == %d) { nothing; } }" % (n, v), [], 1)
            elif r == 4:
                add("[1, 2, 3].map(def(x) => { print(x); if (x == 2) { nothing; } return x; });", ["1", "2"], 1)
            elif r == 5:
                nm = fresh("f")
                st.fns[nm] = ["count", 5]
                add("var %s = nil; def b%s(x) { var y = x; %s = def() => { y += 1; return y; }; nothing; } b%s(5);" % (nm, nm, nm, nm), [], 1)
            elif r == 6:
                nm = fresh("f")
                st.fns[nm] = ["count", 7]
                add("var %s = nil; { var a0 = 1; var y = 7; %s = def() => { y += 1; return y; }; [a0][4]; }" % (nm, nm), [], 1)
            elif r == 7:
                add("class E { init() { print('i'); this.x = 1; this.nope(); } } E();", ["i"], 1)
            elif r == 8 and s.below(6) == 0:
                add("def rr(n) { return rr(n + 1) + 1; } rr(0);", [], 1)
            elif r == 9 and lists:
                l = s.pick(lists)
                st.v[l].append(4)
                add("%s.push(4); %s[99];" % (l, l), [], 1)
            elif r == 10 and lists:
                add("%s.forEach(def(x, y, z) => x);" % s.pick(lists), [], None)
            elif r == 11:
                add("print('a'); { with (\"cli_file.txt\", \"w\") { file.write('x'); nothing; } }", ["a", "1"], 1)
                st.last = "1"
            elif r == 12:
                add("[3, 1, 2].sortFunc(def(a, b) => a.nope());", [], 1)
            elif r == 13:
                add("import JSON; JSON.parse(5);", [], None)
            elif r == 14:
                nm = fresh("g")
                add("def %s() { def i() { def j() { 1 + nil; } j(); } i(); } print(8); %s();" % (nm, nm), ["8"], 1)
            elif r == 15:
                add("(1)(2);", [], 1)
            else:
                add(s.pick(["nothing;", "1 + 'a';", "[1][5];", "{'a': 1}['b'];", "nil.x;", "5.5.m();", "'abc'[9];", "-'a';", "print(undefinedName);", "[].pop();",
                            "true.x = 1;", "5();", "Math0.abs(1);", "'a'.repeat();", "Success(1).unwrapError();"]), [], 1)
    return dict(steps=steps, nt=errs >= 3 and used >= 2, stress=s.below(8) == 0)


MODULE = 'print("module");\nvar v = 5;\ndef get() { return v; }\ndef bad() { nothing; }\n'


def put(ctx, variant):
    import os
    d = ctx.dir(variant)
    with open(os.path.join(d, "cli_mod.du"), "w") as f:
        f.write(MODULE)
    with open(os.path.join(d, "cli_syntax.du"), "w") as f:
        f.write("print(1);\nvar = ;\n")


def check_session(case, ctx):
    variant = "stress" if case["stress"] else "asan"
    put(ctx, variant)
    if case["nt"]:
        ctx.nontrivial(tuple(x[0] for x in case["steps"]))
    steps, loaded = [], False
    frepl, fout = [], []
    for text, out, err, ftext, fo in case["steps"]:
        if "cli_mod.du" in text:
            out = fo = ["module"] if not loaded else []
            loaded = True
        steps.append((text, out, err))
        if ftext is not None:
            frepl.append(ftext)
            fout += fo
    cpu = 30 if case["stress"] else 6
    ctx.repl(steps, variant=variant, cpu=cpu)
    if any(x[2] != 0 for x in case["steps"]):
        return
    # without a failing line: the same text as a file and as a command
    prog = "\n".join(frepl) + "\n"
    ctx.expect_items(prog, fout, variant=variant, cpu=cpu)
    r = ctx.raw(["dictu", "-c", prog, "x"], variant, cpu=cpu)
    ctx.alive(r)
    got = r.out.decode("utf-8", "surrogateescape")
    if variant == "stress":
        got = re.sub(r"Total bytes lost: 0\n$", "", got)
    want = "".join(x + "\n" for x in fout)
    if got != want or r.exit:
        raise Violation("-c", "with -c: printed %r, exit %s, as a file: %r (stderr %r)" % (got[-300:], r.exit, want[-300:], r.err[-200:]))


# -- the same random code as a file and with -c ------------------------------
def gen_modes(s):
    out, lines, err = [], [], 0
    v = s.int(0, 9)
    lines.append("var a = %d;" % v)
    for i in s.many(1, 20, 6):
        k = s.below(6)
        if k == 0:
            t = "".join(s.pick("ab'{}; $\\`*") for _ in range(s.int(0, 6))).replace("\\", "\\\\")
            lines.append('print("%s");' % t)
            out.append(t.replace("\\\\", "\\"))
        elif k == 1:
            v += 1
            lines.append("a += 1; a;")
        elif k == 2:
            lines.append("print(a);")
            out.append(str(v))
        elif k == 3:
            lines.append("def f%d(x) { return x + a; }\nprint(f%d(2));" % (len(lines), len(lines)))
            out.append(str(v + 2))
        elif k == 4:
            lines.append("// comment 'x\n/* { */")
        else:
            lines.append("if (a == %d) { print('y'); } else { print('n'); }" % v)
            out.append("y")
    end = s.below(6)
    exit = 0
    if end == 0:
        exit = 70
        lines.append(s.pick(["nothing;", "[1][7];", "def q() { nothing; } [1].map(def(x) => q());"]))
    elif end == 1:
        exit, out = 65, []
        lines.insert(s.int(0, len(lines)), s.pick(["var = 1;", "1 1;", "}"]))
    elif end == 2:
        exit = s.pick([0, 1, 2, 65, 70, 100, 127, 128, 200, 255])
        lines.append(s.pick(["import System; System.exit(%d);", "from System import exit; exit(%d);", "import System; def q(n) { System.exit(n); } [%d].map(def(x) => q(x));",
                             "import System; class E { init() { System.exit(%d); } } E();", "import System; { var z = [1]; while (true) { System.exit(%d); } }"]) % exit)
        lines.append("print('never');")
    elif end == 3:
        lines[-1] += s.pick(["", " ", " // end", " /* */"])
    return "\n".join(lines) + s.pick(["\n", "", "\n\n"]), out, exit, s.pick([[], ["x"], ["-v"], ["a b", "--cmd"]])


def check_modes(case, ctx):
    prog, out, exit, args = case
    ctx.nontrivial(prog)
    ctx.label("exit %d" % exit)
    want = "".join(x + "\n" for x in out)
    for how in ("file", "bare", "-c"):
        if how == "file":
            r = ctx.run(prog, argv=args)
        elif how == "bare":
            import os, shutil
            shutil.copy(os.path.join(ctx.dir("asan"), "main.du"), os.path.join(ctx.dir("asan"), "prog"))
            r = ctx.raw(["dictu", s_dir(ctx) + "/prog"] + args)
        else:
            r = ctx.raw(["dictu", "-c", prog, "x"])
        ctx.alive(r)
        got = r.out.decode("utf-8", "surrogateescape")
        if got != want or r.exit != exit:
            raise Violation("mode", "%s: exit %s and output %r, expected %s and %r (stderr %r)" % (how, r.exit, got[-300:], exit, want[-300:], r.err[-300:]))
        if (exit in (65, 70) and "System" not in prog) != bool(r.err):
            raise Violation("stderr", "%s: exit %s with the error output %r" % (how, exit, r.err[-300:]))


def s_dir(ctx):
    return ctx.dir("asan")


# -- argument vectors ---------------------------------------------------------
def gen_args(s):
    a = []
    for _ in s.many(0, 12, 4):
        k = s.below(5)
        if k == 0:
            a.append(s.pick(["-v", "--version", "-c", "--cmd=x", "-h", "--help", "--", "-", "", "--no-version", "-x", "--foo=bar", "main.du", "=", "-cprint(1);"]))
        elif k == 1:
            a.append("".join(s.pick(["a", "Z", " ", "\t", "'", "\"", "\\", "$HOME", "*", "{}", "é", "日本", "%s", "\x7f", "#"]) for _ in range(s.int(0, 12))))
        elif k == 2:
            a.append("".join(chr(s.int(1, 126)) for _ in range(s.int(1, 20))).replace("\n", ""))
        elif k == 3:
            a.append("x" * s.pick([1, 100, 1000, 5000, 70000]))
        else:
            a.append(str(s.int(-99, 99)))
    return a, s.below(4)


def check_args(case, ctx):
    args, how = case
    if args:
        ctx.nontrivial(tuple(args))
    lines = []
    for x in args:
        lines += ["%d" % len(x.encode()), "<%s>" % x]
    code = "import System;\nSystem.argv.len();\nprint(System.argv.len());\nfor (var i = 1; i < System.argv.len(); i += 1) { print(System.argv[i].len()); print('<' + System.argv[i] + '>'); }\n"
    if how == 0 and args:           # -c CODE takes the options it knows itself
        r = ctx.raw(["dictu", "-c", code, "first"] + args)
        want = [str(len(args) + 1)] + lines
    else:
        r = ctx.run(code + "print(System.argv[0]);\n", argv=args) if how != 1 else None
        if r is None:
            ctx.run(code + "print(System.argv[0]);\n", argv=[])
            r = ctx.raw(["dictu", "--", "main.du"] + args)
        want = [str(len(args) + 1)] + lines + ["main.du"]
    ctx.alive(r)
    w = "".join(x + "\n" for x in want).encode()
    if r.out != w or r.exit:
        raise Violation("arguments", "exit %s, got %r, expected %r; %r" % (r.exit, r.out[:300], w[:300], r.err[-200:]))


# -- the other exits ----------------------------------------------------------
def gen_status(s):
    k = s.below(7)
    if k == 0:
        return [s.pick(["nofile.du", "no/such/dir/x.du", "/nonexistent/x", "", "a" * s.pick([10, 300, 5000]) + ".du", "main.du/x"])], 74, b"", "Could not open file"
    if k == 1:
        return [s.pick(["-v", "--version"])] + s.pick([[], ["main.du"], ["-c", "print(1);"]]), 0, b"Dictu Version", ""
    if k == 2:
        return [s.pick(["-x", "--nope", "-vx", "--cmdx=1", "--versionn"])] + s.pick([[], ["main.du"]]), 1, b"Usage", "unknown option"
    if k == 3:
        return [s.pick(["-h", "--help"])] + s.pick([[], ["main.du"]]), 0, b"Usage", ""
    if k == 4:
        return [s.pick(["-c", "--cmd"])], 1, b"", "requires a value"
    if k == 5:
        n = s.int(0, 999)
        return s.pick([["--cmd=print(%d);" % n], ["-cprint(%d);" % n], ["-c", "print(%d);" % n], ["--cmd", "print(%d);" % n], ["-c", "%d;" % n]]), 0, b"%d\n" % n, ""
    return ["-c", s.pick(["var = 1;", "nothing;", "1 1;", "[1][3];"])], None, b"", "Error:"


def check_status(case, ctx):
    args, exit, out, err = case
    ctx.run("print(1);\n")
    ctx.nontrivial(tuple(args))
    r = ctx.raw(["dictu"] + args)
    ctx.alive(r)
    if exit is None:
        exit = 65 if args[1] in ("var = 1;", "1 1;") else 70
    if r.exit != exit or not r.out.startswith(out) or (err.encode() not in r.err) or (not out and r.out) or (not err and r.err):
        raise Violation("status", "dictu %r: exit %s, output %r, errors %r" % (args, r.exit, r.out[:200], r.err[:200]))


def parts():
    return [Part("sessions", gen_session, check_session, 2500), Part("modes", gen_modes, check_modes, 700),
            Part("arguments", gen_args, check_args, 1200), Part("status", gen_status, check_status, 300)]
