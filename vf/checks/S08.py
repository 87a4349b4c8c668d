"""File histories against byte-string models, in planted directories, as an unprivileged user."""
from ..core import Part

VARIANTS = ["asan", "stress"]
TECHNIQUE = ("stateful model-based testing: generated histories of with-blocks and file operations in planted directories, every value read "
             "and the tree left behind compared with a byte-string model, with permission, missing-file and full-device faults")
RULE = ("(history) a planted directory of files (empty, no final newline, NULs, non-UTF-8 bytes, 4-130 kB lines) and 4-16 with-blocks in 14 "
        "modes, each of 1-8 writes, reads, line reads and seeks, left normally, by return, break, continue or an error, nested, inside "
        "functions, methods and loops of up to 200 rounds (with 128 descriptors), handles leaked; (copy) copies between files, directories, links, forbidden and "
        "missing paths; (stdout) IO.print/println; non-trivial = at least two blocks on the same file of which one writes")

MODES = ["r", "w", "rb", "wb", "a", "r+", "w+", "a+", "ab", "r+b", "w+b", "a+b", "rb+", "wb+"]


def blit(b):
    out = []
    for c in b:
        ch = chr(c)
        if ch in "\\\"":
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif c < 32 or c >= 127:
            out.append("\\x%02x" % c)
        else:
            out.append(ch)
    return '"%s"' % "".join(out)


def content(s, big=True):
    k = s.weighted([(2, "empty"), (4, "text"), (4, "lines"), (2, "bytes"), (1, "long"), (1 if big else 0, "huge"), (1, "edge")])
    if k == "empty":
        return b""
    if k == "text":
        return s.text("abc xyz019%{}", 1, 12).encode()
    if k == "lines":
        return b"\n".join(s.pick([b"", b"a", b"second line", b"\xc3\xa9\xe2\x82\xac", b"x\ty", b"12", b" ", b"\r"]) for _ in s.many(1, 7, 3)) + s.pick([b"", b"\n"])
    if k == "bytes":
        return bytes(s.pick([0, 0, 10, 10, 13, 26, 255, 128, 65, 66, 37]) for _ in s.many(1, 20, 8))
    if k == "long":
        return b"q" * s.int(4000, 4200) + s.pick([b"", b"\n", b"\nrest"])
    if k == "edge":
        n = s.pick([127, 128, 129, 255, 256, 257, 4094, 4095, 4096, 4097, 8191, 8192, 8193])
        return b"e" * n + s.pick([b"", b"\n", b"\n\nz", b"zz"])
    return bytes((65 + i % 26) for i in range(1000)) * s.int(66, 130) + s.pick([b"", b"\n", b"\nend"])


class Handle:
    def __init__(self, data, mode):
        self.d, self.mode, self.pos = data, mode, 0
        self.binary = "b" in mode
        self.readable = mode[0] == "r" or "+" in mode
        self.writable = mode[0] != "r" or "+" in mode
        self.append = mode[0] == "a"


def shown(b, expr, lines, want):
    """print what was read so that every byte of it is compared"""
    if 0 in b or b"\r" in b:
        lines.append("const x = %s; print(x.len()); print(x == %s);" % (expr, blit(b)))
        want += [str(len(b)), "true"]
    else:
        lines.append("print(%s);" % expr)
        want += b.decode("utf-8", "surrogateescape").split("\n")


def op(s, h, f, lines, want, stats, allow_err):
    """one operation; -> True if it is an error"""
    k = s.weighted([(4, "write"), (2, "writeLine"), (3, "read"), (5, "readLine"), (2, "readLineN"), (3, "seek"), (1 if allow_err else 0, "bad"), (1, "peek")])
    if k in ("write", "writeLine"):
        if not h.writable and not (allow_err and s.below(6) == 0):
            return False
        t = content(s, False)
        s.label(k)
        if not h.writable:
            lines.append("%s.%s(%s);" % (f, k, blit(t)))
            return True
        lines.append("print(%s.%s(%s));" % (f, k, blit(t)))
        if k == "writeLine":
            t += b"\n"
        want.append(str(len(t)))
        if h.append and t:
            h.pos = len(h.d)
        if h.pos > len(h.d) and t:
            h.d.extend(b"\0" * (h.pos - len(h.d)))
        h.d[h.pos:h.pos + len(t)] = t
        h.pos += len(t)
        stats["wrote"] = True
    elif k in ("read", "readLine", "readLineN"):
        if not h.readable and not (allow_err and s.below(6) == 0):
            return False
        s.label(k)
        n = s.pick([1, 2, 3, 5, 10, 127, 128, 129, 4096, 100000])
        call = {"read": "read()", "readLine": "readLine()", "readLineN": "readLine(%d)" % n}[k]
        if not h.readable:
            lines.append("%s.%s;" % (f, call))
            return True
        rest = bytes(h.d[h.pos:])
        if k == "read":
            got = rest
            h.pos = max(h.pos, len(h.d))
        else:
            i = rest.find(b"\n")
            if k == "readLineN" and (i < 0 or i >= n):
                got = rest[:n]
                h.pos += len(got)
            elif i < 0:
                got = rest
                h.pos += len(got)
            else:
                got = rest[:i]
                h.pos += i + 1
            if got == b"" and not rest:
                lines.append("print(%s.%s == nil);" % (f, call))
                want.append("true")
                return False
        lines.append("{")
        shown(got, "%s.%s" % (f, call), lines, want)
        lines.append("}")
    elif k == "seek":
        s.label("seek")
        if h.binary:
            w = s.below(3)
            off = s.pick([0, 0, 1, 2, 3, 5, len(h.d), len(h.d) // 2, -1, -2, -len(h.d), 4096, -5, len(h.d) + 3])
        else:
            w, off = s.pick([0, 1, 2]), 0
            if allow_err and s.below(8) == 0:
                lines.append("%s.seek(%s);" % (f, s.pick(["1", "-1", "3, 1", "-2, 2"])))
                return True
        new = off + (0, h.pos, len(h.d))[w]
        lines.append("print(%s.seek(%s) == nil);" % (f, "%d" % off if w == 0 and s.below(2) else "%d, %d" % (off, w)))
        want.append("true")
        if new >= 0:
            h.pos = new
    elif k == "bad":
        s.label("bad argument")
        lines.append("%s.%s;" % (f, s.pick(["write()", "write(1)", 'write("a", "b")', "writeLine(nil)", "writeLine()", "read(1)", 'readLine("x")', "readLine(0)",
                                              "readLine(-1)", "readLine(1, 2)", "seek()", 'seek("0")', 'seek(0, "x")', "seek(0, 1, 2)", "nothing()", "close()"])))
        return True
    elif k == "peek" and stats["name"] is not None:
        # what was written is on the disk already, whether or not the block has ended
        lines.append('with(%s, "rb") {' % stats["name"])
        shown(bytes(h.d), "file.read()", lines, want)
        lines.append("}")
    return False


def gen_history(s):
    files, dirs = {}, {"d": None, "ro dir": ("mode", 0o555, None)}
    tree = dict(dirs)
    for n in s.subset(["a.txt", "b.txt", "d/c.bin", "x y", "\u00e9", "no.nl", "d/e"], 0.5):
        files[n] = bytearray(content(s))
        tree[n] = bytes(files[n])
    locked = {}
    if s.below(3) == 0:
        locked["locked"] = (0o000, b"secret")
        tree["locked"] = ("mode", 0o000, b"secret")
    if s.below(3) == 0:
        locked["fixed"] = (0o444, b"fixed\ntext\n")
        tree["fixed"] = ("mode", 0o444, b"fixed\ntext\n")
    links = {}
    if files and s.below(4) == 0:
        t = s.pick(sorted(files))
        links["ln"] = t
        tree["ln"] = ("link", t)
    names = sorted(files) + ["new1", "d/new2", "a.txt"]
    steps, used, nt = [], {}, False
    steps.append(("var leak; var k;", [], False))
    for bi in range(len(list(s.many(4, 16, 8)))):
        shape = s.weighted([(5, "plain"), (3, "function"), (3, "break"), (2, "continue"), (2, "method"), (2, "nested"), (3, "error"), (2, "leak"), (1, "many"),
                            (2, "fault"), (1, "closure")])
        s.label("shape:" + shape)
        name = s.pick(names) if not links or s.below(4) else "ln"
        real = links.get(name, name)
        mode = s.pick(MODES)
        if mode[0] == "r" and real not in files and s.below(5):
            mode = s.pick(["w", "a", "w+", "wb", "a+b"])
        if shape in ("break", "continue") and mode[0] == "w":
            mode = "a" if "b" not in mode else "ab"
        if shape == "many" and mode[0] != "r":
            mode = "ab"
        elif shape == "many":
            mode = s.pick(["r", "rb"])
        lit = blit(name.encode())
        if shape == "fault":
            r = s.below(8)
            if r == 0 and locked:
                n = s.pick(sorted(locked))
                m, data = locked[n]
                mode = s.pick(MODES)
                h = Handle(None, mode)
                if m == 0o444 and not h.writable:
                    steps.append(('with("%s", "%s") { print(file.read()); }' % (n, mode), ["fixed", "text", ""], False))
                else:
                    steps.append(('with("%s", "%s") { print("opened"); }' % (n, mode), [], True))
            elif r == 1:
                steps.append(('with("ro dir/x", "%s") { print("opened"); }' % mode, [], True))
            elif r == 2:
                steps.append(('with("d", "%s") { print("opened"); }' % s.pick(["w", "a", "r+", "w+", "wb"]), [], True))
            elif r == 3:
                steps.append(('with("d", "%s") { file.read(); }' % s.pick(["r", "rb"]), [], True))
            elif r == 4:
                steps.append(('with("/dev/full", "%s") { print(1); file.%s; print(2); }' % (s.pick(["w", "a", "wb", "r+"]), s.pick(['write("x")', 'writeLine("")', 'writeLine("abc")'])), ["1"], True))
            elif r == 5:
                steps.append(("with(%s) { print(1); }" % s.pick(['1, "r"', '"a.txt", nil', 'nil, "w"', '"a.txt", 2', '["new1"], "w"', '"new9", "q"', '"new9", ""', '"new9", "+"', '"", "w"']), [], True))
            elif r == 6:
                steps.append(('with("nodir/%d", "%s") { print("opened"); }' % (bi, mode), [], True))
            else:
                steps.append(('with("/dev/full", "w") { print(file.write("")); }', ["0"], False))
            continue
        if mode[0] == "r" and real not in files:
            steps.append(('with(%s, "%s") { print("opened"); }' % (lit, mode), [], True))
            continue
        if mode[0] == "w" or real not in files:
            files.setdefault(real, bytearray())
            if mode[0] == "w":
                files[real][:] = b""
        if real in used and (used[real] or mode[0] != "r" or "+" in mode):
            nt = True
        stats = {"wrote": mode[0] == "w", "name": lit}
        h = Handle(files[real], mode)
        lines, want = [], []

        def ops(f, n, err=False):
            for _ in range(s.int(0 if shape == "plain" else 1, n)):
                if op(s, h, f, lines, want, stats, err):
                    return True
            return False
        kept = shape in ("function", "method", "break", "continue") and s.below(2)
        head = 'with(%s, "%s") {%s' % (lit, mode, " leak = file;" if kept else "")
        error = False
        if shape == "plain":
            lines.append(head)
            error = ops("file", 8, True)
            lines.append("}")
        elif shape == "function":
            lines.append("def f%d(n) { var local = [n]; %s var inside = n + 1;" % (bi, head))
            ops("file", 5)
            lines.append("if (n == 3) { return local[0] + inside; } print('on');")
            lines.append(s.pick(["} return -1; }", "return 'end'; } }", "} }"]))
            tail = lines[-1]
            n = s.pick([3, 4])
            lines.append("print(f%d(%d));" % (bi, n))
            if n == 3:
                want.append("7")
            else:
                want += ["on", {"} return": "-1", "return 'e": "end", "} }": "nil"}[tail[:9] if tail[0] == "r" else tail[:8]]]
        elif shape == "method":
            lines.append("class W%d { go() { var a = 1; %s" % (bi, head))
            ops("file", 3)
            lines.append("with(\"other%d\", \"a\") { var z = 2;" % bi)
            tgt = files.setdefault("other%d" % bi, bytearray())
            n = s.int(1, 3)
            lines.append("for (var i = 0; i < 5; i += 1) { file.write('i'); if (i == %d) { return a + z; } }" % (n - 1))
            lines.append("} } return 0; } } print(W%d().go());" % bi)
            tgt.extend(b"i" * n)
            want.append("3")
        elif shape in ("break", "continue"):
            if not h.writable:
                rounds = s.int(1, 4)
                lines.append("var rounds%d = 0; for (var i = 0; i < 4; i += 1) { var t = i; %s var x = file.readLine(); rounds%d = rounds%d + 1; if (i == %d) { %s; } var y = 1; } } print(rounds%d);" %
                             (bi, head, bi, bi, rounds - 1, shape, bi))
                want.append(str(rounds if shape == "break" else 4))
            else:
                rounds = s.int(1, 4)
                txt = s.pick([b"w", b"long\n", b"\xc3\xa9"])
                lines.append("%s i = 0; %s{ var t = [i]; %s var x = i; k = file.write(%s); %s if (x == %d) { %s; } k = file.write('!'); } }" % (
                    "var" if s.below(2) else "k = 0; var", "while (i < 4) ", head, blit(txt), "i = i + 1;", rounds - 1, shape))
                for i in range(rounds if shape == "break" else 4):
                    h.pos = len(h.d) if h.append else 0
                    t = txt if i == rounds - 1 else txt + b"!"
                    h.d[h.pos:h.pos + len(t)] = t
                if s.below(2):
                    lines.insert(0, "{")
                    lines.append("}")
                else:
                    lines.insert(0, "def g%d() {" % bi)
                    lines.append("} g%d();" % bi)
        elif shape == "nested":
            o = "in%d" % bi
            lines.append(head + " const outer = file; with(%s, \"w+\") {" % blit(o.encode()))
            files[o] = bytearray()
            h2 = Handle(files[o], "w+")
            hs = [(h, "outer"), (h2, "file")]
            for _ in range(s.int(2, 6)):
                hh, f = s.pick(hs)
                stats["name"] = lit if hh is h else blit(o.encode())
                op(s, hh, f, lines, want, stats, False)
            lines.append("}")
            stats["name"] = lit
            ops("file", 2)
            lines.append("}")
        elif shape == "error":
            lines.append(head)
            error = ops("file", 3, True)
            if not error:
                lines.append(s.pick(["nothing;", "[][1];", "nil.x;", "1 + nil;", "(def () => { return file.nope; })();"]))
                error = True
            lines.append("k = file.write('never'); }")
        elif shape == "leak":
            lines.append("%s leak = file;" % head)
            ops("leak", 3)
            lines.append("}")
        elif shape == "closure":
            lines.append("var c%d; %s c%d = def () => { file.%s; };" % (bi, head, bi, s.pick(["read()", "write('x')", "readLine()", "seek(0)", "writeLine('')"])))
            ops("file", 2)
            lines.append("}")
        else:
            kind = s.pick(["break", "return", "continue", "end"])
            n = s.int(140, 200)
            if mode[0] == "r":
                body = "file.seek(0);"
            else:
                body = "k = file.write('m');"
                h.d.extend(b"m" * n)
            body = 'with(%s, "%s") { const v = 1; %s %%s }' % (lit, mode, body)
            if kind == "return":
                lines.append("def h%d() { %s } for (var i = 0; i < %d; i += 1) { k = h%d(); }" % (bi, body % "return v;", n, bi))
            elif kind == "break":
                lines.append("for (var i = 0; i < %d; i += 1) { while (true) { %s } }" % (n, body % "break;"))
            else:
                lines.append("for (var i = 0; i < %d; i += 1) { %s }" % (n, body % (kind + ";" if kind == "continue" else "")))
            lines.append("print('done');")
            want.append("done")
        steps.append((" ".join(lines), want, error))
        if shape == "leak" or kept:
            # the handle outlives its file
            steps.append(("leak.%s;" % s.pick(['write("late")', "read()", "readLine()", "seek(0)", 'writeLine("late")']), [], True))
        if shape == "closure":
            steps.append(("c%d();" % bi, [], True))
        used[real] = used.get(real) or stats["wrote"]
    end = {n: bytes(d) for n, d in files.items()}
    for n, (m, d) in locked.items():
        end[n] = d
    end.update({"d": None, "ro dir": None})
    end.update({n: ("link", t) for n, t in links.items()})
    return tree, steps, end, nt


def same_tree(ctx, got, want):
    for n in sorted(set(got) | set(want)):
        if got.get(n, "absent") != want.get(n, "absent"):
            g, w = got.get(n, "absent"), want.get(n, "absent")
            ctx.fail("tree", "afterwards %r is %s, the model says %s" % (n, brief(g), brief(w)))


def brief(c):
    return "a file of %d bytes %r" % (len(c), c[:80]) if isinstance(c, (bytes, bytearray)) else "a directory" if c is None else repr(c)


def check_history(case, ctx):
    tree, steps, end, nt = case
    if nt:
        ctx.nontrivial([x[0] for x in steps])
    r = ctx.repl(steps, tree=tree)
    same_tree(ctx, r.tree, end)


# -- copyFile ------------------------------------------------------------
def gen_copy(s):
    tree = {"d": None, "d/in": b"inside", "ro": ("mode", 0o555, None), "noread": ("mode", 0o200, b"hidden"), "nowrite": ("mode", 0o444, b"fixed"), "dl": ("link", "d")}
    files = {"d/in": b"inside", "noread": b"hidden", "nowrite": b"fixed"}
    for n in ["a", "b", "c"]:
        if s.below(4):
            files[n] = tree[n] = content(s)
    if s.below(8) == 0:
        files["big"] = tree["big"] = bytes(range(256)) * s.int(4000, 12000)
    tree["la"] = ("link", s.pick(["a", "b", "gone", "d/in"]))
    link = tree["la"][1]
    steps, nt = [("import IO;", [], False)], False
    src = sorted(files) + ["la", "d", "gone2", "dl/in", "./a", "d/../b"]
    dst = ["a", "b", "n1", "n2", "d/n3", "la", "d", "ro/x", "nowrite", "gone/x", "./a", "d/../b", "dl/in"]

    def res(p):
        p = {"./a": "a", "d/../b": "b", "dl/in": "d/in"}.get(p, p)
        return link if p == "la" else p
    for _ in s.many(2, 10, 5):
        a, b = s.pick(src), s.pick(dst)
        if s.below(8) == 0:
            b = a
        ra, rb = res(a), res(b)
        ok = ra in files and ra != "noread" and ra != "d" and rb not in ("d", "ro/x", "nowrite", "gone/x") and ra != rb and b != "dl"
        steps.append(("const r%d = IO.copyFile(%s, %s); print(r%d.success());" % (len(steps), blit(a.encode()), blit(b.encode()), len(steps)), ["true" if ok else "false"], False))
        if ok:
            files[rb] = files[ra]
            nt = True
    if s.below(4) == 0:
        steps.append(("IO.copyFile(%s);" % s.pick(["", '"a"', '"a", 1', "nil, nil", '"a", "b", "c"']), [], True))
    end = dict(files)
    end.update({"d": None, "ro": None, "dl": tree["dl"], "la": tree["la"]})
    return tree, steps, end, nt


# -- standard output --------------------------------------------------------
def gen_stdout(s):
    from .. import vals as V
    src, want, nt = ["import IO;"], "", 0
    for _ in s.many(2, 12, 5):
        vs = [s.pick(["a", "", "x\ny", "50%", "%s%d", 1, 2.5, True, None, [1, "q"], -3]) for _ in range(s.int(1, 4))]
        f = s.pick(["print", "println"])
        nt = max(nt, len(vs))
        src.append("IO.%s(%s);" % (f, ", ".join(V.lit(v) for v in vs)))
        for v in vs:
            want += (v if isinstance(v, str) else V.show(v)) + ("\n" if f == "println" else "")
        if s.below(4) == 0:
            src.append('print("p");')
            want += "p\n"
    return "\n".join(src) + "\n", want + "end", nt


def check_stdout(case, ctx):
    src, want, nt = case
    if nt > 1:
        ctx.nontrivial(src)
    ctx.expect(src + 'IO.println("end");\n', want.split("\n"))


def parts():
    return [Part("history", gen_history, check_history, 3500), Part("copy", gen_copy, check_history, 1500), Part("stdout", gen_stdout, check_stdout, 600)]
