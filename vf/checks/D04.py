"""String methods against a byte-string model; results feed later calls."""
import re
from ..core import Part

RULE = ("8-24 string-method calls (25 methods, generated strings rich in overlaps, whitespace, letter case, braces, multi-byte "
        "text) whose results are the receivers and arguments of later calls; each result is printed, compared with == to "
        "the expected literal, measured and used as a dictionary key; all originals re-checked at the end; non-trivial = "
        "4+ methods, one applied to a computed string")
WS = b" \t\n\v\f\r"
isspace = lambda c: c in WS
isalpha = lambda c: 65 <= c <= 90 or 97 <= c <= 122
ALPH = [b"ab", b"abc ", b" \t\n", b"aB cD", b"xX", b"{}a", b"0123456789.-+ex", b"\xc3\xa9a\xe6\x97\xa5 ", b"aZ09!,.- _'\"\\\n",
        b"a", b"a ", b"  \r\x0b\x0cz"]


def q(b):
    """A literal for these bytes."""
    out = b""
    for c in b:
        ch = bytes([c])
        out += {b"\\": b"\\\\", b"\n": b"\\n", b"\t": b"\\t", b"\r": b"\\r", b'"': b'\\"', b"\v": b"\\v"}.get(ch, ch)
    return b'"' + out + b'"'


def text(s, hi=14):
    if s.below(14) == 0:
        return b""
    if s.below(5) == 0:
        return b" ".join(bytes(s.pick(b"abcDEZ019!.") for _ in range(s.int(1, 7))) for _ in range(s.int(1, 6)))
    if s.below(10) == 0:
        return (s.pick([b"ab", b"a", b" ", b"x{}", b"aab", b"ab "]) * s.int(1, 9))
    a = s.pick(ALPH)
    if 0xc3 in a:
        return b"".join(s.pick([b"\xc3\xa9", b"\xe6\x97\xa5", b"a", b" ", b"Z", b"\xf0\x9f\x98\x80"]) for _ in s.many(0, hi, 5))
    return bytes(s.pick(a) for _ in s.many(0, hi, 6))


def needle(s, t):
    r = s.below(6)
    if t and r < 4:
        i = s.below(len(t))
        return t[i:i + 1 + s.below(min(4, len(t) - i))]
    if r == 4:
        return text(s, 4)
    return t


def show(v):
    if v is None:
        return b"nil"
    if isinstance(v, bool):
        return b"true" if v else b"false"
    if isinstance(v, int):
        return b"%d" % v
    return v


def count(t, n):
    return sum(1 for i in range(len(t) + 1) if t[i:i + len(n)] == n)


def find_nth(t, n, k):
    pos = -1
    at = 0
    for _ in range(k):
        pos = t.find(n, at)
        if pos < 0:
            return -1
        at = pos + len(n)
    return pos


def title(t):
    out, nxt = [], True
    for c in t:
        ch = bytes([c])
        if c == 32:
            nxt = True
            out.append(ch)
        elif nxt:
            out.append(ch.upper())
            nxt = False
        else:
            out.append(ch.lower())
    return b"".join(out)


def collapse(t):
    out, prev = bytearray(), True
    for c in t:
        if not (isspace(c) and prev):
            out.append(c)
        prev = isspace(c)
    return bytes(out)


def wrap(t, n):
    out, last, start = bytearray(t), -1, 0
    for i, c in enumerate(t):
        if isspace(c):
            last = i
        if i - start >= n and last >= start:
            out[last] = 10
            start = last + 1
    return bytes(out)


def words(t):
    return sum(1 for w in re.split(rb"[ \t\n\v\f\r]+", t) if any(isalpha(c) for c in w))


def split(t, d, m):
    if d == b"":
        cs = [bytes([c]) for c in t]
        if m is None or m < 0 or m >= len(cs):
            return cs
        return cs[:m] + [b"".join(cs[m:])]
    return t.split(d, -1 if m is None or m < 0 else m)


METHODS = ("len lower upper split split2 replace contains find find2 findLast startsWith endsWith strip leftStrip rightStrip "
           "count title repeat isUpper isLower wordCount collapseSpaces wrap format toBool concat").split()


def ascii_(t):
    return all(c < 128 for c in t)


def call(s, m, recv, t, lit):
    """-> (source, value) with value bytes | int | bool | list of bytes"""
    base = {"split2": "split", "find2": "find"}.get(m, m)
    head = recv + b"." + base.encode()
    if m in ("len", "lower", "upper", "strip", "leftStrip", "rightStrip", "title", "isUpper", "isLower", "wordCount",
             "collapseSpaces", "toBool"):
        v = {"len": len, "lower": bytes.lower, "upper": bytes.upper, "strip": lambda x: x.strip(WS),
             "leftStrip": lambda x: x.lstrip(WS), "rightStrip": lambda x: x.rstrip(WS), "title": title,
             "isUpper": lambda x: x != b"" and not any(97 <= c <= 122 for c in x),
             "isLower": lambda x: x != b"" and not any(65 <= c <= 90 for c in x),
             "wordCount": words, "collapseSpaces": collapse, "toBool": lambda x: x != b""}[m](t)
        return head + b"()", v
    if m == "concat":
        o = text(s)
        return (recv + b" + " + lit(o), t + o) if s.below(2) else (lit(o) + b" + " + recv, o + t)
    if m == "repeat":
        n = s.below(6)
        return head + b"(%d)" % n, t * n
    if m == "wrap":
        n = s.int(1, 12)
        return head + b"(%d)" % n, wrap(t, n)
    if m == "format":
        k = t.count(b"{}")
        if not 1 <= k <= 6:
            return None
        args, vals = [], []
        for _ in range(k):
            r = s.below(5)
            if r == 0:
                n = s.int(-50, 9999)
                args.append(b"%d" % n)
                vals.append(b"%d" % n)
            elif r == 1:
                b = bool(s.below(2))
                args.append(show(b))
                vals.append(show(b))
            elif r == 2:
                args.append(b'[1, "x", nil]')
                vals.append(b'[1, "x", nil]')
            else:
                o = text(s, 6)
                args.append(lit(o))
                vals.append(o)
        pieces = t.split(b"{}")
        out = pieces[0]
        for p, v in zip(pieces[1:], vals):
            out += v + p
        return head + b"(" + b", ".join(args) + b")", out
    n = needle(s, t)
    if m in ("split", "split2"):
        if s.below(6) == 0:
            n = b""
        if n == b"" and not ascii_(t):
            return None
        if m == "split":
            return head + b"(" + lit(n) + b")", split(t, n, None)
        k = s.int(-1, 5)
        return head + b"(" + lit(n) + b", %d)" % k, split(t, n, k)
    if m == "replace":
        if n == b"":
            return None
        o = text(s, 5) if s.below(3) else n + n
        return head + b"(" + lit(n) + b", " + lit(o) + b")", t.replace(n, o)
    if m == "find2":
        if n == b"":
            return None
        k = s.int(1, 2)         # more: listed in known-findings.txt
        return head + b"(" + lit(n) + b", %d)" % k, find_nth(t, n, k)
    if n == b"" and m in ("findLast", "count"):
        return None
    v = {"contains": lambda: n in t, "find": lambda: t.find(n), "findLast": lambda: t.rfind(n),
         "startsWith": lambda: t.startswith(n), "endsWith": lambda: t.endswith(n), "count": lambda: count(t, n)}[m]()
    return head + b"(" + lit(n) + b")", v


def gen(s):
    decl, stmts, out, env = [], [], [], []
    used, computed, free = set(), False, set()

    def lit(b):
        r = s.below(6)
        if r == 0 and b:
            i = s.below(len(b) + 1)
            return b"(" + q(b[:i]) + b" + " + q(b[i:]) + b")"
        if r == 1:
            for nm, v in env:
                if v == b:
                    return nm
        if r == 2:
            return b"id(" + q(b) + b")"
        return q(b)

    for i in range(s.int(8, 24)):
        m = s.pick(METHODS)
        if env and s.below(3):
            nm, t = s.pick(env)
            recv = nm
        else:
            t = text(s)
            nm, recv = None, lit(t)
            if not recv.startswith(b'"') and not recv.startswith(b"("):
                nm = recv
        c = call(s, m, recv, t, lit)
        if c is None:
            continue
        src, v = c
        if isinstance(v, bytes) and len(v) > 600:
            continue
        s.label("m:" + m)
        used.add(m)
        computed |= nm is not None
        if isinstance(v, list):
            st = b"{ var l = %s; print(l.len()); print(l == [%s]); l.forEach(def (x) => print(x)); }" % (
                src, b", ".join(q(x) for x in v[:30]))
            if len(v) > 30:
                continue
            stmts.append(st)
            out += [show(len(v)), b"true"] + v
        elif isinstance(v, bytes):
            var = b"s%d" % i
            decl.append(b"var " + var + b";")
            if s.below(2) and b"\0" not in v:
                # a literal of the same text would make the result the literal's own string: compare with neighbours instead
                free.add(var)
                stmts.append(var + b" = " + src + b"; print(" + var + b"); print(" + var + b".len()); print(" + var + b" < " + var
                             + b' + "\x01"); print(' + var + b' + "\x01" > ' + var + b'); print(' + var + b' >= ' + var + b' + "\x01");')
                out += [v, show(len(v)), b"true", b"true", b"false"]
                env.append((var, v))
                continue
            stmts.append(var + b" = " + src + b"; print(" + var + b"); print(" + var + b".len());print(" + var + b" == "
                         + q(v) + b");")
            out += [v, show(len(v)), b"true"]
            if s.below(4) == 0:
                stmts.append(b"{ var d = {}; d[" + q(v) + b'] = "hit"; print(d.get(' + var + b', "miss")); }')
                out.append(b"hit")
            env.append((var, v))
        else:
            stmts.append(b"print(" + src + b");")
            out.append(show(v))
    for nm, v in env:
        if nm in free and s.below(3):
            stmts.append(b"print(" + nm + b' < ' + nm + b' + "\x01");')
            out.append(b"true")
            continue
        stmts.append(b"print(" + nm + b" == " + q(v) + b"); print(" + nm + b");")
        out += [b"true", v]
    return decl, stmts, out, used, computed, s.below(2)


def assemble(decl, stmts, wrap_):
    src = b"def id(x) { return x; }\n" + b"\n".join(decl) + b"\n"
    for i in range(0, len(stmts), 5):
        src += b"def g%d() {\n%s\n}\ng%d();\n" % (i, b"\n".join(stmts[i:i + 5]), i)
    return b"def main() {\n" + src + b"}\nmain();\n" if wrap_ else src


def check(case, ctx):
    decl, stmts, out, used, computed, w = case
    if len(used) >= 4 and computed:
        ctx.nontrivial(stmts)
    ctx.expect(assemble(decl, stmts, w), out)


# -- arguments outside the domain -----------------------------------------
ARITY = dict(len=(0, 0), lower=(0, 0), upper=(0, 0), split=(1, 2), replace=(2, 2), contains=(1, 1), find=(1, 2), findLast=(1, 1),
             startsWith=(1, 1), endsWith=(1, 1), strip=(0, 0), leftStrip=(0, 0), rightStrip=(0, 0), count=(1, 1), title=(0, 0),
             repeat=(1, 1), isUpper=(0, 0), isLower=(0, 0), wordCount=(0, 0), collapseSpaces=(0, 0), wrap=(1, 1),
             toNumber=(0, 0), toBool=(0, 0))
NUMARG = {("repeat", 0), ("wrap", 0), ("split", 1), ("find", 1)}
OTHERS = ["nil", "true", "[1]", "{}", "set()", "def () => 1", "C", "C()", "Math", "1"]


def gen_err(s):
    m = s.pick(sorted(ARITY) + ["format", "nosuch", "plus", "minus", "setidx"])
    t = text(s, 8)
    s.label("err:" + m)
    if m == "format":
        k = t.count(b"{}")
        n = s.pick([x for x in range(0, 5) if x != k])
        return t, b'.format(' + b", ".join([b"1"] * n) + b")"
    if m == "nosuch":
        return t, s.pick([b".size()", b".Len()", b".push(1)", b".abc", b"()"])
    if m == "plus":
        return t, b" + " + s.pick(OTHERS).encode()
    if m == "minus":
        return t, b" " + s.pick([b"-", b"*", b"/", b"&", b"%", b"**"]) + b" " + s.pick([b"1", b'"a"', b"nil"])
    if m == "setidx":
        return t, b'[0] = "x"'
    lo, hi = ARITY[m]
    ok = [b"2" if (m, i) in NUMARG else b'"a"' for i in range(hi)]
    if hi == 0 or s.below(3) == 0:
        n = s.pick([x for x in range(0, hi + 3) if not lo <= x <= hi])
        args = (ok + [b'"z"', b"1", b'"q"'])[:n]
    else:
        n = s.int(max(lo, 1), hi)
        args = ok[:n]
        k = s.below(n)
        bad = [o for o in OTHERS if o != "1"] if (m, k) in NUMARG else OTHERS
        args[k] = s.pick(bad).encode() if (m, k) != ("repeat", 0) else s.pick(bad + ["-1", "-0.5", "-100", "1e300"]).encode()
    return t, b"." + m.encode() + b"(" + b", ".join(args) + b")"


def check_err(case, ctx):
    t, rest = case
    if b"1e300" in rest and not t:
        return
    ctx.nontrivial(case)
    src = (b'import Math;\nclass C {}\nvar s = ' + q(t) + b';\nprint("before");\nprint(s);\nvar r = s' + rest
           + b';\nprint("after");\nprint(r);\n')
    r = ctx.expect(src, [b"before", t], exit=70)
    if b"line 6" not in r.err:
        ctx.fail("where", "no 'line 6' in %r" % r.err)


def parts():
    return [Part("calls", gen, check, 14000), Part("errors", gen_err, check_err, 6000)]
