"""String and number literals, toNumber, comments and layout."""
import math
from ..core import Part
from .. import vals as V
from .D04 import show as bshow

RULE = ("strings: 4-12 string literals (both quotes, all documented escapes, raw, multi-line, multi-byte) denoting generated bytes, "
        "checked by printing, length and equality with another spelling; numbers: 6-16 decimal, fractional, scientific, hexadecimal and "
        "underscored spellings compared exactly (==) with a double rebuilt from its 53-bit mantissa by powers of two, and "
        "toNumber of generated texts; layout: a program re-laid out with random blanks, newlines and comments prints the same; "
        "non-trivial = an escape next to other text / a number with a fraction or exponent / a comment")

NAMED = {10: b"\\n", 13: b"\\r", 9: b"\\t", 11: b"\\v", 92: b"\\\\"}


def spell(s, b, raw=False):
    """A literal for the bytes b -> (source, used escape)."""
    q = s.pick(b"\"'")
    esc = False
    if raw:
        if q in b:
            q = 34 + 39 - q
        if q not in b:
            return b"r" + bytes([q]) + b + bytes([q]), 92 in b
    out = b""
    for i, c in enumerate(b):
        k = s.below(5)
        if c == q:
            out += b"\\" + bytes([c]) if k else b"\\x%02x" % c
            esc = True
        elif c in (34, 39) and k == 0:
            out += b"\\" + bytes([c])
            esc = True
        elif c == 92:
            out += b"\\\\" if k else b"\\x5c"
            esc = True
        elif c in NAMED and (k or c == 13):
            out += NAMED[c]
            esc = True
        elif k == 0 and s.below(4) == 0:
            out += (b"\\x%02x" if s.below(2) else b"\\x%02X") % c
            esc = True
        else:
            out += bytes([c])
    return bytes([q]) + out + bytes([q]), esc


def gen_str(s):
    r, nt = [], False
    for _ in range(s.int(4, 12)):
        a = s.pick([b"abnrtvx0\\", b"\\\"'", b"\n\t\r\v \\n", b"a\\x41", b"//*/ /*#!", b"\xc3\xa9\xff\x80\x01\x7fz", b"{}$%; ()", bytes(range(1, 256))])
        b = bytes(s.pick(a) for _ in s.many(0, 16, 6))
        raw = s.below(4) == 0 and b"\r" not in b
        l1, e1 = spell(s, b, raw)
        l2, e2 = spell(s, b)
        nt |= (e1 or e2) and len(b) > 2
        r.append((b, l1, l2, s.below(3)))
    return r, nt


def check_str(case, ctx):
    r, nt = case
    if nt:
        ctx.nontrivial([x[1] for x in r])
    src, out = b"", []
    for i, (b, l1, l2, k) in enumerate(r):
        src += b"print(%s); print(%s.len()); print(%s == %s);" % (l1, l1, l1, l2)
        out += [b, b"%d" % len(b), b"true"]
        if k == 0:
            src += b"print({%s: 1}[%s]);" % (l1, l2)
            out.append(b"1")
        elif k == 1:
            src += b"var s%d = %s; print(s%d + %s);" % (i, l2, i, l1)
            out.append(b + b)
        src += b"\n"
    ctx.expect(src, out)


# -- numbers ---------------------------------------------------------------
PRE = """def p2(m, e) { while (e > 0) { m *= 2; e -= 1; } while (e < 0) { m /= 2; e += 1; } return m; }
def ok(n, text, v) { const r = text.toNumber(); print(r.success()); if (r.success()) { print(r.unwrap() == v); } else { print(r.unwrapError() == "Can not convert '" + text + "' to number"); } }
"""


def under(s, d):
    if s.below(3) or len(d) < 2:
        return d
    out = d[0]
    for c in d[1:]:
        if s.below(4) == 0:
            out += "_" * s.int(1, 2)
        out += c
    return out


def digits(s, lo, hi):
    n = s.int(lo, hi)
    k = s.below(6)
    if k == 0:
        return "9" * n
    if k == 1:
        return "0" * n
    return "".join(s.pick("0123456789") for _ in range(n))


def exact(v):
    """Source of the double v without a decimal literal above 2**53."""
    if v == 0:
        return "0"
    m, e = math.frexp(v)
    m = int(m * 2**53)
    e -= 53
    while m % 2 == 0 and e < 0:
        m //= 2
        e += 1
    # halving must stay exact: a denormal has fewer mantissa bits
    return "p2(%s, %d)" % (m, e)


def gen_num(s):
    """-> list of (literal, float value, toNumber text or None)"""
    r = []
    for _ in range(s.int(6, 16)):
        k = s.below(8)
        if k == 0:
            h = "".join(s.pick("0123456789abcdefABCDEF") for _ in range(s.int(1, 13)))
            lit = "0" + s.pick("xX") + under(s, h)
            r.append((lit, float(int(h, 16)), None))
            continue
        ip = digits(s, 1, s.pick([1, 3, 8, 20, 40]))
        while len(ip) > 1 and ip[0] == "0":
            ip = ip[1:]
        fp = digits(s, 1, s.pick([1, 3, 8, 25])) if s.below(2) else ""
        ex = ""
        if s.below(3) == 0:
            e = s.pick([s.int(-12, 12), s.int(-300, 290), s.int(-30, 30)])
            if len(ip) + e > 300 or e - 50 < -330:
                e = s.int(-5, 5)
            ex = s.pick("eE") + (s.pick(["", "+"]) if e >= 0 else "-") + str(abs(e))
        text = ip + ("." + fp if fp else "") + ex
        v = float(text)
        if v != 0 and (v < 1e-290 or v > 1e300):
            continue
        lit = under(s, ip) + ("." + under(s, fp) if fp else "") + ex
        r.append((lit, v, text))
    return r


def check_num(case, ctx):
    if any("e" in x[0] or "." in x[0] for x in case):
        ctx.nontrivial([x[0] for x in case])
    src, out = PRE, []
    for i in range(0, len(case), 6):
        src += "def g%d() {\n" % i
        for lit, v, text in case[i:i + 6]:
            e = exact(v)
            src += "print(%s); print(%s == %s); print(-%s == 0 - %s);" % (lit, lit, e, lit, e)
            out += [V.fmt(v), "true", "true"]
            if text is not None:
                src += 'ok(1, "%s", %s); ok(1, "-%s", 0 - %s);\n' % (text, e, text, e)
                out += ["true", "true", "true", "true"]
                if len(V.fmt(v)) <= 16 and float(V.fmt(v)) == v:
                    src += "{ const x = %s; ok(1, x.toString(), x); }\n" % lit
                    out += ["true", "true"]
        src += "}\ng%d();\n" % i
    ctx.expect(src, out)


BAD = ["", " ", "x", "abc", "1x", "1 ", "--1", "+-1", "1e", "1e+", "1..2", "1.2.3", ".", "-", "+", "e5", "1,5", "1 2", "\t", "five", "$5", "5%", "- 1", "1-", "()", "true", "nil", "[1]", "1;", "#1", "1e5x", "0.0.", "'1'"]


def gen_bad(s):
    r = []
    for _ in range(s.int(4, 10)):
        t = s.pick(BAD)
        if s.below(3) == 0:
            t = "".join(s.pick("0123456789.-+e xyz") for _ in range(s.int(1, 7)))
        if s.below(4) == 0:
            t = str(s.below(1000)) + s.pick(["q", " ", "..", "px", "%", ",", "e", "-", "+1", "_"])
        try:
            float(t.lstrip())
            if t.strip() == t.lstrip() and "_" not in t:
                continue
            if "_" in t:
                pass
        except ValueError:
            pass
        if "x" in t and t.lstrip(" -+").startswith("0x"):
            continue
        r.append(t)
    return r


def check_bad(case, ctx):
    if case:
        ctx.nontrivial(case)
    src, out = PRE, []
    for t in case:
        src += "ok(1, %s, nil);\n" % V.lit(t)
        out += ["false", "true"]
    ctx.expect(src, out)


# -- layout -----------------------------------------------------------------
SNIPS = [("var @ = 3 ; @ += 4 ; print ( @ ) ;", ["7"]),
         ("var @ = [ 1 , 2 , 3 ] ; print ( @ [ 1 : ] ) ; print ( @ [ - 1 ] ) ;", ["[2, 3]", "3"]),
         ("def @ ( a , b = 2 ) { return a * b ; } print ( @ ( 4 ) ) ; print ( @ ( 4 , 5 ) ) ;", ["8", "20"]),
         ("class @ { init ( var x ) { } get ( ) { return this . x ; } } print ( @ ( 9 ) . get ( ) ) ;", ["9"]),
         ("if ( 1 < 2 and not false ) { print ( 'y' ) ; } else { print ( 'n' ) ; }", ["y"]),
         ("for ( var i = 0 ; i < 3 ; i += 1 ) { if ( i == 1 ) { continue ; } print ( i ) ; }", ["0", "2"]),
         ("var @ = { 'a' : 1 , 'b' : [ 2 ] } ; print ( @ [ 'b' ] ) ;", ["[2]"]),
         ("var @ = 0 ; while ( @ < 5 ) { @ += 2 ; } print ( @ ) ;", ["6"]),
         ("switch ( 2 ) { case 1 , 2 : { print ( 'one' ) ; } default : { print ( 'd' ) ; } }", ["one"]),
         ("print ( 7 / 2 ) ; print ( 2 ** 3 ** 1 ) ; print ( 5 & 6 | 1 ^ 2 ) ;", ["3.5", "8", str(5 & 6 | 1 ^ 2)]),
         ("var @ = def ( x ) => x + 1 ; print ( @ ( 1 ) ) ;", ["2"]),
         ("print ( nil ?. foo ) ; print ( true ? 'a' : 'b' ) ;", ["nil", "a"]),
         ("enum @ { a , b } print ( @ . b ) ;", ["1"]),
         ("const @ = ' // not /* a comment */ # ' ; print ( @ ) ;", None),
         ("def @ ( ... a ) { return a . len ( ) ; } print ( @ ( 1 , 2 , 3 ) ) ; print ( @ ( ... [ 1 , 2 ] ) ) ;", ["3", "2"])]
COMM = ["/* x */", "/**/", "/***/", "/* ** / */", "/* \" ' */", "/* // */", "/*\n*/", "/* /* */", "/* a\n * b\n **/"]
LINE = ["// c\n", "//\n", "// \" unbalanced ' (\n", "// /* \n", "// */ \n", "#!shebang /* \n", "//// x // y\n", "// é\r\n"]


def tokens(t):
    """Split on blanks outside quotes."""
    out, cur, q = [], "", False
    for c in t:
        if c == "'":
            q = not q
        if c == " " and not q:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    return out + ([cur] if cur else [])


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")
GLUE = {"+", "-", "*", "/", "<", ">", "=", "!", "&", "|", "^", "?", ".", "#"}


def gen_layout(s):
    src, out, com = "", [], 0

    def sep(a, b):
        nonlocal com
        r = s.below(10)
        t = ""
        must = (a[-1:] in WORD and b[:1] in WORD) or (a[-1:] in GLUE and b[:1] in GLUE) or a[-1:] in WORD and b[:1] in "'\"" and a == "r"
        must = must or (a[-1:].isdigit() and b[:1] == ".") or (a[-1:] == "." and b[:1].isdigit())
        for _ in range(s.below(3)):
            k = s.below(6)
            if k <= 2:
                t += s.pick([" ", "  ", "\t", "\n", "\r\n", "\n\n"])
            elif k == 3:
                com += 1
                t += s.pick(COMM)
            elif k == 4:
                com += 1
                t += s.pick(LINE)
            elif s.below(8) == 0:
                t += " " * s.int(50, 300) + "\n" * s.below(300)
        if (must or a[-1:] in "/*" or b[:1] in "/*") and not t:
            t = " "
        if t[:1] == "/" and a[-1:] in "/*":
            t = " " + t
        if r == 0 and not t:
            t = " "
        return t
    prev = ""
    for i in range(s.int(2, 8)):
        sn, o = s.pick(SNIPS)
        if o is None:
            o = [sn.split("'")[1]]
        for tk in tokens(sn.replace("@", "n%d" % i)):
            src += sep(prev, tk) + tk
            prev = tk
        out += o
    src += sep(prev, "") + s.pick(["", "\n", "// end", "/* end */", "#! end"])
    return src, out, com


def check_layout(case, ctx):
    src, out, com = case
    if com >= 2:
        ctx.nontrivial(src)
    ctx.expect(src, out)


def parts():
    return [Part("strings", gen_str, check_str, 6000), Part("numbers", gen_num, check_num, 6000),
            Part("not numbers", gen_bad, check_bad, 2000), Part("layout", gen_layout, check_layout, 6000)]
