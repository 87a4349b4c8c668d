"""Base64, SHA-256, HMAC-SHA-256 and bcrypt against independent implementations (Python base64/hashlib/hmac, libcrypt)."""
import base64, hashlib, hmac, warnings
from ..core import Part
from .. import vals as V
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        import crypt
    except ImportError:      # pragma: no cover
        crypt = None

RULE = ("byte strings of 0-5000 bytes, lengths concentrated on the block and padding edges (0-3, 55-57, 63-65, 119-129), "
        "random, repeated and all-same bytes incl. NUL and >127, built as literals or by concatenation; keys of 0-200 bytes; "
        "malformed Base64 decoded under the address sanitizer; non-trivial = a length within 1 of a block or padding edge, or "
        "a byte outside ASCII")

EDGE = [0, 1, 2, 3, 4, 5, 6, 54, 55, 56, 57, 62, 63, 64, 65, 66, 111, 112, 118, 119, 120, 121, 127, 128, 129, 191, 192, 193, 255, 256, 257]


def data(s, edges=EDGE, big=True):
    k = s.below(6)
    n = s.pick(edges) if k <= 3 else s.int(0, 300) if k == 4 or not big else s.pick([1000, 1023, 1024, 4095, 4096, 4097, 5000])
    k = s.below(5)
    if k == 0:
        return bytes([s.pick([0, 1, 65, 97, 127, 128, 255])]) * n
    if k == 1:
        w = s.text("abcdefgh XYZ019_", 1, 9, 4).encode()
        return (w * (n // len(w) + 1))[:n]
    a, b = s.int(0, 255), s.int(0, 255)
    if k == 2:
        return bytes((a + i * b) % 256 for i in range(n))
    x, out = s.below(1 << 31) * 2 + 1, bytearray()
    for _ in range(n):
        x = (x * 1103515245 + 12345) % (1 << 32)
        out.append(x >> 16 & 255)
    if k == 3:
        return bytes(32 + c % 95 for c in out)
    return bytes(out)


def lit(b):
    out = []
    for c in b:
        if c in b'"\\' or c < 32 or c > 126:
            out.append("\\x%02x" % c)
        else:
            out.append(chr(c))
    return '"' + "".join(out) + '"'


def expr(s, b):
    if len(b) > 1 and s.below(4) == 0:
        k = s.int(1, len(b) - 1)
        return "(%s + %s)" % (lit(b[:k]), lit(b[k:]))
    return lit(b)


def gen(s):
    lines, want, nt = ["import Base64; import Hashlib; var a; var b;"], [], False
    for _ in s.many(3, 14, 7):
        f = s.weighted([(4, "b64"), (3, "b64dec"), (5, "sha"), (5, "hmac"), (1, "hmacraw"), (1, "verify"), (1, "chain")])
        s.label("fn:" + f)
        m = data(s)
        nt |= len(m) in EDGE or any(c > 126 for c in m)
        if f == "b64":
            e = base64.b64encode(m).decode()
            lines.append("a = Base64.encode(%s); print(a); print(Base64.decode(a) == %s); print(Base64.decode(a).len());" % (expr(s, m), lit(m)))
            want += [e, "true", str(len(m))]
        elif f == "b64dec":
            e = base64.b64encode(m).decode()
            lines.append("b = Base64.decode(%s); print(b == %s); print(b.len()); print(Base64.encode(b) == %s);" % (V.lit(e), lit(m), V.lit(e)))
            want += ["true", str(len(m)), "true"]
        elif f == "sha":
            lines.append("print(Hashlib.sha256(%s));" % expr(s, m))
            want.append(hashlib.sha256(m).hexdigest())
        elif f in ("hmac", "hmacraw"):
            k = data(s, big=False)
            h = hmac.new(k, m, hashlib.sha256)
            nt |= len(k) in (0, 63, 64, 65)
            if f == "hmac":
                lines.append("print(Hashlib.hmac(%s, %s%s));" % (expr(s, k), expr(s, m), s.pick(["", ", false"])))
                want.append(h.hexdigest())
            else:
                lines.append("a = Hashlib.hmac(%s, %s, true); print(a.len()); print(a == %s);" % (expr(s, k), expr(s, m), lit(h.digest())))
                want += ["32", "true"]
        elif f == "verify":
            k = s.below(4)
            o = bytearray(m)
            if k == 1 and o:
                o[s.below(len(o))] ^= 1 << s.below(8)
            elif k == 2:
                o += b"x"
            elif k == 3 and o:
                o[-1] ^= 128
            lines.append("print(Hashlib.verify(%s, %s)); print(Hashlib.verify(%s, %s));" % (expr(s, m), lit(bytes(o)), lit(bytes(o)), expr(s, m)))
            want += [V.show(bytes(o) == m)] * 2
        else:
            h = hashlib.sha256(m).hexdigest()
            h2 = hashlib.sha256(base64.b64encode(h.encode())).hexdigest()
            lines.append("print(Hashlib.sha256(Base64.encode(Hashlib.sha256(%s))));" % expr(s, m))
            want.append(h2)
    return lines, want, nt


def check(case, ctx):
    lines, want, nt = case
    if nt:
        ctx.nontrivial(lines)
    ctx.expect_items("\n".join(lines) + "\n", want)


def gen_malformed(s):
    out = []
    for _ in s.many(2, 12, 6):
        k = s.below(3)
        if k == 0:
            t = s.text("ABab01+/=", 0, 14, 6)
        elif k == 1:
            e = base64.b64encode(data(s, big=False)[:60]).decode()
            i = s.below(len(e) + 1)
            t = e[:i] + s.pick(["", "=", "==", "*", "\n", " ", "A", "====", "\xff"]) + e[i + s.below(3):]
        else:
            t = base64.b64encode(data(s, big=False)[:40]).decode().rstrip("=")[:-1 - s.below(3)]
        out.append(t)
    return out


def check_malformed(case, ctx):
    if any(len(t) % 4 or "=" in t[:-2] for t in case):
        ctx.nontrivial(case)
    src = "import Base64;\n"
    for t in case:
        src += "print(Base64.decode(%s).len() <= %d);\n" % (lit(t.encode("latin1")), len(t))
    ctx.expect_items(src, ["true"] * len(case))


PW = ["", "a", "password", "pass word", "é", "x" * 71, "x" * 72, "y" * 73, "z" * 100, "correct horse battery staple", "\x7f", "0"]


def gen_bcrypt(s):
    pw = s.pick(PW) if s.below(2) else s.text("abcXYZ 019!é$./", 0, 30, 8)
    other = s.pick([pw + "x", pw[:-1], pw.upper(), pw.lower(), "", s.pick(PW)])
    return pw, other, s.pick([4, 4, 4, 5, 1, 0, -3])


def check_bcrypt(case, ctx):
    pw, other, rounds = case
    ctx.nontrivial(case)
    cut = lambda t: t.encode()[:72]
    same = cut(pw) == cut(other)
    known = crypt.crypt(pw, "$2b$04$abcdefghijklmnopqrstuu") if crypt else None
    src = ('import Hashlib; const h = Hashlib.bcrypt(%s, %d); print(h); print(Hashlib.bcryptVerify(%s, h)); print(Hashlib.bcryptVerify(%s, h));'
           'print(Hashlib.bcryptVerify(%s, "wrong")); print(Hashlib.bcryptVerify(%s, "")); print(Hashlib.bcryptVerify(%s, h + "x"));'
           'print(Hashlib.bcryptVerify(%s, h[0:h.len() - 1]));' % ((V.lit(pw), rounds) + tuple(V.lit(x) for x in (pw, other, pw, pw, pw, pw))))
    if known:
        src += "print(Hashlib.bcryptVerify(%s, '%s')); print(Hashlib.bcryptVerify(%s, '%s'));" % (V.lit(pw), known, V.lit(other), known)
    r = ctx.run(src + "\n", cpu=20)
    ctx.alive(r)
    ctx.status(r)
    lines = r.out.decode("utf-8", "replace").split("\n")
    import re
    h = lines[0]
    if not re.fullmatch(r"\$2b\$%02d\$[./A-Za-z0-9]{53}" % max(rounds, 4), h):
        ctx.fail("bcrypt", "malformed hash %r" % h)
    if crypt and crypt.crypt(pw, h[:29]) != h:
        ctx.fail("bcrypt", "hash %r of %r is not the bcrypt hash %r" % (h, pw, crypt.crypt(pw, h[:29])))
    want = ["true", V.show(same), "false", "false"]
    if lines[1:5] != want:
        ctx.fail("bcrypt", "verification gave %r, expected %r" % (lines[1:5], want))
    if lines[6] != "false":
        ctx.fail("bcrypt", "a truncated hash was accepted")
    if known and lines[7:9] != ["true", V.show(same)]:
        ctx.fail("bcrypt", "verification against %s gave %r, expected %r" % (known, lines[7:9], ["true", V.show(same)]))


def gen_bad(s):
    steps = [("import Base64; import Hashlib;", [], False)]
    for _ in s.many(3, 10, 5):
        f, ok = s.pick([("Base64.encode", 1), ("Base64.decode", 1), ("Hashlib.sha256", 1), ("Hashlib.hmac", 2), ("Hashlib.verify", 2),
                        ("Hashlib.bcryptVerify", 2), ("Hashlib.bcrypt", 1)])
        bad = s.pick(["1", "nil", "true", "[]", "{}"])
        k = s.below(3)
        if k == 0:
            a = ", ".join(['"a"'] * (ok - 1))
        elif k == 1:
            a = ", ".join(['"a"'] * (4 if f == "Hashlib.hmac" else 3 if f == "Hashlib.bcrypt" else ok + 1))
        else:
            xs = ['"a"'] * ok
            xs[s.below(ok)] = bad
            a = ", ".join(xs)
        steps.append(("print(%s(%s));" % (f, a), [], True))
        if s.below(3) == 0:
            steps.append(('print(Base64.encode("test"));', ["dGVzdA=="], False))
    return steps


def check_bad(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def parts():
    return [Part("values", gen, check, 5000), Part("malformed", gen_malformed, check_malformed, 1500),
            Part("bcrypt", gen_bcrypt, check_bcrypt, 250), Part("errors", gen_bad, check_bad, 600)]
