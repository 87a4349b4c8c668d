"""IPv4 addresses parsed from generated texts, and what Term says about descriptors that are or are not a terminal of a generated size."""
import socket

from .. import vals as V
from ..core import Part

VARIANTS = ["asan"]
TECHNIQUE = ("differential property testing: generated address texts against the C library's inet_pton through Python's socket module; generated terminals "
             "(pseudo-terminals of any size on any of the standard descriptors) against the size they were given; with shrinking")
RULE = ("(ip4) 1-30 texts per program: addresses from four octets of every magnitude, and the same with an octet too large, empty, signed, padded with zeros or "
        "blanks, in another base, with too few or too many parts, other separators, or random text over the same alphabet; "
        "(term) every choice of standard descriptors being a terminal, rows, columns and pixels over 0..65535, asked in any order, with other descriptors and files "
        "asked about too; non-trivial = a text that is an address with an octet of two or more digits, or at least one descriptor a terminal")


def gen_octet(s):
    k = s.below(5)
    if k == 0:
        return s.int(0, 9)
    if k == 1:
        return s.int(10, 99)
    if k == 2:
        return s.int(100, 255)
    if k == 3:
        return s.pick([0, 255, 254, 127, 128, 1, 10, 100, 200])
    return s.int(0, 255)


def gen_address(s):
    o = [str(gen_octet(s)) for _ in range(4)]
    k = s.below(14)
    if k < 6:
        pass
    elif k == 6:
        o[s.below(4)] = s.pick(["256", "257", "300", "999", "1000", "00", "01", "010", "0255", "65536", "4294967297", "18446744073709551617"])
    elif k == 7:
        o[s.below(4)] = s.pick(["", " ", "-1", "+1", "0x1", "1e1", "a", "1a", "a1", " 1", "1 ", "\t1", "1\n", "\u0661", "*", "1/8"])
    elif k == 8:
        for _ in s.many(1, 4, 2):
            o.append(str(gen_octet(s)))
    elif k == 9:
        o = o[:s.below(4)]
    elif k == 10:
        return s.pick([",", ":", "..", " ", "-", ". ", ""]).join(o)
    elif k == 11:
        t = ".".join(o)
        return s.pick(["%s.", ".%s", " %s", "%s ", "%s\n", "%s/24", "%s:80", "::ffff:%s", "\n%s", "%sx"]) % t
    elif k == 12:
        return s.pick(["", ".", "...", "::1", "localhost", "2130706433", "0x7f000001", "127.1", "1.2.3", "::", "256.256.256.256", "1..2.3", "1.2.3.4.", "....", "1" * 3000,
                       ".".join(["1"] * 2000)])
    else:
        return s.text("0123456789.. x-", 0, 16, 7)
    return ".".join(o)


def expected(t):
    try:
        return list(socket.inet_pton(socket.AF_INET, t))
    except (OSError, UnicodeError):
        return None


def gen_ip4(s):
    return [gen_address(s) for _ in s.many(1, 30, 8)], s.below(3)


def check_ip4(case, ctx):
    texts, how = case
    src, items = ["import Net;"], []
    for i, t in enumerate(texts):
        e = expected(t)
        x = V.qlit(t)
        if how == 0:
            src.append("{ const r = Net.parseIp4(%s); print(r.success()); if (r.success()) print(r.unwrap()); else print(type(r.unwrapError())); }" % x)
            items += ["true", V.show(e)] if e is not None else ["false", "string"]
        elif how == 1:
            src.append('print(Net.parseIp4(%s).match(def (x) => x.map(def (y) => y + 1), def (x) => "none"));' % x)
            items.append(V.show([y + 1 for y in e]) if e is not None else "none")
        else:
            # the list is the program's own
            src.append('Net.parseIp4(%s).match(def (l) => { l.push(-1); l[0] = l.len(); print(l); }, def (x) => { print(x.len() > 0); });' % x)
            src.append('Net.parseIp4(%s).match(def (l) => { print(l == %s); }, def (x) => { print(type(x)); });' % (x, V.lit(e)))
            items += [V.show([5] + e[1:] + [-1]), "true"] if e is not None else ["true", "string"]
        if e is not None and max(e) > 9:
            ctx.nontrivial(t)
        ctx.label("address" if e is not None else "no address")
    src.append("print([Net.ip4Len, Net.ip6Len]);")
    items.append("[4, 16]")
    ctx.expect_items("\n".join(src) + "\n", items)


# -- terminals ----------------------------------------------------------------
def gen_size(s):
    return s.pick([0, 1, 24, 80, 145, 255, 256, 32767, 32768, 65535]) if s.below(2) else s.int(0, 65535)


def gen_term(s):
    mask = s.below(8)
    dims = [gen_size(s) for _ in range(4)]
    steps = []
    for _ in s.many(1, 8, 4):
        k = s.below(6)
        steps.append(("size", None) if k < 2 else ("key", s.below(4)) if k == 2 else ("tty", s.pick([0, 1, 2, 0, 1, 2, 3, 7, 63, 99, -1, 1000, 1e6])) if k < 5 else ("file", None))
    return mask, dims, steps


KEYS = ["rows", "columns", "horizontal_pixels", "vertical_pixels"]


def check_term(case, ctx):
    mask, dims, steps = case
    seen = dims if mask & 1 else [0] * 4
    src, want = ["import Term;", 'const l = [];'], []
    for k, a in steps:
        ctx.label(k)
        if k == "size":
            src.append("{ const d = Term.getSize(); l.push([%s]); l.push(d.len()); }" % ", ".join('d["%s"]' % x for x in KEYS))
            want += [list(seen), 4]
        elif k == "key":
            src.append('l.push(Term.getSize()["%s"]);' % KEYS[a])
            want.append(seen[a])
        elif k == "tty":
            src.append("l.push(Term.isatty(%s));" % V.lit(a))
            want.append(a in (0, 1, 2) and bool(mask >> a & 1))
        else:
            src.append('with("r", "r") { l.push(Term.isatty(3)); }')
            want.append(False)
    # standard output may be the terminal: the answers go to a file
    src.append('with("o", "w") { file.write(l.toString()); }')
    text = "\n".join(src) + "\n"
    if mask:
        ctx.nontrivial(repr(case))
    ctx.label("terminals %d" % bin(mask).count("1"))
    r = ctx.run(text, tree={"r": b"x", "o": b""}, env=("VF_TTY=%d %d %d %d %d" % ((mask,) + tuple(dims)),) if mask else ())
    ctx.alive(r)
    ctx.status(r)
    got = r.tree.get("o", r.tree.get(b"o"))
    if got != V.show(want).encode():
        ctx.fail("answers", "descriptors %s are a terminal of size %r; the program recorded %r, expected %r" % ([f for f in range(3) if mask >> f & 1], dims, got, V.show(want)))


def parts():
    return [Part("ip4", gen_ip4, check_ip4, 3000), Part("term", gen_term, check_term, 1500)]
