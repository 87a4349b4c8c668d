"""JSON both ways against Python's strict json module, plus round trips and rejected texts."""
import json, math
from ..core import Part
from .. import vals as V

RULE = ("(out) a nested value of nil, booleans, numbers of every magnitude, strings with control, quote, NUL, non-ASCII characters, lists "
        "and dictionaries up to depth 6, stringified in one line and with 0-7 spaces: Python's strict parser must read it as that "
        "value, the layout must be exact, parse must give it back; (in) a JSON text drawn from the grammar with every escape, "
        "surrogate pairs, number spelling and whitespace; (bad) such a text with 1-3 edits, or a value with no JSON form; "
        "non-trivial = nesting of at least 2 with an escape or a number that is not a small integer, or an edited text")

CH = ['"', "\\", "/", "\b", "\f", "\n", "\r", "\t", "\0", "\x01", "\x1f", "\x7f", " ", "a", "Z", "0", "{", "}", "[", "]", ",", ":", "'",
      "é", "ß", "\u0800", "\u20ac", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "u", "n", "\u07ff", "\ud7ff", "\ue000"]


def slit(t):
    out = ""
    for c in t:
        if c in "\\\"":
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 0x20 or c == "\x7f":
            out += "\\x%02x" % ord(c)
        else:
            out += c
    return '"' + out + '"'


def gen_str(s):
    if s.below(3) == 0:
        return s.pick(["", "a", "key", "true", "null", "1", "a b", "\\u0041", "\\", '"'])
    n = s.weighted([(6, 4), (3, 12), (1, 60)])
    return "".join(s.pick(CH) for _ in range(s.int(0, n)))


def gen_num(s):
    k = s.below(9)
    if k < 2:
        return s.int(-20, 20)
    if k == 2:
        return s.int(-10 ** 9, 10 ** 9) / s.pick([1, 2, 4, 8, 10, 100, 1000, 3])
    if k == 3:
        return s.pick([2 ** 53, -2 ** 53, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 53 - 1, 10 ** 15, 10 ** 16, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 1e21, 1e300,
                       2.0 ** 62, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.1, 0.2, 1 / 3, 100.0, 123456.789, 0.0001, 0.00001, 1e15, 1e16, 1e17])
    if k == 4:
        return math.ldexp(s.below(2 ** 53), s.int(-60, 60))
    if k == 5:
        return math.ldexp(s.below(2 ** 53) + 1, s.int(-1000, 900))
    if k == 6:
        return -math.ldexp(s.below(2 ** 40) + 1, s.int(-80, 10))
    if k == 7:
        return s.below(10 ** 6) / 10 ** s.int(0, 9)
    return s.int(-2 ** 53, 2 ** 53)


def gen_val(s, depth, room=None):
    """room: how many more constants the program can hold."""
    room = room or [110]
    k = s.below(10)
    room[0] -= 1
    if depth <= 0 or k < 5 or room[0] < 10:
        return s.weighted([(1, 0), (2, 1), (4, 2), (4, 3)]) and s.pick([gen_num, gen_str])(s) if s.below(3) else s.pick([None, True, False])
    n = s.pick([0, 1, 2, 3, 5, 9])
    if k < 8:
        return [gen_val(s, depth - 1, room) for _ in range(n)]
    room[0] -= n
    return {gen_str(s): gen_val(s, depth - 1, room) for _ in range(n)}


def num(x):
    if x == math.inf:
        return "(1 / 0)"
    if x == -math.inf:
        return "(-1 / 0)"
    return V.lit(x)


def lit(v):
    if isinstance(v, str):
        return slit(v)
    if isinstance(v, bool) or v is None:
        return V.lit(v)
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    return "{" + ", ".join(lit(k) + ": " + lit(x) for k, x in v.items()) + "}"


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return float(a) == float(b)


def depth(v):
    if isinstance(v, list):
        return 1 + max([depth(x) for x in v], default=0)
    if isinstance(v, dict):
        return 1 + max([depth(x) for x in v.values()], default=0)
    return 0


def special(v):
    if isinstance(v, str):
        return any(c in '"\\' or ord(c) < 32 or ord(c) > 126 for c in v)
    if isinstance(v, list):
        return any(map(special, v))
    if isinstance(v, dict):
        return any(map(special, v)) or any(map(special, v.values()))
    return isinstance(v, float) or (isinstance(v, int) and abs(v) > 1000)


class Raw(str):
    pass


def strict(text):
    """Python's parser without its extensions; ValueError when it is not JSON."""
    def no(x):
        raise ValueError(x)
    v = json.loads(text, parse_constant=no)
    json.dumps(v, ensure_ascii=False).encode("utf-8")      # an unpaired surrogate cannot be held by a string
    return v


def layout(text, indent):
    """The text re-rendered from its own tokens (keys, numbers and strings as spelled) in the documented layout."""
    p = [0]

    def token():
        import re
        m = re.compile(r'"(?:[^"\\]|\\.)*"|[-+.0-9eE]+|true|false|null|[][{},:]').match(text, p[0])
        if not m:
            raise ValueError
        p[0] = m.end()
        while p[0] < len(text) and text[p[0]] in " \n":
            p[0] += 1
        return m.group()

    def value(t, d):
        if t not in "[{":
            return t
        close = {"[": "]", "{": "}"}[t]
        items = []
        x = token()
        if x == close:
            return t + close
        while True:
            if t == "{":
                token()
                items.append(x + ": " + value(token(), d + 1))
            else:
                items.append(value(x, d + 1))
            if token() == close:
                break
            x = token()
        if indent is None:
            return t + ", ".join(items) + close
        pad = "\n" + " " * (indent * (d + 1))
        return t + pad + ("," + pad).join(items) + "\n" + " " * (indent * d) + close

    return value(token(), 0)


def gen_out(s):
    return gen_val(s, s.int(1, 6)), s.pick([None, 0, 1, 2, 3, 4, 7]), s.below(10) == 0


def check_out(case, ctx):
    v, ind, stress = case
    if depth(v) >= 2 and special(v):
        ctx.nontrivial([lit(v), ind])
    a = "" if ind is None else ", %d" % ind
    src = ("import JSON; const v = %s; const t = JSON.stringify(v%s).unwrap(); print(JSON.parse(t).unwrap() == v); "
           "print(JSON.parse(JSON.stringify([v, v]).unwrap()).unwrap()[1] == v); print(t);\n" % (lit(v), a))
    r = ctx.run(src, "stress" if stress else "asan")
    ctx.alive(r)
    ctx.status(r)
    out = r.out
    if stress and out.endswith(b"Total bytes lost: 0\n"):
        out = out[:-len(b"Total bytes lost: 0\n")]
    head = out[:out.find(b"\n", out.find(b"\n") + 1) + 1]
    if head != b"true\ntrue\n":
        ctx.fail("roundtrip", "parse(stringify(v)) == v printed %r for %s" % (out[:300], lit(v)[:300]))
    try:
        text = out[len(head):-1].decode("utf-8")
        got = strict(text)
    except ValueError as e:
        ctx.fail("invalid", "stringify gave %r, which is not JSON: %s" % (out[:400], e))
    if not same(got, v):
        ctx.fail("value", "stringify of %s gave %r" % (lit(v)[:300], text[:300]))
    try:
        want = layout(text, ind)
    except (ValueError, KeyError):
        want = None
    if want != text:
        ctx.fail("layout", "stringify with indent %r gave %r, expected the layout %r" % (ind, text[:400], want and want[:400]))


WS = ["", "", "", " ", "\n", "\t", "\r", "  ", " \n\t"]


def jstr(s, t):
    out = '"'
    for c in t:
        o = ord(c)
        short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t", "/": "\\/"}
        if c in short and s.below(3):
            out += short[c]
        elif o < 0x20 or c in '"\\' or s.below(4) == 0:
            us = [o] if o < 0x10000 else [0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)]
            out += "".join(("\\u%04x" if s.below(2) else "\\u%04X") % u for u in us)
        else:
            out += c
    return out + '"'


def jnum(s):
    t = "-" if s.below(4) == 0 else ""
    t += "0" if s.below(5) == 0 else s.pick("123456789") + "".join(s.pick("0123456789") for _ in range(s.pick([0, 0, 1, 3, 8, 15, 17, 18, 19, 20, 25, 40])))
    if s.below(2):
        t += "." + "".join(s.pick("0123456789") for _ in range(s.pick([1, 1, 2, 5, 16, 20, 30])))
    if s.below(3) == 0:
        t += s.pick("eE") + s.pick(["", "+", "-"]) + s.pick(["0", "1", "2", "05", "10", "15", "22", "300", "308", "320"])
    return t


def jtext(s, d, room=None):
    w = lambda: s.pick(WS)
    room = room or [110]
    room[0] -= 1
    k = s.below(10)
    if d <= 0 or k < 5 or room[0] < 10:
        x = s.below(7)
        return s.pick(["true", "false", "null"]) if x < 2 else jnum(s) if x < 4 else jstr(s, gen_str(s))
    n = s.pick([0, 1, 1, 2, 3, 6])
    if k < 8:
        return "[" + w() + ",".join(w() + jtext(s, d - 1, room) + w() for _ in range(n)) + "]"
    ks = [gen_str(s) for _ in range(n)]
    room[0] -= n
    if n > 2 and s.below(4) == 0:
        ks[-1] = ks[0]
    return "{" + w() + ",".join(w() + jstr(s, k) + w() + ":" + w() + jtext(s, d - 1, room) + w() for k in ks) + "}"


def gen_in(s):
    return s.pick(WS) + jtext(s, s.int(0, 5)) + s.pick(WS), False, s.below(10) == 0


def gen_edit(s):
    t = s.pick(WS) + jtext(s, s.int(0, 4)) + s.pick(WS)
    for _ in range(s.int(1, 3)):
        k = s.below(6)
        i = s.int(0, len(t))
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + s.pick(list('",:[]{}\\/ -+.eE0123456789tfnu\n\t\'') + ["\0", "\x01", "\x1f", "null", "\\u12", "\\ud800", "\\udc00", "\\ud83d\\ude00", "true", "01", "é", "\xa0", "//", "#", "/**/", "NaN", "Infinity"]) + t[i:]
        elif k == 2:
            t = t[:i]
        elif k == 3:
            j = s.int(0, len(t))
            i, j = min(i, j), max(i, j)
            t = t[:i] + t[j:]
        elif k == 4:
            j = s.int(0, len(t))
            i, j = min(i, j), max(i, j)
            t = t[:j] + t[i:j] + t[j:]
        else:
            t = t[:i] + s.pick(list('",:[]{}\\ -.e05')) + t[i + 1:]
    return t, True, False


def check_in(case, ctx):
    t, edited, stress = case
    try:
        v = strict(t)
        ok = True
    except (ValueError, RecursionError):
        ok = False
    ctx.label("valid" if ok else "invalid")
    if t.startswith("\ufeff"):
        return
    if edited or (ok and depth(v) >= 2 and special(v)):
        ctx.nontrivial(t)
    variant = "stress" if stress else "asan"
    if not ok:
        ctx.expect_items("import JSON; const r = JSON.parse(%s); print(r.success()); print(r.unwrapError());\n" % slit(t), ["false", "Invalid JSON object"], variant=variant)
        return
    inf = lambda v: v in (math.inf, -math.inf) if isinstance(v, float) else any(map(inf, v)) if isinstance(v, list) else any(map(inf, v.values())) if isinstance(v, dict) else False
    src = "import JSON; const v = JSON.parse(%s).unwrap(); print(v == %s); print(type(v)); print(JSON.stringify(v).success());\n" % (slit(t), lit(v))
    ctx.expect_items(src, ["true", {type(None): "nil", bool: "bool", int: "number", float: "number", str: "string", list: "list", dict: "dict"}[type(v)],
                           "false" if inf(v) else "true"], variant=variant)


UNFIT = ["f", "C", "C()", "0 / 0", "1 / 0", "-1 / 0", "set()", "set(1)", "I", "C().m", "E", "JSON"]


def gen_bad(s):
    steps = [("import JSON; class C { m() { return 1; } } def f() { return 1; } trait I { q() { return 1; } } enum E { A, B } var cyc = [1]; cyc.push(cyc); var cyd = {}; cyd['a'] = [cyd];", None, False)]
    for _ in s.many(3, 9, 5):
        k = s.below(6)
        if k < 3:
            v = s.pick(UNFIT + ["cyc", "cyd"])
            for _ in range(s.int(0, 4)):
                v = s.pick(["[%s]", "[1, %s, 'a']", "{'k': %s}", "{'a': 1, 'b': %s}", "[[], %s]"]) % v
            ind = s.pick(["", ", 2", ", 0"])
            steps.append(("print(JSON.stringify(%s%s).success()); print(JSON.stringify(%s).unwrapError());" % (v, ind, v),
                          ["false", "Object is not serializable"], False))
        elif k == 3:
            steps.append((s.pick(["JSON.parse();", "JSON.parse(1);", "JSON.parse(nil);", "JSON.parse([]);", "JSON.parse('1', 2);", "JSON.stringify();", "JSON.stringify(1, 2, 3);",
                                  "JSON.stringify(1, '2');", "JSON.stringify(1, -1);", "JSON.stringify(1, 0 / 0);", "JSON.stringify([], nil);"]), [], True))
        elif k == 4:
            # a value that occurs twice without containing itself is fine
            steps.append(("{ const x = [1, {'k': 2}]; print(JSON.stringify([x, x, [x]]).unwrap()); }", ['[[1, {"k": 2}], [1, {"k": 2}], [[1, {"k": 2}]]]'], False))
        else:
            n = s.pick([1, 10, 100, 400])
            o, c = s.pick([("[", "]"), ('{"a":', "}")])
            steps.append(("print(JSON.stringify(JSON.parse('%s'.repeat(%d) + '1' + '%s'.repeat(%d)).unwrap()).unwrap().replace(' ', '') == '%s'.repeat(%d) + '1' + '%s'.repeat(%d));"
                          % (o, n, c, n, o, n, c, n), ["true"], False))
            steps.append(("print(JSON.parse('%s'.repeat(%d) + '1' + '%s'.repeat(%d)).success());" % (o, n, c, n + s.pick([-1, 1])), ["false"], False))
    return steps


def check_bad(case, ctx):
    ctx.nontrivial([x[0] for x in case])
    ctx.repl(case)


# other key types are spelled as the documentation's tests show
def gen_keys(s):
    ks = {}
    for _ in range(s.int(1, 6)):
        k = s.pick([None, True, False, 1, -3, 1.5, 0, 1000000, 0.1, "a", "x y"])
        t = "null" if k is None else V.show(k)
        ks.setdefault(t, (k, s.int(0, 99)))
    return list(ks.items())


def check_keys(case, ctx):
    ctx.nontrivial(case)
    r = ctx.run("import JSON; print(JSON.stringify({%s}).unwrap());\n" % ", ".join("%s: %d" % (V.lit(k), v) for t, (k, v) in case))
    ctx.alive(r)
    ctx.status(r)
    want = {t: v for t, (k, v) in case}
    try:
        got = strict(r.out.decode())
    except ValueError:
        got = None
    if got != want:
        ctx.fail("keys", "got %r, expected %r" % (r.out, want))


def parts():
    return [Part("out", gen_out, check_out, 3500), Part("in", gen_in, check_in, 3500), Part("edited", gen_edit, check_in, 4000),
            Part("bad", gen_bad, check_bad, 600), Part("keys", gen_keys, check_keys, 300)]
