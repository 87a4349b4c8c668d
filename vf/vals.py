"""Dictu values on the Python side: literals, rendering, typed equality."""
import math


def fmt(x):
    """Number rendering: %.15g."""
    if isinstance(x, bool):
        raise TypeError
    if x != x:
        return "-nan" if math.copysign(1, x) < 0 else "nan"
    if isinstance(x, int):
        x = float(x)
    return "%.15g" % x


ESC = {"\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"'}


def qlit(s):
    return '"' + "".join(ESC.get(c, c) for c in s) + '"'


class SetV:
    """A Dictu set (identity semantics on the Python side)."""

    def __init__(self, items=()):
        self.d = {}
        for i in items:
            self.d[key(i)] = i

    def items(self):
        return list(self.d.values())


class DictV:
    def __init__(self, pairs=()):
        self.d = {}
        for k, v in pairs:
            self.d[key(k)] = (k, v)

    def items(self):
        return list(self.d.values())


def key(v):
    """Hashable identity of an immutable value (types never collide)."""
    if v is None:
        return ("n",)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return ("d", float(v) + 0.0)
    if isinstance(v, str):
        return ("s", v)
    raise TypeError(v)


def eq(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, DictV) or isinstance(b, DictV):
        return (isinstance(a, DictV) and isinstance(b, DictV) and a.d.keys() == b.d.keys()
                and all(eq(a.d[k][1], b.d[k][1]) for k in a.d))
    if isinstance(a, SetV) or isinstance(b, SetV):
        return isinstance(a, SetV) and isinstance(b, SetV) and a.d.keys() == b.d.keys()
    return key(a) == key(b)


def lit(v):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        r = repr(v)
        if "e" in r or "n" in r:
            r = format_plain(v)
        return r
    if isinstance(v, str):
        return qlit(v)
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, DictV):
        return "{" + ", ".join(lit(k) + ": " + lit(x) for k, x in v.items()) + "}"
    if isinstance(v, SetV):
        return "set(" + ", ".join(lit(x) for x in v.items()) + ")"
    raise TypeError(v)


def format_plain(v):
    """Decimal spelling without an exponent, exact round trip."""
    from decimal import Decimal
    s = format(Decimal(repr(v)), "f")
    return s


def show(v, nested=False):
    """What print shows; dict and set order as inserted (compare unordered)."""
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return fmt(v)
    if isinstance(v, str):
        return '"' + v + '"' if nested else v
    if isinstance(v, list):
        return "[" + ", ".join(show(x, True) for x in v) + "]"
    if isinstance(v, DictV):
        return "{" + ", ".join(show(k, True) + ": " + show(x, True) for k, x in v.items()) + "}"
    if isinstance(v, SetV):
        return "{" + ", ".join(show(x, True) for x in v.items()) + "}"
    raise TypeError(v)


def typ(v):
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, float)):
        return "number"
    return {str: "string", list: "list", DictV: "dict", SetV: "set"}[type(v)]


def truthy(v):
    if v is None or v is False:
        return False
    if v is True:
        return True
    if isinstance(v, (int, float)):
        return v != 0
    if isinstance(v, (str, list)):
        return len(v) > 0
    return len(v.d) > 0


# -- reading printed values back ------------------------------------------
class Parse(Exception):
    pass


def parse_shown(s):
    """Parse a printed value whose strings contain no double quote.

    Numbers stay text.  Returns nested ('d',(k,v)...)/('set',...)/lists."""
    pos = [0]

    def val():
        i = pos[0]
        if i >= len(s):
            raise Parse(s)
        c = s[i]
        if c == '"':
            j = s.index('"', i + 1)
            pos[0] = j + 1
            return ("str", s[i + 1:j])
        if c == "[":
            pos[0] += 1
            out = []
            if s[pos[0]] == "]":
                pos[0] += 1
                return ("list", tuple(out))
            while True:
                out.append(val())
                if s.startswith(", ", pos[0]):
                    pos[0] += 2
                    continue
                if s[pos[0]] == "]":
                    pos[0] += 1
                    return ("list", tuple(out))
                raise Parse(s)
        if c == "{":
            pos[0] += 1
            out = []
            isd = None
            if s[pos[0]] == "}":
                pos[0] += 1
                return ("brace", ())
            while True:
                k = val()
                if s.startswith(": ", pos[0]):
                    pos[0] += 2
                    out.append((k, val()))
                    isd = True
                else:
                    out.append(k)
                if s.startswith(", ", pos[0]):
                    pos[0] += 2
                    continue
                if s[pos[0]] == "}":
                    pos[0] += 1
                    return ("dict" if isd else "set", tuple(sorted(out, key=repr)))
                raise Parse(s)
        j = i
        while j < len(s) and s[j] not in ",]}:":
            j += 1
        if j == i:
            raise Parse(s)
        pos[0] = j
        return ("atom", s[i:j])
    v = val()
    if pos[0] != len(s):
        raise Parse(s)
    return v


def norm(v):
    """The parse_shown form of a model value."""
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, list):
        return ("list", tuple(norm(x) for x in v))
    if isinstance(v, DictV):
        return ("dict", tuple(sorted(((norm(k), norm(x)) for k, x in v.items()), key=repr))) if v.d else ("brace", ())
    if isinstance(v, SetV):
        return ("set", tuple(sorted((norm(x) for x in v.items()), key=repr))) if v.d else ("brace", ())
    return ("atom", show(v))


# -- generators ------------------------------------------------------------
WORDS = ["a", "b", "ab", "abc", "key", "x y", "", "0", "1", "nil", "true", "Z", "é", "long string value here", "aa", "ba"]


def gen_str(s):
    k = s.below(6)
    if k <= 3:
        return s.pick(WORDS)
    return s.text("abcxyzXYZ012 _-é", 0, 12, 4)


def gen_num(s):
    k = s.below(8)
    if k <= 3:
        return s.int(0, 9)
    if k == 4:
        return s.int(-20, 20)
    if k == 5:
        return s.int(-1000000, 1000000)
    if k == 6:
        return s.int(-400, 400) / 8
    return s.pick([255, 256, 65535, 65536, 2147483647, 2147483648, -2147483648, 1e15, 0.1, -0.5, 1e-7, 123456.789, 4294967296])


def gen_scalar(s):
    k = s.below(10)
    if k <= 3:
        return gen_num(s)
    if k <= 7:
        return gen_str(s)
    if k == 8:
        return s.pick([False, True])
    return None


def gen_value(s, depth=2):
    if depth <= 0 or s.below(4):
        return gen_scalar(s)
    k = s.below(4)
    if k <= 1:
        return [gen_value(s, depth - 1) for _ in s.many(0, 4, 2)]
    if k == 2:
        return DictV([(gen_scalar(s), gen_value(s, depth - 1)) for _ in s.many(0, 4, 2)])
    return SetV([gen_scalar(s) for _ in s.many(0, 4, 2)])
