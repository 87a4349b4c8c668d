"""Buffers against a bytearray model: every value returned, and the whole content after every operation."""
import math, struct
from ..core import Part
from .. import vals as V

RULE = ("a random history of 5-45 operations (get, set, all 25 typed reads and writes, strings, sub-buffers, resize, aliases) on up "
        "to four buffers of 1-40 bytes with offsets inside, at the edges of and outside the buffer, limits of every width, "
        "NaN-free floats and arbitrary bytes; after each operation the whole content is compared; non-trivial = a read "
        "overlapping two writes of different kinds, or an access straddling the end")

INTS = {"Int8": "b", "Int16": "h", "Int32": "i", "Int64": "q", "UInt16": "H", "UInt32": "I", "UInt64": "Q"}
SIZE = {"Int8": 1, "Int16": 2, "UInt16": 2, "Int32": 4, "UInt32": 4, "Int64": 8, "UInt64": 8, "Float": 4, "Double": 8}
STR = ["a", "Dictu!", "0123456789", "é", "x", "", "hello world", "zz", "~"]


def intval(s, t):
    bits = SIZE[t] * 8
    lo, hi = (0, 2 ** bits - 1) if t[0] == "U" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    lo, hi = max(lo, -2 ** 53), min(hi, 2 ** 53)
    k = s.below(5)
    if k == 0:
        return s.pick([lo, hi, 0, 1, max(lo, -1), hi - 1, lo + 1])
    if k == 1:
        return max(lo, min(hi, s.int(-300, 300)))
    return s.int(max(lo, 0), hi) if s.below(2) else s.int(lo, hi)


def fl(x):
    if x == math.inf:
        return "(1 / 0)"
    if x == -math.inf:
        return "(-1 / 0)"
    return V.lit(x)


class G:
    def __init__(self, s, err):
        self.s, self.err = s, err
        self.steps, self.b, self.names = [("import Buffer;", [], False)], {}, []
        self.nt = False
        self.n = 0

    def add(self, line, out, err=False):
        self.steps.append((line, out, err))

    def new(self):
        s = self.s
        n = "b%d" % self.n
        self.n += 1
        if s.below(3):
            size = s.weighted([(4, 8), (3, 1), (3, 2), (3, 4), (3, 16), (2, 40), (1, 3), (1, 7), (1, 9)])
            self.b[n] = [bytearray(size), set()]
            self.add("var %s = Buffer.new(%d).unwrap(); print(%s); print(%s.len());" % (n, size, n, n), ["<Buffer>", str(size)])
        else:
            t = s.pick([x for x in STR if x])
            d = t.encode()
            self.b[n] = [bytearray(d), set()]
            self.add("var %s = Buffer.fromString(%s).unwrap(); print(%s.len());" % (n, V.lit(t), n), [str(len(d))])
        self.names.append(n)

    def off(self, size, width):
        s = self.s
        k = s.below(8)
        if k <= 4 and size >= width:
            return s.int(0, size - width)
        if k == 5:
            return size - width
        if k == 6:
            return s.pick([size - width + 1, size, size + 1, -1, -width, size - 1, 10 ** 9, -10 ** 9, 2 ** 31, 2 ** 32, 2 ** 53, -2 ** 31])
        return s.int(-3, size + 9)

    def op(self):
        s = self.s
        n = s.pick(self.names)
        d, wr = self.b[n]
        size = len(d)
        op = s.weighted([(5, "write"), (5, "read"), (3, "writef"), (3, "readf"), (3, "set"), (2, "get"), (2, "wstr"), (2, "rstr"),
                         (2, "sub"), (2, "resize"), (1, "string"), (1, "bad"), (1, "alias"), (1, "badnew"), (1, "raw")])
        s.label("op:" + op)
        line = None

        def result(expr, v):
            self.add("print([%s.unwrap()]);" % expr, [V.show([v])])

        def refused(expr):
            self.add("print(%s.success());" % expr, ["false"])
        if op in ("write", "read", "writef", "readf"):
            t = s.pick(["Float", "Double"]) if op.endswith("f") else s.pick(list(INTS))
            w = SIZE[t]
            end = "" if t == "Int8" else s.pick(["LE", "BE"])
            o = self.off(size, w)
            fits = 0 <= o and o + w <= size
            if not fits:
                self.nt |= o >= 0 and o < size
            e = ">" if end == "BE" else "<"
            if op.startswith("write"):
                if t in INTS:
                    v = intval(s, t)
                    raw = struct.pack(e + INTS[t], v)
                    call, back = "%s.write%s%s(%d, %s)" % (n, t, end, o, V.lit(v)), v
                else:
                    v = s.pick([0.0, 1.0, -1.5, 0.1, 3.14159, -123456.75, 1e10, 2.0 ** -20, 65504.0, 1e-30, 1e30, float(s.int(-1000, 1000)) / 16,
                                math.inf, -math.inf, 16777217.0])
                    f = "f" if t == "Float" else "d"
                    raw = struct.pack(e + f, v)
                    back = struct.unpack(e + f, raw)[0]
                    call = "%s.write%s%s(%d, %s)" % (n, t, end, o, fl(v))
                if fits:
                    wr.add((o, w, t))
                    d[o:o + w] = raw
                    if s.below(3):
                        if back in (math.inf, -math.inf):
                            self.add("print(%s.unwrap() == %s);" % (call, fl(back)), ["true"])
                        elif s.below(2):
                            self.add("print(%s.unwrap() == %s);" % (call, V.lit(back)), ["true"])
                        else:
                            result(call, back)
                    else:
                        self.add("print(%s.success());" % call, ["true"])
                else:
                    refused(call)
            else:
                call = "%s.read%s%s(%d)" % (n, t, end, o)
                if not fits:
                    refused(call)
                else:
                    self.nt |= len({x for x in wr if x[0] < o + w and o < x[0] + x[1]}) > 1
                    raw = bytes(d[o:o + w])
                    if t in INTS:
                        v = struct.unpack(e + INTS[t], raw)[0]
                        if abs(v) > 2 ** 53:
                            refused(call)
                        else:
                            self.add("print(%s.unwrap() == %s);" % (call, V.lit(v)), ["true"])
                            result(call, v)
                    else:
                        v = struct.unpack(e + ("f" if t == "Float" else "d"), raw)[0]
                        if v != v:
                            self.add("{ const v = %s.unwrap(); print(type(v)); print(v < 0 or v > 0 or v == 0); }" % call, ["number", "false"])
                        else:
                            self.add("print(%s.unwrap() == %s);" % (call, fl(v)), ["true"])
        elif op == "set":
            o, v = self.off(size, 1), s.pick([0, 1, 127, 128, 255, s.int(0, 255)])
            call = "%s.set(%d, %d)" % (n, o, v)
            if 0 <= o < size:
                d[o] = v
                wr.add((o, 1, "set"))
                result(call, v)
            else:
                refused(call)
        elif op == "get":
            o = self.off(size, 1)
            call = "%s.get(%d)" % (n, o)
            if 0 <= o < size:
                result(call, d[o])
            else:
                refused(call)
        elif op == "wstr":
            t = s.pick(STR)
            raw = t.encode()
            o = self.off(size, len(raw))
            call = "%s.writeString(%d, %s)" % (n, o, V.lit(t))
            if 0 <= o < size and o + len(raw) <= size:
                d[o:o + len(raw)] = raw
                wr.add((o, len(raw), "str"))
                result(call, None)
            else:
                self.nt |= 0 <= o < size
                refused(call)
        elif op in ("rstr", "sub"):
            k = s.below(3)
            a, e, args = 0, size, ""
            if k:
                a = self.off(size, 0)
                args = str(a)
            if k == 2:
                e = self.off(size, 0)
                args += ", %d" % e
            ok = 0 <= a < size and 0 <= e <= size and e > a
            call = "%s.%s(%s)" % (n, "readString" if op == "rstr" else "subarray", args)
            if not ok:
                refused(call)
            elif op == "rstr":
                self.add("{ const t = %s.unwrap(); print(type(t)); print(t.len()); print(Buffer.fromString(t).unwrap().values()); }" % call,
                         ["string", str(e - a), V.show(list(d[a:e]))])
            else:
                m = "b%d" % self.n
                self.n += 1
                self.b[m] = [bytearray(d[a:e]), set()]
                if len(self.names) > 3:
                    self.names.pop(0)
                self.names.append(m)
                self.add("var %s = %s.unwrap();" % (m, call), [])
                n = m
        elif op == "resize":
            k = s.below(5)
            ns = s.pick([0, -1, -100, 2 ** 31, 2 ** 31 - 1, 10 ** 12]) if k == 0 else s.int(1, 48)
            call = "%s.resize(%d)" % (n, ns)
            if not 1 <= ns < 2 ** 31 - 1:
                refused(call)
            else:
                result(call, ns)
                if ns < size:
                    del d[ns:]
                else:
                    d.extend(bytes(ns - size))
        elif op == "string":
            self.add("{ const t = %s.string(); print(t.len()); print(Buffer.fromString(t).unwrap().values()); }" % n,
                     [str(size), V.show(list(d))])
        elif op == "raw":
            # fill with arbitrary bytes
            a, m = s.int(0, 255), s.int(1, 255)
            self.add("for (var i = 0; i < %s.len(); i += 1) { const z = %s.set(i, (%d + i * %d) %% 256); }" % (n, n, a, m), [])
            for i in range(size):
                d[i] = (a + i * m) % 256
        elif op == "alias":
            o, v = s.int(0, size - 1), s.int(0, 255)
            self.add("{ const other = %s; const z = other.set(%d, %d).unwrap(); print(%s.get(%d).unwrap()); }" % (n, o, v, n, o), [str(v)])
            d[o] = v
        elif op == "badnew":
            refused(s.pick(["Buffer.new(0)", "Buffer.new(-1)", "Buffer.new(2147483647)", "Buffer.new(4294967297)", 'Buffer.fromString("")',
                            "Buffer.new(0 / 0)", "Buffer.new(1 / 0)"]))
        elif op == "bad":
            if not self.err:
                return
            t = s.pick(list(INTS)) if s.below(2) else s.pick(["Float", "Double"])
            end = "" if t == "Int8" else s.pick(["LE", "BE"])
            self.add(s.pick(["%s.write%s%s(%s);" % (n, t, end, s.pick(["", "0", '"0", 1', "0, nil", "0, 1, 2", "nil, 1", "0, [1]"])),
                             "%s.read%s%s(%s);" % (n, t, end, s.pick(["", "nil", '"0"', "0, 1", "[]"])),
                             "%s.get(%s);" % (n, s.pick(["", "nil", '"0"'])), "%s.set(%s);" % (n, s.pick(["", "0", '0, "1"', "nil, 1"])),
                             "%s.writeString(%s);" % (n, s.pick(["", "0", "0, 1", '"a", 0'])), "%s.resize(%s);" % (n, s.pick(["", "nil", '"9"'])),
                             "%s.len(1);" % n, "%s.values(1);" % n, "%s.string(1);" % n, "%s.subarray(nil);" % n,
                             '%s.readString("0");' % n, "Buffer.new();", 'Buffer.new("8");', "Buffer.fromString(1);"]), [], True)
        d, wr = self.b[n]
        self.add("print(%s.len()); print(%s.values());" % (n, n), [str(len(d)), V.show(list(d))])


def gen(s, err):
    g = G(s, err)
    for _ in s.many(1, 3, 2):
        g.new()
    for _ in s.many(5, 45, 18):
        g.op()
    for n in g.names:
        g.add("print(%s.values());" % n, [V.show(list(g.b[n][0]))])
    return g.steps, g.nt, err


def check(case, ctx):
    steps, nt, err = case
    if nt:
        ctx.nontrivial([x[0] for x in steps])
    if err:
        ctx.repl(steps)
    else:
        ctx.expect_items("\n".join(x[0] for x in steps) + "\n", [i for x in steps for i in x[1]])


def parts():
    return [Part("file", lambda s: gen(s, False), check, 5000), Part("repl", lambda s: gen(s, True), check, 2000)]
