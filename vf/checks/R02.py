"""Runtime errors: place, frames, earlier output; wrong arguments everywhere."""
import json, os, re
from ..core import Part, Discard, Violation
from ..lang import N, Fn, Cls, Interp, Err, render, TRACE, max_constants, num
from ..proggen import PG
from .. import vals as V

RULE = ("random programs (L02/L03's generator, with classes) in which one statement at a random place is replaced by an operation its "
        "operands do not support, the error's frames and lines compared with the interpreter model's; every built-in function, method "
        "and library call with arguments of random types and counts; calls of every library function and method with one argument too many, one too "
        "few or one of a wrong kind, against the reviewed table of what each accepts; unbounded recursion of many shapes; non-trivial = the error "
        "happened inside at least one function or loop, or the call was refused")

ANSI = re.compile(r"\x1b\[[0-9;]*m")
FRAME = re.compile(r"Error: (?:Function '([^']*)'|File '([^']*)')(?: in '([^']*)')?, line (\d+)")


def frames(err):
    out = []
    for l in ANSI.sub("", err.decode("utf-8", "replace")).split("\n"):
        m = FRAME.match(l)
        if m:
            out.append((m.group(1), int(m.group(4)), m.group(2) or m.group(3)))
    return out


def lists_of(prog):
    """Every statement list of the program, with whether it is inside a function."""
    out = []

    def walk(x, infn):
        if isinstance(x, list):
            if x and all(isinstance(y, N) and y.k in STMTS and not (y.k == "var" and isinstance(y.a[0], str)) for y in x):
                out.append((x, infn))
            for y in x:
                walk(y, infn)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, infn)
        elif isinstance(x, N):
            for y in x.a:
                walk(y, infn)
        elif isinstance(x, Fn):
            walk(x.params, infn)
            walk(x.body, True)
        elif isinstance(x, Cls):
            for m in x.members:
                walk(m, infn)
    walk(prog, False)
    return out


STMTS = {"expr", "print", "var", "const", "block", "if", "while", "for", "switch", "def", "class", "return", "break", "continue",
         "undecl", "unset", "enum"}


def bad(s):
    """An expression that cannot be evaluated."""
    lit = lambda v: N("lit", v)
    k = s.below(16)
    if k == 0:
        return N("bin", s.pick(["+", "-", "*", "/", "%", "<", ">", "<=", "&", "|", "^", "**"]), num(s.int(0, 5)), s.pick([lit("x"), lit(None), lit(True), N("list", [])]))
    if k == 1:
        return N("neg", s.pick([lit("x"), lit(None), N("list", [])]))
    if k == 2:
        return N("var", "undefinedName")
    if k == 3:
        return N("idx", N("list", [num(1)]), s.pick([num(1), num(-2), lit("x"), lit(None), num(1000)]))
    if k == 4:
        return N("idx", N("group", N("dict", [(lit("a"), num(1))])), lit("b"))
    if k == 5:
        return N("call", N("group", s.pick([num(5), lit("x"), lit(None), lit(True), N("list", [])])), [], False)
    if k == 6:
        return N("get", N("group", lit(None)), "attr")
    if k == 7:
        return N("mcall", N("group", s.pick([num(1), lit(None), lit("x"), N("list", [])])), "noSuchMethod", [], False)
    if k == 8:
        return N("call", N("group", N("fn", Fn("", [("p", None, ""), ("q", None, "")], num(1), "arrow", True))), [num(1)] * s.pick([0, 1, 3]), False)
    if k == 9:
        return N("setattr", N("group", num(1)), "x", num(2))
    if k == 10:
        return N("setidx", N("list", [num(1)]), s.pick([num(1), num(-2), lit("x")]), num(2))
    if k == 11:
        return N("call", N("var", "t"), [num(1)], False)
    if k == 12:
        return N("set", "undefinedName", num(1))
    if k == 13:
        return N("bin", "+", N("list", [num(1)]), num(1))
    if k == 14:
        return N("idx", N("group", s.pick([num(1), lit(None), lit(True)])), num(0))
    return N("call", N("group", N("fn", Fn("", [("p", None, "...")], N("bin", "-", N("var", "p"), num(1)), "arrow", True))), [num(1)], False)


def wrap(s, e):
    k = s.below(6)
    if k == 0:
        return N("print", e)
    if k == 1:
        return N("expr", N("t", 1, e)) if False else N("print", N("list", [num(1), e]))
    if k == 2:
        return N("if", e, N("block", [N("print", N("lit", "no"))]), None)
    if k == 3:
        return N("expr", N("call", N("group", N("fn", Fn("", [("z", None, "")], [N("expr", e), N("print", N("lit", "no"))], "arrow", False))), [num(1)], False))
    return N("expr", e)


def gen_placed(s):
    g = PG(s, closures=s.pick([0, 1]), control=1, size=s.pick([15, 30, 50]), depth=s.pick([2, 3, 4]), classes=s.below(2))
    prog = g.program()
    ls = lists_of(prog)
    inner = [l for l, f in ls if f] or [l for l, f in ls]
    l = s.pick(inner) if s.below(3) else s.pick(ls)[0]
    i = s.below(len(l) + 1)
    st = wrap(s, bad(s))
    if s.below(2):
        st = N("if", N("bin", ">", N("lit", s.pick([1, 2])), num(1)), N("block", [st]), None) if s.below(2) else N("block", [N("var", [("bl", num(3))]), st])
    l.insert(i, st)
    return prog


class TI(Interp):
    """t wants two arguments."""

    def t(self, args):
        if len(args) != 2:
            f = [("t", 1)] + [(f.name, f.line) for f in reversed(self.frames)]
            raise Err("arity", f[1:])
        return Interp.t(self, args)


def check_placed(prog, ctx):
    if max_constants(prog) > 240:
        raise Discard()
    s = TRACE + render(prog)
    I = TI(budget=30000)
    err = I.run(prog)
    if err is None:
        ctx.label("the faulty statement is not reached")
        raise Discard()
    if any("nan" in l or "inf" in l for l in I.out):
        raise Discard()
    r = ctx.expect(s, I.out, exit=70)
    want = [(n, l + 1) for n, l in err.frames]       # TRACE is line 1
    got = [(n, l) for n, l, f in frames(r.err)]
    ctx.label("frames", len(want))
    if len(want) > 1:
        ctx.nontrivial(s)
    if got != want:
        ctx.fail("frames", "the error is reported at %r, the model says %r; stderr %r" % (got[:6], want[:6], r.err[:400]))
    if any(f != "main.du" for _, _, f in frames(r.err)):
        ctx.fail("frames", "wrong file name: %r" % r.err[:300])


# -- wrong arguments -------------------------------------------------------
VALUES = {
    "nil": ["nil"], "bool": ["true", "false"], "number": ["0", "1", "-1", "2.5", "3", "255", "1000"],
    "string": ['""', '"x"', '"ab c"', '"1"', '"%d"', '"{}"', '"a,b"', '"nofile"', '"q\\u00e9"'],
    "list": ["[]", "[1]", '["x"]', "[nil, 2]", "[[1]]", '[3, "x"]', "[1, 2, 3]"],
    "dict": ["{}", '{"a": 1}', '{"x": [1], 2: nil}'],
    "set": ["set()", "set(1)", 'set("x", 2)'],
    "function": ["def () => 1", "def (a) => a", "def (a, b) => a", "def (...a) => a", "def (a) => nil"],
    "class": ["C", "Ab", "Tr"], "instance": ["C(1)", "D()"], "enum": ["En", "En.A"],
    "result": ["Success(1)", 'Error("e")'], "method": ["C(1).m"], "native": ["print"], "module": ["Math"], "nan": ["0/0", "1/0"],
}
# the same for the signature check, where only calls that must be refused are run
SIGVALUES = dict(VALUES)
SIGVALUES["bigint"] = ['BigInt.new("12").unwrap()', 'BigInt.new("-3").unwrap()', 'BigInt.new("0").unwrap()']
SIGVALUES["abstract"] = ["Buffer.new(4).unwrap()", "Queue.new()", "Stack.new()"]
PRE = '''import Math; import JSON; import Path; import Datetime; import Random; import Base64; import Hashlib; import UUID; import System;
import Env; import Log; import Object; import BigInt; import Buffer; import Queue; import Stack; import Sqlite; import Argparse; import IO;
import Inspect; import Process;
class C { var cv = 1; init(var n) { this.z = 1; } m(a) { return a; } static st(a) { return a; } }
class D < C { init() {} }
abstract class Ab { abstract am() }
trait Tr { tm() {} }
enum En { A, B }
'''
SIGPRE = PRE + '''import Net; import Term; import FFI; import HTTP; import Socket;
def nq() { const q = Queue.new(); q.push(1); return q; }
def ns() { const q = Stack.new(); q.push(1); return q; }
'''
METHODS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "builtins.json")))


def anyval(s, kind=None):
    return s.pick(VALUES[kind or s.pick(sorted(VALUES))])


def gen_args(s):
    kind = s.pick(sorted(METHODS))
    recv = METHODS[kind]["receivers"]
    name = s.pick(METHODS[kind]["names"])
    n = s.pick([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
    args = [anyval(s) for _ in range(n)]
    spread = not s.below(12)
    if spread:
        args.append("...[%s]" % ", ".join(anyval(s) for _ in range(s.below(4))))
    r = s.pick(recv)
    call = "%s%s(%s)" % (r + "." if r else "", name, ", ".join(args))
    # where the call stands
    place = s.below(4)
    return kind, name, call, place


def check_args(case, ctx):
    kind, name, call, place = case
    head = PRE + 'print("before");\n'
    if place == 0:
        src = head + "var r = %s;\n" % call
        where = [None]
    elif place == 1:
        src = head + "def f(q) {\n    var keep = [q];\n    var r = %s;\n    if (keep[0] != 7) print(\"corrupted\");\n    return r;\n}\nvar r = f(7);\n" % call
        where = ["f", None]
    elif place == 2:
        src = head + "for (var i = 0; i < 2; i += 1) {\n    var keep = i;\n    var r = %s;\n    if (keep != i) print(\"corrupted\");\n}\n" % call
        where = [None]
    else:
        src = head + "class X {\n    m(k) {\n        return [k, %s];\n    }\n}\nX().m(3);\n" % call
        where = ["m", None]
    src += 'print("after");\n'
    r = ctx.run(src, cpu=6)
    ctx.alive(r)
    lines = r.out.split(b"\n")
    if not r.out.startswith(b"before\n"):
        ctx.fail("output", "the output before the call is missing: %r" % r.out[:200])
    if b"corrupted" in r.out:
        ctx.fail("output", "a local variable changed: %r" % r.out[:300])
    ctx.label("%s: %s" % (kind, "refused" if r.exit == 70 else "accepted"))
    if r.exit == 70:
        ctx.nontrivial(src)
        if lines[-2] == b"after":
            ctx.fail("continued", "the program went on after a runtime error: %r %r" % (r.out[:200], r.err[:200]))
        own = [n for n, l, f in frames(r.err) if f == "main.du"]
        fr = frames(r.err)
        # the frames of the program itself, after those of library code it called
        if not own or own[-1] is not None or own[-len(where):] != where:
            ctx.fail("frames", "the error's frames are %r, expected to end with %r; stderr %r" % (fr, where, r.err[:400]))
        line = [l for n, l, f in fr if f == "main.du"][-len(where)]
        want = src[:src.index(call)].count("\n") + 1
        if line != want:
            ctx.fail("line", "the error is reported on line %d, the call is on line %d: %r" % (line, want, r.err[:300]))
        if not ANSI.sub("", r.err.decode("utf-8", "replace")).split("\n")[1].strip():
            ctx.fail("message", "no message: %r" % r.err[:300])
    elif r.exit == 0:
        if not r.out.endswith(b"after\n"):
            ctx.fail("output", "the program ended without reaching its end: %r" % r.out[:200])
        if frames(r.err):
            ctx.fail("exit", "a runtime error was reported but the exit status is 0: %r" % r.err[:300])
    else:
        ctx.fail("exit", "exit status %s: %r" % (r.exit, r.err[:300]))


# -- signatures: calls that must be refused --------------------------------
_SIGNED = json.load(open(os.path.join(os.path.dirname(__file__), "..", "signed.json")))
_SIGS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "signatures.json")))


def contained(kind):
    """Library calls with effects outside the process run as an unprivileged user in a scratch tree."""
    return kind in ("System", "Sqlite", "sqlite", "file", "Process", "IO", "Path", "Socket", "socket", "HTTP", "httpclient", "FFI", "Env", "Log", "logger")


def sigprogram(desc, call):
    w = desc.get("wrap")
    return (SIGPRE + 'print("before");\n' + (w + "\n" if w else "") + "var r = %s;\n" % call + 'print("OUT");\nprint(type(r) == "result" and not r.success());\n' + ("}\n" if w else ""))


def sigoutcome(r):
    if r.exit == 70:
        return "R"
    if r.exit == 65:
        raise RuntimeError("bad program: %r" % r.err)
    return "E" if r.out.endswith(b"OUT\ntrue\n") else "A"


def gen_sig(s):
    kind = s.pick(sorted(_SIGS))
    name = s.pick(sorted(_SIGS[kind]))
    recv = s.pick(sorted(_SIGS[kind][name]))
    sig = _SIGS[kind][name][recv]
    counts = sorted(n for n in sig)
    allkinds = sorted(SIGVALUES)
    if counts and s.below(3):
        n = s.pick(counts)
        ps = [p for p in sig[n] if p != "error"]
        closed = [i for i, p in enumerate(ps) if len(p) < len(allkinds)]
        if not closed and "error" not in sig[n]:
            raise Discard()
        kinds = [s.pick(p) for p in ps]
        want = "error result" if "error" in sig[n] else None
        if closed:
            i = s.pick(closed)
            kinds[i] = s.pick([k for k in allkinds if k not in ps[i]])
            want = "refused"
    else:
        free = [n for n in range(6) if str(n) not in sig]
        if not free:
            raise Discard()
        n = s.pick(free)
        near = [c for c in counts if abs(int(c) - n) == 1]
        kinds = [s.pick(allkinds) for _ in range(n)]
        if near:
            # the arguments of a good call, one missing or one too many
            ps = [p for p in sig[s.pick(near)] if p != "error"]
            for i in range(min(n, len(ps))):
                kinds[i] = s.pick(ps[i])
        want = "refused"
    args = [s.pick(SIGVALUES[k]) for k in kinds]
    return kind, name, "%s%s(%s)" % (recv + "." if recv else "", name, ", ".join(args)), want, kinds


def check_sig(case, ctx):
    kind, name, call, want, kinds = case
    src = sigprogram(_SIGNED[kind], call)
    r = ctx.run(src, cpu=6, **({"tree": {"x": None, "q": b"y"}} if contained(kind) else {}))
    ctx.alive(r)
    o = sigoutcome(r)
    ctx.nontrivial(src)
    ctx.label("%s: %s" % (kind, want))
    if o == "R":
        if not r.out.endswith(b"before\n"):
            ctx.fail("continued", "output after or instead of the output before the call: %r" % r.out[:200])
        return
    if o == "A" or want == "refused":
        ctx.fail("accepted", "%s with arguments of the kinds (%s) must be refused with an error, but the program went on: exit %s, output %r" % (name, ", ".join(kinds), r.exit, r.out[-200:]))


# -- accepted calls leave exactly their result ------------------------------
def gen_slots(s):
    kind = s.pick(sorted(_SIGS))
    name = s.pick(sorted(_SIGS[kind]))
    recv = s.pick(sorted(_SIGS[kind][name]))
    sig = _SIGS[kind][name][recv]
    if not sig or name == "bcrypt":     # a cost of 31 takes days
        raise Discard()
    args = [s.pick(SIGVALUES[s.pick(p)]) for p in sig[s.pick(sorted(sig))] if p != "error"]
    return kind, name, "%s%s(%s)" % (recv + "." if recv else "", name, ", ".join(args)), s.below(3)


def check_slots(case, ctx):
    """Whatever a call does, the variables and operands around it are as before it."""
    kind, name, call, shape = case
    w = _SIGNED[kind].get("wrap")
    body = ['const l = ["low", %s, "high"];' % call, 'const r = %s; const l = ["low", r, "high"];' % call, '%s; const l = ["low", %s, "high"];' % (call, call)][shape]
    src = (SIGPRE + (w + "\n" if w else "") + 'def around() { const a = "first"; %s const b = "second"; { const c = "third"; print("AROUND"); print([a, b, c, l[0], l[2], l.len()]); } }\naround();\n' % body +
           ("}\n" if w else ""))
    r = ctx.run(src, cpu=6, **({"tree": {"x": None, "q": b"y"}} if contained(kind) else {}))
    ctx.alive(r)
    if r.exit == 65:
        raise RuntimeError("bad program: %r" % r.err)
    i = r.out.rfind(b"AROUND\n")
    if i < 0:
        return          # refused in this state, or the process has ended
    ctx.nontrivial(src)
    ctx.label("slots around " + kind)
    if r.out[i + 7:] != b'["first", "second", "third", "low", "high", 3]\n' and not (r.exit and r.out[i + 7:] == b""):
        ctx.fail("slots", "the variables and operands around %s are %r afterwards" % (name, r.out[i + 7:][:200]))


# -- unbounded recursion ---------------------------------------------------
def gen_deep(s):
    n = 1 + s.below(4)
    style = [s.pick(["def", "arrow", "method", "static", "init", "variadic", "callback", "forEach", "super", "reduce", "default", "matchWrap"]) for _ in range(n)]
    return style, s.below(6), s.below(3), s.pick([0, 0, 3, 30])


def check_deep(case, ctx):
    style, nargs, nlocals, first = case
    n = len(style)
    out = ["var depth = 0;"]
    ps = ["p%d" % i for i in range(nargs)]
    heads = set()
    for i, st in enumerate(style):
        nxt = style[(i + 1) % n]
        j = (i + 1) % n
        args = ", ".join(ps)
        call = {"method": "K%d(0).go(%s)", "static": "K%d.go(%s)", "init": "K%d(%s)", "super": "K%d(0).go(%s)"}.get(nxt, "f%d(%s)") % (j, args)
        loc = " ".join("var l%d = [%d];" % (k, k) for k in range(nlocals))
        par = "(%s)" % args
        body = "depth += 1; %s" % loc
        if st == "def":
            out.append("def f%d%s { %s return %s; }" % (i, par, body, call))
        elif st == "arrow":
            out.append("const f%d = def %s => { %s return %s; };" % (i, par, body, call))
        elif st == "method":
            out.append("class K%d { init(x) {} go%s { %s return %s; } }" % (i, par, body, call))
        elif st == "static":
            out.append("class K%d { static go%s { %s return %s; } }" % (i, par, body, call))
        elif st == "init":
            out.append("class K%d { init%s { %s %s; } }" % (i, par, body, call))
        elif st == "variadic":
            out.append("def f%d(...r) { %s var %s; return %s; }" % (i, body, ", ".join(p + " = 1" for p in ps) or "q", call))
        elif st == "callback":
            out.append("def f%d%s { %s return [1].map(def (x) => %s); }" % (i, par, body, call))
        elif st == "forEach":
            out.append("def f%d%s { %s {\"a\": 1}.forEach(def (k, v) => %s); }" % (i, par, body.replace("depth += 1;", "depth += 1; var dd = 1;"), call))
        elif st == "reduce":
            out.append("def f%d%s { %s return [1, 2].reduce(def (a, x) => %s); }" % (i, par, body, call))
        elif st == "default":
            out.append("def f%d(%s) { %s return zz; }" % (i, ", ".join(ps + ["zz = %s" % call]), body))
        elif st == "matchWrap":
            out.append("def f%d%s { %s return \"1\".toNumber().matchWrap(def (x) => %s, def (e) => e); }" % (i, par, body, call))
        else:
            out.append("class B%d { go%s { %s return %s; } } class K%d < B%d { init(x) {} go%s { return super.go%s; } }" % (i, par, body, call, i, i, par, par))
    src = "\n".join(out) + "\nprint(\"before\");\n"
    st = style[0]
    args = ", ".join(str(k) for k in range(nargs))
    src += {"method": "K0(0).go(%s);", "static": "K0.go(%s);", "init": "K0(%s);", "super": "K0(0).go(%s);"}.get(st, "f0(%s);") % args
    line = src.count("\n") + 1
    src += "\nprint(\"after\");\n"
    r = ctx.run(src, cpu=15)
    ctx.alive(r)
    for x in style:
        ctx.label("recursion through " + x)
    ctx.nontrivial(src)
    if r.out != b"before\n":
        ctx.fail("output", "output is %r, expected only what was printed before the recursion" % r.out[:200])
    ctx.status(r, 70)
    fr = frames(r.err)
    if len(r.err) >= 4 << 20:
        ctx.label("error output cut by the harness")
        return
    if not fr or fr[-1][0] is not None or fr[-1][1] != line or len(fr) < 20:
        ctx.fail("frames", "the frames end with %r, expected the call on line %d: %r" % (fr[-3:], line, r.err[:200]))


def parts():
    return [Part("placed", gen_placed, check_placed, 9000), Part("arguments", gen_args, check_args, 16000), Part("signatures", gen_sig, check_sig, 9000), Part("slots", gen_slots, check_slots, 4000), Part("recursion", gen_deep, check_deep, 60, 600)]
