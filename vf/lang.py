"""A reference interpreter for the language, on syntax trees.

Programs are trees of N nodes.  render() turns a program into source, one
statement per line, and records the line of every statement; Interp runs the
tree itself.  Environments are immutable linked lists of cells, so that names
resolve lexically and each execution of a declaration makes a new variable.
"""
import math
import sys

from .core import Discard
from . import vals as V


sys.setrecursionlimit(max(sys.getrecursionlimit(), 40000))


class N:
    __slots__ = ("k", "a", "line")

    def __init__(self, k, *a):
        self.k, self.a, self.line = k, a, 0

    def __repr__(self):
        return "%s%r" % (self.k, self.a)


def num(x):
    return N("lit", x)


class Fn:
    """A function, arrow function, method or constructor.

    params: (name, default node or None, mark) with mark in "", "var", "private", "..."."""

    def __init__(self, name, params, body, kind="def", expr=False):
        self.name, self.params, self.body, self.kind, self.expr = name, params, body, kind, expr
        self.private = self.static = self.abstract = False
        self.line = 0
        self.notes = []


class Cls:
    def __init__(self, name, sup=None, kind="class"):
        self.name, self.sup, self.kind = name, sup, kind     # kind: class | abstract | trait
        self.members = []     # ("use", names) ("var", name, e) ("const", name, e) ("private", name) ("method", Fn)
        self.notes = []


# -- rendering -------------------------------------------------------------
PREC = {"or": 2, "and": 3, "==": 4, "!=": 4, "<": 5, ">": 5, "<=": 5, ">=": 5, "|": 6, "^": 7, "&": 8,
        "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11}
UNARY, CHAIN, CALL, PRIMARY = 12, 13, 14, 15


def esc(x):
    return V.lit(x)


class Renderer:
    def __init__(self, fill=None):
        self.lines = []
        self.ind = 0
        self.fill = fill          # optional function(line text) -> bool: emit a blank or comment line first
        self.pending = []         # functions inside the expression being rendered: their line is the next one emitted

    def emit(self, text):
        if self.fill:
            for l in self.fill():
                self.lines.append(l)
        self.lines.append("    " * min(self.ind, 8) + text)
        for f in self.pending:
            one_line(f, len(self.lines))
        self.pending = []
        return len(self.lines)

    # every expression renders to one line; fn bodies with blocks span lines
    def args(self, args, spread):
        out = [self.e(x) for x in args]
        if spread:
            out[-1] = "..." + out[-1]
        return "(" + ", ".join(out) + ")"

    def sub(self, x, prec):
        s, p = self.ep(x)
        return "(%s)" % s if p < prec else s

    def e(self, x):
        return self.ep(x)[0]

    def ep(self, x):
        k, a = x.k, x.a
        if k == "lit":
            v = a[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0:
                return V.lit(v), UNARY
            return V.lit(v), PRIMARY
        if k == "src":
            return a[0], a[1]
        if k == "var":
            return a[0], PRIMARY
        if k == "this":
            return "this", PRIMARY
        if k == "group":
            return "(%s)" % self.e(a[0]), PRIMARY
        if k in ("bin", "and", "or"):
            op = a[0] if k == "bin" else k
            l, r = (a[1], a[2]) if k == "bin" else a
            p = PREC[op]
            return "%s %s %s" % (self.sub(l, p), op, self.sub(r, p + 1)), p
        if k == "neg":
            s = self.sub(a[0], UNARY)
            return ("-(%s)" if s.startswith("-") else "-%s") % s, UNARY
        if k == "not":
            return "not " + self.sub(a[0], UNARY), UNARY
        if k == "tern":
            return "%s ? %s : %s" % (self.sub(a[0], 2), self.sub(a[1], 1), self.sub(a[2], 1)), 1
        if k == "set":
            return "%s = %s" % (a[0], self.sub(a[1], 1)), 0
        if k == "cset":
            return "%s %s= %s" % (a[0], a[1], self.sub(a[2], 1)), 0
        if k == "list":
            return "[%s]" % ", ".join(self.sub(y, 0) for y in a[0]), PRIMARY
        if k == "dict":
            return "{%s}" % ", ".join("%s: %s" % (self.sub(y, 1), self.sub(z, 1)) for y, z in a[0]), PRIMARY
        if k == "idx":
            return "%s[%s]" % (self.sub(a[0], CALL), self.e(a[1])), CALL
        if k == "setidx":
            return "%s[%s] = %s" % (self.sub(a[0], CALL), self.e(a[1]), self.sub(a[2], 1)), 0
        if k == "csetidx":
            return "%s[%s] %s= %s" % (self.sub(a[0], CALL), self.e(a[1]), a[2], self.sub(a[3], 1)), 0
        if k == "get":
            return "%s.%s" % (self.sub(a[0], CALL), a[1]), CALL
        if k == "optget":
            return "%s?.%s" % (self.sub(a[0], CALL), a[1]), CALL
        if k == "optcall":
            return "%s?.%s%s" % (self.sub(a[0], CALL), a[1], self.args(a[2], False)), CALL
        if k == "setattr":
            return "%s.%s = %s" % (self.sub(a[0], CALL), a[1], self.sub(a[2], 1)), 0
        if k == "csetattr":
            return "%s.%s %s= %s" % (self.sub(a[0], CALL), a[1], a[2], self.sub(a[3], 1)), 0
        if k == "call":
            return self.sub(a[0], CALL) + self.args(a[1], a[2]), CALL
        if k == "mcall":
            return "%s.%s%s" % (self.sub(a[0], CALL), a[1], self.args(a[2], a[3])), CALL
        if k == "scall":
            return "super.%s%s" % (a[0], self.args(a[1], a[2])), CALL
        if k == "sget":
            return "super.%s" % a[0], CALL
        if k == "t":
            return "t(%s, %s)" % (V.lit(a[0]), self.e(a[1])), CALL
        if k == "fn":
            f = a[0]
            self.pending.append(f)
            head = "def %s => " % self.params(f)
            if f.expr:
                return head + self.sub(f.body, 1), 0
            # a block body: render it on one line, statements separated by spaces
            r = Renderer()
            for st in f.body:
                r.s(st)
            return head + "{ " + " ".join(l.strip() for l in r.lines) + " }", 0
        raise AssertionError(k)

    def params(self, f):
        out = []
        for name, d, mark in f.params:
            t = ("..." if mark == "..." else mark + " " if mark else "") + name
            if d is not None:
                t += " = " + self.sub(d, 1)
            out.append(t)
        return "(" + ", ".join(out) + ")"

    def block(self, head, stmts, tail="}"):
        n = self.emit(head + "{")
        self.ind += 1
        for st in stmts:
            self.s(st)
        self.ind -= 1
        if tail is not None:
            self.emit(tail)
        return n

    def body(self, head, st):
        """A branch or loop body; a non-block goes on its own line."""
        if st.k == "block":
            st.line = self.block(head, st.a[0])
            return st.line
        n = self.emit(head.rstrip())
        self.ind += 1
        self.s(st)
        self.ind -= 1
        return n

    def simple(self, x):
        k, a = x.k, x.a
        if k == "expr":
            return self.e(a[0]) + ";"
        if k == "print":
            return "print(%s);" % self.e(a[0])
        if k in ("var", "const"):
            return "%s %s;" % (k, ", ".join(n if e is None else "%s = %s" % (n, self.sub(e, 0)) for n, e in a[0]))
        if k == "undecl":
            return "%s [%s] = %s;" % (a[2], ", ".join(a[0]), self.e(a[1]))
        if k == "unset":
            return "[%s] = %s;" % (", ".join(a[0]), self.e(a[1]))
        if k == "break":
            return "break;"
        if k == "continue":
            return "continue;"
        if k == "return":
            return "return;" if a[0] is None else "return %s;" % self.e(a[0])
        if k == "enum":
            return "enum %s { %s }" % (a[0], ", ".join(n if e is None else "%s = %s" % (n, self.sub(e, 1)) for n, e in a[1]))
        if k == "raw":
            return a[0]
        return None

    def s(self, x):
        k, a = x.k, x.a
        t = self.simple(x)
        if t is not None:
            x.line = self.emit(t)
        elif k == "block":
            x.line = self.block("", a[0])
        elif k == "if":
            c, th, el = a
            if el is None:
                x.line = self.body("if (%s) " % self.e(c), th)
            elif th.k == "block":
                x.line = self.block("if (%s) " % self.e(c), th.a[0], None)
                if el.k == "block":
                    self.block("} else ", el.a[0])
                else:
                    self.emit("} else")
                    self.ind += 1
                    self.s(el)
                    self.ind -= 1
            else:
                x.line = self.body("if (%s)" % self.e(c), th)
                self.body("else ", el)
        elif k == "while":
            x.line = self.body("while (%s) " % self.e(a[0]) if a[0] is not None else "while ", a[1])
        elif k == "for":
            init, c, inc, st = a
            i = ";" if init is None else self.simple(init)
            x.line = self.body("for (%s%s;%s) " % (i, "" if c is None else " " + self.e(c), "" if inc is None else " " + self.e(inc)), st)
            if init is not None:
                init.line = x.line
        elif k == "switch":
            e, cases, default = a
            x.line = self.emit("switch (%s) {" % self.e(e))
            self.ind += 1
            for c in cases:
                c.line = self.body("case %s: " % ", ".join(self.e(v) for v in c.a[0]), c.a[1])
            if default is not None:
                self.body("default: ", default)
            self.ind -= 1
            self.emit("}")
        elif k == "def":
            f = a[0]
            x.line = f.line = self.block("def %s%s " % (f.name, self.params(f)), f.body)
        elif k == "class":
            self.cls(x, a[0])
        else:
            raise AssertionError(k)

    def note(self, notes):
        for n, v in notes:
            self.emit("@%s%s" % (n, "" if v is NOVAL else "(%s)" % V.lit(v)))

    def cls(self, x, c):
        self.note(c.notes)
        head = {"class": "class ", "abstract": "abstract class ", "trait": "trait "}[c.kind] + c.name
        if c.sup:
            head += " < " + c.sup
        x.line = self.emit(head + " {")
        self.ind += 1
        for m in c.members:
            if m[0] == "use":
                self.emit("use %s;" % ", ".join(m[1]))
            elif m[0] in ("var", "const"):
                if len(m) > 3:
                    self.note(m[3])
                self.emit("%s %s = %s;" % (m[0], m[1], self.e(m[2])))
            elif m[0] == "private":
                self.emit("private %s;" % m[1])
            elif m[0] == "raw":
                self.emit(m[1])
            else:
                f = m[1]
                self.note(f.notes)
                head = ("private " if f.private else "") + ("static " if f.static else "") + ("abstract " if f.abstract else "") + f.name + self.params(f)
                if f.abstract:
                    self.emit(head)
                else:
                    f.line = self.block(head + " ", f.body)
        self.ind -= 1
        self.emit("}")


NOVAL = object()


def one_line(x, n):
    """Everything in x stands on line n."""
    if isinstance(x, (list, tuple)):
        for y in x:
            one_line(y, n)
    elif isinstance(x, N):
        x.line = n
        one_line(x.a, n)
    elif isinstance(x, Fn):
        x.line = n
        one_line(x.params, n)
        one_line(x.body, n)


def render(prog, fill=None):
    r = Renderer(fill)
    for st in prog:
        r.s(st)
    return "\n".join(r.lines) + "\n"


# -- values ----------------------------------------------------------------
class Closure:
    def __init__(self, fn, env, owner=None):
        self.fn, self.env, self.owner = fn, env, owner


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f


class ClassV:
    def __init__(self, name, sup, kind):
        self.name, self.sup, self.kind = name, sup, kind
        self.public = dict(sup.public) if sup else {}
        self.private = {}
        self.abstract = dict(sup.abstract) if sup else {}
        self.vars, self.consts = {}, {"_name": name}
        self.privnames = set()
        self.notes = [dict(d) if d else None for d in sup.notes] if sup else [None, None, None]

    def chain(self):
        c = self
        while c:
            yield c
            c = c.sup


class Inst:
    def __init__(self, cls):
        self.cls, self.pub, self.priv = cls, {"_class": cls}, {}


class Bound:
    def __init__(self, recv, m):
        self.recv, self.m = recv, m


class EnumV:
    def __init__(self, name, values):
        self.name, self.values = name, values


class Frame:
    def __init__(self, name):
        self.name, self.line = name, 0


class Err(Exception):
    def __init__(self, msg, frames):
        super().__init__(msg)
        self.msg, self.frames = msg, frames


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def same(a, b):
    """Dictu's ==; objects are equal when they are the same object."""
    if isinstance(a, OBJ) or isinstance(b, OBJ):
        return a is b
    return V.eq(a, b)


OBJ = (Closure, Native, ClassV, Inst, Bound, EnumV)


def show(v, nested=False):
    if isinstance(v, Closure):
        return "<fn %s>" % (v.fn.name or "<anonymous>")
    if isinstance(v, ClassV):
        return "<Trait %s>" % v.name if v.kind == "trait" else "<Cls %s>" % v.name
    if isinstance(v, Inst):
        return "<%s instance>" % v.cls.name
    if isinstance(v, Bound):
        return "<Bound Method %s>" % v.m.fn.name
    if isinstance(v, EnumV):
        return "<Enum %s>" % v.name
    if isinstance(v, list) and any(isinstance(x, OBJ + (list,)) for x in v):
        return "[" + ", ".join(show(x, True) for x in v) + "]"
    return V.show(v, nested)


def arith(op, a, b):
    """Arithmetic on numbers as doubles; None when the domain excludes it."""
    a, b = float(a), float(b)
    try:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
            else:
                r = a / b
        elif op == "%":
            r = math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
        elif op == "**":
            r = math.pow(a, b)
        else:
            if abs(a) >= 2 ** 31 or abs(b) >= 2 ** 31:
                return None
            a, b = int(a), int(b)
            r = float(a & b if op == "&" else a | b if op == "|" else a ^ b)
    except OverflowError:
        r = math.copysign(math.inf, a) if op == "**" and b % 2 == 1 else math.inf
    except ValueError:
        return None
    if r != r:
        return None
    return r


class Interp:
    """Runs a program; out collects the printed lines."""

    def __init__(self, budget=20000):
        self.out = []
        self.globals = {}
        self.consts = set()
        self.frames = [Frame(None)]
        self.steps = 0
        self.budget = budget
        self.stats = {}
        self.maxdepth = 150
        self.globals["t"] = Native("t", self.t)

    def t(self, args):
        self.print(args[0])
        return args[1]

    def print(self, v):
        self.out.append(show(v))
        if len(self.out) > 3000:
            raise Discard()

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Discard()

    def error(self, msg):
        raise Err(msg, [(f.name, f.line) for f in reversed(self.frames)])

    # -- variables
    @staticmethod
    def find(env, name):
        while env is not None:
            if env[0] == name:
                return env[1]
            env = env[2]
        return None

    def load(self, env, name):
        c = self.find(env, name)
        if c is not None:
            return c[0]
        if name in self.globals:
            return self.globals[name]
        self.error("Undefined variable '%s'." % name)

    def store(self, env, name, v):
        c = self.find(env, name)
        if c is not None:
            c[0] = v
        elif name in self.consts:
            self.error("Cannot assign to a constant.")
        elif name in self.globals:
            self.globals[name] = v
        else:
            self.error("Undefined variable '%s'." % name)

    def declare(self, env, name, v, local):
        if local:
            return (name, [v], env)
        self.globals[name] = v
        return env

    # -- running
    def run(self, prog):
        """-> None or the Err that stopped the program."""
        try:
            self.stmts(prog, None, False)
        except Err as e:
            return e
        return None

    def stmts(self, sts, env, local):
        for st in sts:
            env = self.stmt(st, env, local)
        return env

    def stmt(self, x, env, local):
        """Executes a statement; returns the environment for the next one."""
        self.tick()
        k, a = x.k, x.a
        if x.line:
            self.frames[-1].line = x.line
        if k == "expr":
            self.ev(a[0], env)
        elif k == "print":
            self.print(self.ev(a[0], env))
        elif k in ("var", "const"):
            for name, e in a[0]:
                v = None if e is None else self.ev(e, env)
                env = self.declare(env, name, v, local)
        elif k == "undecl":
            v = self.ev(a[1], env)
            self.unpack(v, len(a[0]))
            for n, y in zip(a[0], list(v)):
                env = self.declare(env, n, y, local)
        elif k == "unset":
            v = self.ev(a[1], env)
            self.unpack(v, len(a[0]))
            for n, y in reversed(list(zip(a[0], list(v)))):
                self.store(env, n, y)
        elif k == "block":
            self.stmts(a[0], env, True)
        elif k == "if":
            if V_truthy(self.ev(a[0], env)):
                self.stmt(a[1], env, True)
            elif a[2] is not None:
                self.stmt(a[2], env, True)
        elif k == "while":
            self.loop(x, a[0], None, a[1], env)
        elif k == "for":
            init, c, inc, st = a
            if init is not None:
                env2 = self.stmt(init, env, True)
            else:
                env2 = env
            self.loop(x, c, inc, st, env2)
        elif k == "switch":
            v = self.ev(a[0], env)
            for c in a[1]:
                self.frames[-1].line = c.line or self.frames[-1].line
                vals = [self.ev(e, env) for e in c.a[0]]
                if any(same(v, w) for w in vals):
                    self.stat("case")
                    self.stmt(c.a[1], env, True)
                    break
            else:
                if a[2] is not None:
                    self.stat("default")
                    self.stmt(a[2], env, True)
        elif k == "break":
            self.stat("break")
            raise Break()
        elif k == "continue":
            self.stat("continue")
            raise Continue()
        elif k == "return":
            raise Return(None if a[0] is None else self.ev(a[0], env))
        elif k == "def":
            f = a[0]
            if local:
                cell = [None]
                env = (f.name, cell, env)
                cell[0] = Closure(f, env)
            else:
                self.globals[f.name] = Closure(f, env)
        elif k == "class":
            env = self.cls(a[0], env, local)
        elif k == "enum":
            values = {}
            for i, (n, e) in enumerate(a[1]):
                values[n] = i if e is None else self.ev(e, env)
            env = self.declare(env, a[0], EnumV(a[0], values), local)
        elif k == "raw":
            if a[1] is not None:
                a[1](self)
        else:
            raise AssertionError(k)
        return env

    def unpack(self, v, n):
        if not isinstance(v, list):
            self.error("Attempting to unpack a value which is not a list.")
        if n < len(v):
            self.error("Too many values to unpack")
        if n > len(v):
            self.error("Not enough values to unpack")

    def loop(self, x, c, inc, st, env):
        while True:
            self.tick()
            self.frames[-1].line = x.line or self.frames[-1].line
            if c is not None and not V_truthy(self.ev(c, env)):
                return
            self.stat("iteration")
            try:
                self.stmt(st, env, True)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                self.frames[-1].line = x.line or self.frames[-1].line
                self.ev(inc, env)

    # -- classes
    def cls(self, c, env, local):
        sup = None
        if c.sup:
            sup = self.load(env, c.sup)
            if not isinstance(sup, ClassV):
                self.error("Superclass must be a class.")
            if sup.kind == "trait":
                self.error("Superclass can not be a trait.")
        k = ClassV(c.name, sup, c.kind)
        if local:
            env = (c.name, [k], env)
        else:
            self.globals[c.name] = k
        menv = ("super", [sup], env) if sup else env
        notes = [dict(c.notes), {m[1].name: dict(m[1].notes) for m in c.members if m[0] == "method" and m[1].notes},
                 {m[1]: dict(m[3]) for m in c.members if m[0] in ("var", "const") and len(m) > 3 and m[3]}]
        for j, own in enumerate(notes):
            if own:
                k.notes[j] = dict(k.notes[j] or {}, **own)
        for m in c.members:
            if m[0] == "method":
                for p in m[1].params:
                    if p[2] == "private":
                        k.privnames.add(p[0])
            elif m[0] == "private":
                k.privnames.add(m[1])
        for m in c.members:
            if m[0] == "use":
                for n in m[1]:
                    tr = self.load(env, n)
                    if not (isinstance(tr, ClassV) and tr.kind == "trait"):
                        self.error("Can only 'use' with a trait")
                    k.public.update(tr.public)
            elif m[0] == "var":
                k.vars[m[1]] = self.ev(m[2], env)
            elif m[0] == "const":
                k.consts[m[1]] = self.ev(m[2], env)
            elif m[0] == "method":
                f = m[1]
                cl = Closure(f, menv, k)
                if f.abstract:
                    k.abstract[f.name] = cl
                elif f.private:
                    k.private[f.name] = cl
                else:
                    k.public[f.name] = cl
        if c.kind == "class":
            for n in k.abstract:
                if n not in k.public:
                    self.error("Class %s does not implement abstract method %s" % (k.name, n))
        return env

    def getattr(self, o, name, inside=False):
        if isinstance(o, Inst):
            if inside and name in o.priv:
                return o.priv[name]
            if name in o.pub:
                return o.pub[name]
            if name in o.cls.public:
                return Bound(o, o.cls.public[name])
            for c in o.cls.chain():
                if name in c.consts:
                    return c.consts[name]
                if name in c.vars:
                    return c.vars[name]
            self.error("no attribute")
        if isinstance(o, ClassV):
            for c in o.chain():
                if name in c.consts:
                    return c.consts[name]
                if name in c.vars:
                    return c.vars[name]
            self.error("no attribute")
        if isinstance(o, EnumV):
            if name in o.values:
                return o.values[name]
            self.error("no attribute")
        self.error("no properties")

    def setattr(self, o, name, v, env, inside=False):
        if isinstance(o, Inst):
            if inside and self.private_here(env, name):
                o.priv[name] = v
            else:
                o.pub[name] = v
        elif isinstance(o, ClassV):
            for c in o.chain():
                if name in c.consts:
                    self.error("Cannot assign to class constant")
            o.vars[name] = v
        else:
            self.error("Can not set attribute")

    def private_here(self, env, name):
        """Is name a private variable of the class whose method encloses this?"""
        c = self.find(env, "<class>")
        return c is not None and name in c[0].privnames

    def invoke(self, o, name, args, inside=False):
        if isinstance(o, Inst):
            if inside and name in o.cls.private:
                return self.enter(o.cls.private[name], args, o)
            if name in o.cls.public:
                return self.enter(o.cls.public[name], args, o)
            r = self.instance_method(o, name, args)
            if r is not NOVAL:
                return r
            if name in o.pub:
                return self.call(o.pub[name], args)
            self.error("Undefined attribute '%s'." % name)
        if isinstance(o, ClassV):
            m = o.private.get(name) if inside else None
            m = m or o.public.get(name)
            if m is not None:
                if not m.fn.static:
                    self.error("not static")
                return self.enter(m, args, None)
            self.error("Undefined attribute")
        if isinstance(o, list) and name == "len" and not args:
            return len(o)
        if isinstance(o, list) and name == "push" and len(args) == 1:
            o.append(args[0])
            return None
        if name == "toString" and not args and not isinstance(o, (str, Closure, EnumV)):
            return show(o)
        self.error("no method")

    def instance_method(self, o, name, args):
        return NOVAL

    def call(self, f, args):
        if isinstance(f, Native):
            return f.f(args)
        if isinstance(f, Bound):
            return self.enter(f.m, args, f.recv)
        if isinstance(f, ClassV) and f.kind == "class":
            o = Inst(f)
            if "init" in f.public:
                return self.enter(f.public["init"], args, o)
            if args:
                self.error("Expected 0 arguments but got %d." % len(args))
            return o
        if isinstance(f, Closure):
            return self.enter(f, args, NOVAL)
        self.error("'%s' is not callable" % V.typ(f) if not isinstance(f, OBJ) else "not callable")

    def enter(self, cl, args, recv):
        f = cl.fn
        self.tick()
        args = list(args)
        req = sum(1 for p in f.params if p[1] is None and p[2] != "...")
        variadic = any(p[2] == "..." for p in f.params)
        top = len(f.params)
        if variadic:
            if len(args) < req:
                # the engine counts the rest parameter as one argument
                self.error("Function '%s' expected %d argument(s) but got %d." % (f.name or "<anonymous>", top, len(args)))
            args[top - 1:] = [args[top - 1:]]
        elif len(args) < req:
            self.error("Function '%s' expected %d argument(s) but got %d." % (f.name or "<anonymous>", req, len(args)))
        elif len(args) > top:
            self.error("Function '%s' expected %d argument(s) but got %d." % (f.name or "<anonymous>", top, len(args)))
        if len(self.frames) > self.maxdepth:
            raise Discard()
        env = cl.env
        if cl.owner is not None:
            env = ("<class>", [cl.owner], env)
            if not f.static:
                env = ("this", [recv], env)
        fr = Frame(f.name or "<anonymous>")
        fr.line = f.line or self.frames[-1].line
        self.frames.append(fr)
        for i, (n, d, mark) in enumerate(f.params):
            if i < len(args):
                v = args[i]
            else:
                v = self.ev(d, env)
            env = (n, [v], env)
            if f.name == "init" and cl.owner is not None:
                if mark == "var":
                    recv.pub[n] = v
                elif mark == "private":
                    recv.priv[n] = v
        r = None
        if f.expr:
            r = self.ev(f.body, env)
        else:
            try:
                self.stmts(f.body, env, True)
            except Return as e:
                r = e.v
        if f.name == "init" and cl.owner is not None:
            r = recv
        self.frames.pop()
        return r

    # -- expressions
    def args(self, xs, spread, env):
        vals = [self.ev(y, env) for y in xs]
        if spread:
            l = vals.pop()
            return vals, l
        return vals, NOVAL

    def spread(self, vals, l):
        if l is NOVAL:
            return vals
        if not isinstance(l, list):
            self.error("Attempted to unpack a value that is not a list")
        return vals + l

    def binop(self, op, a, b):
        if op == "==":
            return same(a, b)
        if op == "!=":
            return not same(a, b)
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "+" and isinstance(a, list) and isinstance(b, list):
            return a + b
        if op in ("<", ">", "<=", ">=") and isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if not (isnum(a) and isnum(b)):
            self.error("Unsupported operand types for %s" % op)
        if op in ("<", ">", "<=", ">="):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        r = arith(op, a, b)
        if r is None:
            raise Discard()
        return r

    def ev(self, x, env):
        self.tick()
        k, a = x.k, x.a
        if k == "lit":
            return a[0]
        if k == "src":
            return a[2]
        if k == "var":
            return self.load(env, a[0])
        if k == "this":
            return self.load(env, "this")
        if k == "group":
            return self.ev(a[0], env)
        if k == "bin":
            l = self.ev(a[1], env)
            return self.binop(a[0], l, self.ev(a[2], env))
        if k == "and":
            l = self.ev(a[0], env)
            return self.ev(a[1], env) if V_truthy(l) else l
        if k == "or":
            l = self.ev(a[0], env)
            return l if V_truthy(l) else self.ev(a[1], env)
        if k == "tern":
            return self.ev(a[1] if V_truthy(self.ev(a[0], env)) else a[2], env)
        if k == "not":
            return not V_truthy(self.ev(a[0], env))
        if k == "neg":
            v = self.ev(a[0], env)
            if not isnum(v):
                self.error("Unsupported operand type for unary -")
            return -float(v)
        if k == "t":
            v = self.ev(a[1], env)
            self.print(a[0])
            return v
        if k == "set":
            v = self.ev(a[1], env)
            self.store(env, a[0], v)
            return v
        if k == "cset":
            old = self.load(env, a[0])
            v = self.binop(a[1], old, self.ev(a[2], env))
            self.store(env, a[0], v)
            return v
        if k == "list":
            return [self.ev(y, env) for y in a[0]]
        if k == "dict":
            return V.DictV([(self.ev(y, env), self.ev(z, env)) for y, z in a[0]])
        if k == "idx":
            o = self.ev(a[0], env)
            return self.element(o, self.ev(a[1], env))
        if k == "setidx":
            o = self.ev(a[0], env)
            i = self.ev(a[1], env)
            v = self.ev(a[2], env)
            self.setelement(o, i, v)
            return None
        if k == "csetidx":
            o = self.ev(a[0], env)
            i = self.ev(a[1], env)
            r = self.ev(a[3], env)
            self.setelement(o, i, self.binop(a[2], self.element(o, i), r))
            return None
        if k == "get":
            o = self.ev(a[0], env)
            return self.getattr(o, a[1], a[0].k == "this" and self.private_here(env, a[1]))
        if k == "optget":
            o = self.ev(a[0], env)
            return None if o is None else self.getattr(o, a[1])
        if k == "optcall":
            o = self.ev(a[0], env)
            if o is None:
                return None
            return self.invoke(o, a[1], [self.ev(y, env) for y in a[2]], a[0].k == "this")
        if k == "setattr":
            o = self.ev(a[0], env)
            self.setattr(o, a[1], self.ev(a[2], env), env, a[0].k == "this")
            return None
        if k == "csetattr":
            o = self.ev(a[0], env)
            old = self.getattr(o, a[1], a[0].k == "this" and self.private_here(env, a[1]))
            self.setattr(o, a[1], self.binop(a[2], old, self.ev(a[3], env)), env, a[0].k == "this")
            return None
        if k == "call":
            f = self.ev(a[0], env)
            return self.call(f, self.spread(*self.args(a[1], a[2], env)))
        if k == "mcall":
            o = self.ev(a[0], env)
            if a[0].k == "this" and self.private_here(env, a[1]):
                f = self.getattr(o, a[1], True)
                return self.call(f, self.spread(*self.args(a[2], a[3], env)))
            vals = self.spread(*self.args(a[2], a[3], env))
            return self.invoke(o, a[1], vals, a[0].k == "this")
        if k == "scall":
            this = self.load(env, "this")
            vals = self.spread(*self.args(a[1], a[2], env))
            sup = self.find(env, "super")[0]
            if a[0] not in sup.public:
                self.error("Undefined attribute")
            return self.enter(sup.public[a[0]], vals, this)
        if k == "sget":
            this = self.load(env, "this")
            sup = self.find(env, "super")[0]
            if a[0] not in sup.public:
                self.error("Undefined attribute")
            return Bound(this, sup.public[a[0]])
        if k == "fn":
            return Closure(a[0], env)
        raise AssertionError(k)

    def element(self, o, i):
        if isinstance(o, (list, str)):
            if not isnum(i):
                self.error("index must be a number")
            i = int(i)
            if i < 0:
                i += len(o)
            if not 0 <= i < len(o):
                self.error("index out of bounds")
            return o[i]
        if isinstance(o, V.DictV):
            k = V.key(i)
            for kk, v in o.items():
                if V.key(kk) == k:
                    return v
            self.error("Key does not exist")
        self.error("not subscriptable")

    def setelement(self, o, i, v):
        if isinstance(o, list):
            if not isnum(i):
                self.error("List index must be a number.")
            i = int(i)
            if i < 0:
                i += len(o)
            if not 0 <= i < len(o):
                self.error("List index out of bounds.")
            o[i] = v
        elif isinstance(o, V.DictV):
            o.d[V.key(i)] = (i, v)
        else:
            self.error("does not support item assignment")


def V_truthy(v):
    if isinstance(v, OBJ):
        return True
    return V.truthy(v)


TRACE = "def t(k, v) { print(k); return v; }\n"


# -- limits ----------------------------------------------------------------
def max_constants(prog):
    """An upper bound on the constants any one function of the program needs
    (the compiler allows 256 in each)."""
    worst = [0]

    def fn(f, params=True):
        box = [0, set()]
        for n, d, _ in f.params:
            box[1].add(n)
            box[0] += 1
            if d is not None:
                walk(d, box)
        if f.expr:
            walk(f.body, box)
        else:
            for st in f.body or []:
                walk(st, box)
        worst[0] = max(worst[0], box[0] + len(box[1]))

    def walk(x, box):
        if isinstance(x, Fn):
            box[0] += 1
            fn(x)
        elif isinstance(x, Cls):
            box[1].add(x.name)
            box[0] += 3
            if x.sup:
                box[1].add(x.sup)
            for m in x.members:
                if m[0] == "method":
                    box[1].add(m[1].name)
                    walk(m[1], box)
                elif m[0] == "use":
                    box[1].update(m[1])
                else:
                    box[1].add(m[1])
                    if len(m) > 2:
                        walk(m[2], box)
        elif isinstance(x, N):
            if x.k == "lit":
                lit(x.a[0], box)
            else:
                if x.k == "t":
                    box[0] += 1
                for y in x.a:
                    if isinstance(y, str):
                        box[1].add(y)
                    else:
                        walk(y, box)
        elif isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, str):
                    box[1].add(y)
                else:
                    walk(y, box)

    def lit(v, box):
        if isinstance(v, str):
            box[0] += 1
        elif isnum(v):
            box[0] += 1
        elif isinstance(v, list):
            for y in v:
                lit(y, box)
        elif isinstance(v, V.DictV):
            for k, y in v.items():
                lit(k, box)
                lit(y, box)
    fn(Fn("", [], prog))
    return worst[0]
