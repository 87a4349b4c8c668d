"""Reflection and annotations against the reference interpreter."""
from ..core import Part, Discard
from ..lang import N, Fn, Cls, Interp, Native, Inst, ClassV, Closure, Bound, EnumV, NOVAL, render, max_constants, num, isnum
from .. import vals as V
from . import L05

RULE = ("L05's class hierarchies with private members and annotations (class, method and field, values of every allowed type nested up to "
        "3 deep, classes redeclared by a factory with different parents), attribute changes, and every reflective query of instances, "
        "classes and the Object module; non-trivial = at least 6 queries and an attribute change or an inherited member")

NOTES = ["N0", "N1", "N2"]
KEYS = ["k", "k2"]
POOL = (L05.M + L05.ATTR + L05.CV + L05.CC + L05.ST + NOTES + KEYS + ["_class", "_name", "init", "p0", "hid", "setp", "q", "missing",
        "fields", "methods", "attributes", "public_methods", "public_variables", "constants", "toString", "m9"])

PRELUDE = '''import Object;
const POOL = [%s];
def canon(v) {
    if (type(v) == "dict") {
        var r = ["dict", v.len()];
        for (var i = 0; i < POOL.len(); i += 1) {
            if (v.exists(POOL[i])) r.push([POOL[i], canon(v[POOL[i]])]);
        }
        return r;
    }
    if (type(v) == "list") {
        var r = [];
        for (var i = 0; i < v.len(); i += 1) r.push(canon(v[i]));
        return r;
    }
    return v;
}
def names(l) {
    var r = [l.len()];
    for (var i = 0; i < POOL.len(); i += 1) {
        var c = 0;
        for (var j = 0; j < l.len(); j += 1) if (l[j] == POOL[i]) c += 1;
        if (c > 0) r.push([POOL[i], c]);
    }
    return r;
}
''' % ", ".join('"%s"' % x for x in POOL)


class Mod:
    pass


class Res:
    def __init__(self, ok, v):
        self.ok, self.v = ok, v


def dictv(d):
    return V.DictV([(k, dictv(v) if isinstance(v, dict) else v) for k, v in d.items()])


def canon(v):
    if isinstance(v, V.DictV):
        d = {k: x for k, x in v.items()}
        return ["dict", len(d)] + [[n, canon(d[n])] for n in POOL if n in d]
    if isinstance(v, list):
        return [canon(x) for x in v]
    return v


def names(l):
    return [len(l)] + [[n, l.count(n)] for n in POOL if n in l]


def typ(v):
    if isinstance(v, Inst):
        return v.cls.name
    if isinstance(v, ClassV):
        return "trait" if v.kind == "trait" else "class"
    if isinstance(v, Bound):
        return "method"
    if isinstance(v, Closure):
        return "function"
    if isinstance(v, EnumV):
        return "enum"
    return V.typ(v)


class RI(Interp):
    def __init__(self, **kw):
        Interp.__init__(self, **kw)
        self.globals["canon"] = Native("canon", lambda a: canon(a[0]))
        self.globals["names"] = Native("names", lambda a: names(a[0]))
        self.globals["type"] = Native("type", lambda a: typ(a[0]))
        self.globals["Object"] = Mod()

    def look(self, o, n):
        try:
            return self.getattr(o, n)
        except Exception:
            return NOVAL

    def instance_method(self, o, name, args):
        n = len(args)
        if name == "toString" and n == 0:
            return "<%s instance>" % o.cls.name
        if name in ("hasAttribute", "getAttribute", "setAttribute"):
            want = {"hasAttribute": (1,), "getAttribute": (1, 2), "setAttribute": (2,)}[name]
            if n not in want or not isinstance(args[0], str):
                self.error("argument")
            if name == "setAttribute":
                o.pub[args[0]] = args[1]
                return None
            v = self.look(o, args[0])
            if name == "hasAttribute":
                return v is not NOVAL
            return v if v is not NOVAL else args[1] if n == 2 else None
        if name == "isInstance":
            if n != 1 or not isinstance(args[0], ClassV):
                self.error("argument")
            return args[0] in o.cls.chain()
        if name == "methods" and n == 0:
            return list(o.cls.public)
        if name == "getAttributes" and n == 0:
            f = set()
            for c in o.cls.chain():
                f |= set(c.vars) | set(c.consts)
            return dictv({"fields": sorted(f), "attributes": list(o.pub), "methods": list(o.cls.public)})
        return NOVAL

    def getattr(self, o, name, inside=False):
        if isinstance(o, ClassV):
            for c in o.chain():
                if name in c.consts or name in c.vars:
                    break
            else:
                if name in ("classAnnotations", "methodAnnotations", "fieldAnnotations"):
                    d = o.notes[("class", "method", "field").index(name[:-11])]
                    return None if d is None else dictv({k: None if v is NOVAL else {a: None if b is NOVAL else b for a, b in v.items()} if isinstance(v, dict) else v for k, v in d.items()})
        return Interp.getattr(self, o, name, inside)

    def invoke(self, o, name, args, inside=False):
        if isinstance(o, Mod):
            if name == "getClassRef":
                c = self.globals.get(args[0])
                return Res(True, c) if isinstance(c, ClassV) else Res(False, "%s class could not be found" % args[0])
            if name == "createFrom":
                c = self.globals.get(args[0])
                if isinstance(c, ClassV):
                    return Res(True, self.call(c, args[1:]))
                return Res(False, "%s class could not be found" % args[0])
        if isinstance(o, Res):
            if name == "success":
                return o.ok
            if name == "unwrap" and o.ok:
                return o.v
            if name == "unwrapError" and not o.ok:
                return o.v
            self.error("result")
        if isinstance(o, ClassV) and name not in o.public:
            if name == "toString":
                return "<Trait %s>" % o.name if o.kind == "trait" else "<Cls %s>" % o.name
            if name == "methods":
                return list(o.public)
            if name == "toDict":
                v, k, m = {}, {}, []
                for c in o.chain():
                    for a in c.vars:
                        v.setdefault(a, c.vars[a])
                    for a in c.consts:
                        k.setdefault(a, c.consts[a])
                    m += [x for x in c.public if x not in m]
                return dictv({"public_variables": v, "constants": k, "public_methods": m})
        return Interp.invoke(self, o, name, args, inside)


class G(L05.G):
    def noteval(self, d=0):
        s = self.s
        k = s.below(8 if d < 3 else 6)
        if k == 0:
            return NOVAL if d == 0 else None
        if k == 6:
            return [self.noteval(d + 1) for _ in range(s.below(4))]
        if k == 7:
            return V.DictV([(x, self.noteval(d + 1)) for x in s.subset(KEYS, 0.6)])
        return s.pick(["v", "a)b", 'q"r', "", 0, 7, 2.5, True, False, None])

    def noteset(self):
        s = self.s
        return [(s.pick(NOTES), self.noteval()) for _ in range(1 + s.below(3))]

    def extend(self, c, i):
        s = self.s
        if c.kind == "class" and s.below(3) == 0:
            self.c("private members")
            c.members.append(("private", "p0"))
            f = Fn("hid", [("p", None, "")], [N("return", N("lit", "hid"))])
            f.private = True
            c.members.append(("method", f))
            c.members.append(("method", Fn("setp", [("p", None, "")], [
                N("expr", N("setattr", N("this"), "p0", N("var", "p"))), N("return", N("get", N("this"), "p0"))])))
            i.methods["setp"] = 1
        if s.below(2):
            self.c("annotated class")
            if s.below(2):
                c.notes = self.noteset()
            ms = []
            for m in c.members:
                if m[0] in ("var", "const") and s.below(3) == 0:
                    m = m + (self.noteset(),)
                elif m[0] == "method" and s.below(3) == 0:
                    m[1].notes = self.noteset()
                ms.append(m)
            c.members = ms

    def factory(self):
        """A function that declares an annotated class with the parent it is given."""
        s = self.s
        conc = [i for i in self.classes if not i.abstract]
        if not conc:
            return
        c = Cls("Z", "B", "class")
        if s.below(2):
            c.notes = self.noteset()
        f = Fn("m3", [("p", None, "")], [N("return", N("var", "p"))])
        f.notes = self.noteset() if s.below(2) else []
        c.members = [("method", f), ("var", "v0", num(5), self.noteset() if s.below(2) else [])]
        self.prog.append(N("def", Fn("mk", [("B", None, "")], [N("class", c), N("return", N("var", "Z"))])))
        self.c("class factory")
        zs = []
        for j in range(1 + s.below(3)):
            self.prog.append(N("var", [("Z%d" % j, N("call", N("var", "mk"), [N("var", s.pick(conc).name)], False))]))
            zs.append("Z%d" % j)
        for z in s.shuffle(zs) + zs[:1]:
            self.annotations(N("var", z))

    def annotations(self, c):
        a = self.s.pick(["classAnnotations", "methodAnnotations", "fieldAnnotations"])
        self.prog.append(N("print", N("call", N("var", "canon"), [N("get", c, a)], False)))
        self.q("annotations")

    def q(self, k):
        self.c("query " + k)
        self.c("queries")

    def op(self, n, i):
        s = self.s
        if s.below(3) == 0:
            self.c("ordinary operation")
            return L05.G.op(self, n, i)
        P = self.prog.append
        o = N("var", n)
        c = s.pick(self.classes)
        v = N("var", c.name)
        if s.below(4) == 0:
            c, v = i, s.pick([N("var", i.name), N("get", o, "_class")])
        name = s.pick(L05.M + L05.ATTR + L05.CV + L05.CC + ["_class", "_name", "init", "p0", "hid", "setp", "missing", "toString"])
        nm = N("lit", name)

        def call(recv, m, *a):
            return N("mcall", recv, m, list(a), False)

        def fn(f, x):
            return N("call", N("var", f), [x], False)
        k = s.below(16)
        if k < 2:
            self.q("hasAttribute")
            P(N("print", call(o, "hasAttribute", nm)))
        elif k == 2:
            self.q("getAttribute")
            P(N("print", call(o, "getAttribute", nm, *([N("lit", "dflt")] if s.below(2) else []))))
        elif k == 3:
            self.q("getAttributes")
            P(N("print", fn("names", N("idx", call(o, "getAttributes"), N("lit", s.pick(["fields", "methods", "attributes"]))))))
            if s.below(3) == 0:
                P(N("print", N("mcall", call(o, "getAttributes"), "len", [], False)) if False else N("print", fn("names", N("idx", call(o, "getAttributes"), N("lit", "attributes")))))
        elif k == 4:
            self.q("setAttribute")
            a = s.pick(L05.ATTR + L05.M + L05.CV)
            P(N("print", call(o, "setAttribute", N("lit", a), self.val())))
            P(N("print", N("get", o, a)))
            P(N("print", call(o, "hasAttribute", N("lit", a))))
        elif k in (5, 6):
            self.q("isInstance")
            P(N("print", call(o, "isInstance", v)))
        elif k == 7:
            self.q("methods")
            P(N("print", fn("names", call(s.pick([o, v]), "methods"))))
        elif k == 8:
            self.q("toDict")
            x = s.pick(["public_methods", "public_variables", "constants"])
            e = N("idx", call(v, "toDict"), N("lit", x))
            P(N("print", fn("names" if x == "public_methods" else "canon", e)))
        elif k in (9, 10):
            self.annotations(v)
        elif k == 11:
            self.q("type")
            P(N("print", N("list", [fn("type", o), fn("type", v), call(o, "toString"), call(v, "toString"), N("get", v, "_name")])))
        elif k == 12:
            self.q("optional chaining")
            recv = o if s.below(2) else N("group", N("lit", None))
            if s.below(2):
                a = s.pick(sorted(i.attrs) + sorted(i.vars) + sorted(i.methods) + sorted(i.consts) + ["_class"])
                P(N("print", N("optget", recv, a)))
            elif i.methods:
                P(N("print", N("optcall", recv, s.pick(sorted(i.methods)), [self.val()])))
        elif k == 13:
            self.q("getClassRef")
            nm = s.pick([c.name, c.name, "Nope", n])
            r = call(N("var", "Object"), "getClassRef", N("lit", nm))
            P(N("print", call(r, "success")))
            P(N("print", call(r, "unwrap" if nm == c.name else "unwrapError")))
        elif k == 14 and i.methods:
            self.q("method read through getAttribute")
            m = s.pick(sorted(i.methods))
            g = call(o, "getAttribute", N("lit", m))
            P(N("print", N("call", g, [self.val()], False)))
        elif k == 15:
            self.q("createFrom")
            conc = [x for x in self.classes if x.kind == "class"]
            x = s.pick(conc)
            self.nob += 1
            P(N("var", [("o%d" % self.nob, call(call(N("var", "Object"), "createFrom", N("lit", x.name), *[self.val() for _ in range(x.init or 0)]), "unwrap"))]))
            self.objs.append(("o%d" % self.nob, x))
            P(N("print", call(N("var", "o%d" % self.nob), "isInstance", N("var", s.pick(self.classes).name))))

    def refused(self):
        s = self.s
        if not self.objs or s.below(3) == 0:
            return L05.G.refused(self)
        o = N("var", s.pick(self.objs)[0])
        P = self.prog.append
        P(N("print", N("lit", "before")))
        k = s.below(7)
        if k == 0:
            P(N("print", N("mcall", o, s.pick(["hasAttribute", "getAttribute"]), [s.pick([num(3), N("lit", None), o])], False)))
        elif k == 1:
            P(N("print", N("mcall", o, "setAttribute", s.pick([[N("lit", "a0")], [num(1), num(2)]]), False)))
        elif k == 2:
            P(N("print", N("mcall", o, "isInstance", [s.pick([num(3), o, N("lit", "C0")])], False)))
        elif k == 3:
            P(N("print", N("optget", o, "missing")))
        elif k == 4:
            P(N("print", N("optcall", o, "missing", [])))
        elif k == 5:
            P(N("print", N("get", N("group", N("lit", None)), "a0")))
        else:
            P(N("print", N("mcall", N("mcall", N("var", "Object"), "getClassRef", [N("lit", "Nope")], False), "unwrap", [], False)))
        P(N("print", N("lit", "after")))

    def ops(self):
        if self.s.below(3) == 0:
            self.factory()
        L05.G.ops(self)


def gen(s):
    return G(s).program()


def check(case, ctx):
    prog, count, refused, depth = case
    if max_constants(prog) > 240:
        raise Discard()
    I = RI(budget=40000)
    src = PRELUDE + render(prog)
    err = I.run(prog)
    if count.get("queries", 0) >= 6 and (depth or count.get("query setAttribute") or count.get("ordinary operation")):
        ctx.nontrivial(src)
    for k in count:
        ctx.label(k, count[k])
    if err:
        ctx.label("refused")
    ctx.expect(src, I.out, exit=70 if err else 0)


def parts():
    return [Part("reflection", gen, check, 5000)]
