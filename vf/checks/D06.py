"""Copies of object graphs against a Python heap model."""
from ..core import Part, Discard

RULE = ("a history of 4-40 steps over 3-5 variables holding nested lists, dictionaries, sets and instances (public and private "
        "attributes): copy, deepCopy, slice, concatenation, merge, map, aliasing, insertion of one variable's value into another, "
        "and mutation at a random path; every variable's whole graph is dumped after each step; non-trivial = a copy followed by a "
        "mutation at depth two or more")

PRE = """class A { init(x, private p) { this.x = x; this.p = p; this.y = nil; } getp() { return this.p; } setp(v) { this.p = v; } }
class B < A { init(x, private p) { super.init(x, p); } extra() { return 1; } }
def dump(v) {
    const t = type(v);
    if (t == "list") { var r = "["; v.forEach(def (e) => { r += dump(e) + ","; }); return r + "]"; }
    if (t == "dict") { var r = "{"; for (var i = 0; i < 6; i += 1) { if (v.exists("k" + i.toString())) { r += "k" + i.toString() + "=" + dump(v["k" + i.toString()]) + ","; } } return r + "#" + v.len().toString() + "}"; }
    if (t == "set") { var r = "("; for (var i = 0; i < 6; i += 1) { if (v.contains(i)) { r += i.toString() + ","; } } return r + "#" + v.len().toString() + ")"; }
    if (t == "A" or t == "B") { return t + "<" + dump(v.x) + ";" + dump(v.y) + ";" + dump(v.getp()) + ">"; }
    if (t == "string") { return v; }
    if (t == "nil") { return "nil"; }
    return v.toString();
}
"""


class L(list):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class D(dict):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class S(set):
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class I:
    def __init__(self, cls, x, p):
        self.cls, self.x, self.y, self.p = cls, x, None, p


def kids(v):
    if isinstance(v, L):
        return list(v)
    if isinstance(v, D):
        return list(v.values())
    if isinstance(v, I):
        return [v.x, v.y, v.p]
    return []


MUT = (L, D, S, I)


def reach(v, seen=None):
    """ids of mutable nodes; None if some node is reached twice"""
    seen = {} if seen is None else seen
    if isinstance(v, MUT):
        if id(v) in seen:
            seen["dup"] = True
            return seen
        seen[id(v)] = v
        for k in kids(v):
            reach(k, seen)
    return seen


def deep(v):
    if isinstance(v, L):
        return L(deep(x) for x in v)
    if isinstance(v, D):
        return D((k, deep(x)) for k, x in v.items())
    if isinstance(v, S):
        return S(v)
    if isinstance(v, I):
        n = I(v.cls, deep(v.x), deep(v.p))
        n.y = deep(v.y)
        return n
    return v


def shallow(v):
    if isinstance(v, I):
        n = I(v.cls, v.x, v.p)
        n.y = v.y
        return n
    return type(v)(v)


def dump(v):
    if isinstance(v, L):
        return "[" + "".join(dump(x) + "," for x in v) + "]"
    if isinstance(v, D):
        return "{" + "".join("k%d=%s," % (i, dump(v["k%d" % i])) for i in range(6) if "k%d" % i in v) + "#%d}" % len(v)
    if isinstance(v, S):
        return "(" + "".join("%d," % i for i in range(6) if i in v) + "#%d)" % len(v)
    if isinstance(v, I):
        return "%s<%s;%s;%s>" % (v.cls, dump(v.x), dump(v.y), dump(v.p))
    if v is None:
        return "nil"
    return v if isinstance(v, str) else str(v)


def gen(s):
    n = [0]

    def leaf():
        n[0] += 1
        r = s.below(4)
        return ("%d" % n[0], n[0]) if r else ('"s%d"' % n[0], "s%d" % n[0]) if s.below(2) else ("nil", None)

    def build(depth):
        """-> (source, model)"""
        r = s.below(6) if depth else 0
        if r <= 1 and depth < 3:
            return leaf()
        if r == 2 or (r <= 1 and s.below(2)):
            xs = [build(depth - 1) for _ in range(s.below(4))]
            return "[%s]" % ", ".join(x[0] for x in xs), L(x[1] for x in xs)
        if r == 3:
            ks = [i for i in range(6) if s.below(3) == 0]
            xs = [build(depth - 1) for _ in ks]
            return "{%s}" % ", ".join('"k%d": %s' % (k, x[0]) for k, x in zip(ks, xs)), D(("k%d" % k, x[1]) for k, x in zip(ks, xs))
        if r == 4:
            xs = [i for i in range(6) if s.below(3) == 0]
            return "set(%s)" % ", ".join(map(str, xs)), S(xs)
        if r == 5 or depth >= 3:
            a, b = build(depth - 1), build(depth - 1)
            c = s.pick("AB")
            return "%s(%s, %s)" % (c, a[0], b[0]), I(c, a[1], b[1])
        return leaf()

    names = ["v%d" % i for i in range(s.int(3, 5))]
    env, decl = {}, []
    for v in names:
        src, m = build(3)
        env[v] = m
        decl.append("var %s = %s;" % (v, src))
    stmts, out = [], []
    copied = deepmut = False

    def show():
        stmts.append(" ".join("print(dump(%s));" % v for v in names))
        out.extend(dump(env[v]) for v in names)
    show()

    def path(v):
        """Walk to a mutable node -> (source, node, depth)"""
        src, node, d = v, env[v], 0
        while isinstance(node, MUT) and s.below(3):
            if isinstance(node, L):
                opts = [("[%d]" % i, x) for i, x in enumerate(node)]
            elif isinstance(node, D):
                opts = [('["%s"]' % k, x) for k, x in node.items()]
            elif isinstance(node, I):
                opts = [(".x", node.x), (".y", node.y), (".getp()", node.p)]
            else:
                opts = []
            opts = [o for o in opts if isinstance(o[1], MUT)]
            if not opts:
                break
            e, node = s.pick(opts)
            src += e
            d += 1
        return src, node, d

    for _ in s.many(4, 40, 14):
        op = s.weighted([(3, "copy"), (3, "deep"), (2, "like"), (1, "alias"), (3, "insert"), (10, "mutate"), (1, "fresh")])
        v, w = s.pick(names), s.pick(names)
        if op == "fresh":
            src, m = build(3)
            env[v] = m
            st = "%s = %s;" % (v, src)
        elif op == "alias":
            src, node, d = path(w)
            env[v] = node
            st = "%s = %s;" % (v, src)
        elif op in ("copy", "deep"):
            src, node, d = path(w)
            if isinstance(node, S) or not isinstance(node, MUT):
                continue
            if op == "deep":
                if "dup" in reach(node):
                    continue
                env[v] = deep(node)
                st = "%s = %s.deepCopy();" % (v, src)
            else:
                env[v] = shallow(node)
                st = "%s = %s.copy();" % (v, src)
            copied = True
        elif op == "like":
            src, node, d = path(w)
            if isinstance(node, L):
                form = s.pick(["%s[0:]", "%s + []", "[] + %s", "%s.map(def (x) => x)", "[...]"])
                if form == "[...]":
                    form = "%s.filter(def (x) => true)"
                st = "%s = %s;" % (v, form % src)
            elif isinstance(node, D):
                st = "%s = %s;" % (v, s.pick(["%s.merge({})", "{}.merge(%s)"]) % src)
            else:
                continue
            env[v] = shallow(node)
            copied = True
        elif op == "insert":
            src, node, d = path(v)
            val = env[w]
            if not isinstance(node, MUT) or isinstance(node, S):
                continue
            if isinstance(val, MUT) and id(node) in reach(val):
                continue
            if sum(len(dump(x)) for x in env.values()) > 1500:
                continue
            if isinstance(node, L):
                node.append(val)
                st = "%s.push(%s);" % (src, w)
            elif isinstance(node, D):
                k = "k%d" % s.below(6)
                node[k] = val
                st = '%s["%s"] = %s;' % (src, k, w)
            else:
                a = s.pick(["x", "y", "p"])
                setattr(node, a, val)
                st = "%s.setp(%s);" % (src, w) if a == "p" else "%s.%s = %s;" % (src, a, w)
        else:
            src, node, d = path(v)
            if not isinstance(node, MUT):
                continue
            deepmut |= copied and d >= 2
            lf = leaf()
            if isinstance(node, L):
                k = s.below(5)
                if k == 0 or not node:
                    node.append(lf[1])
                    st = "%s.push(%s);" % (src, lf[0])
                elif k == 1:
                    i = s.int(-len(node), len(node) - 1)
                    node[i] = lf[1]
                    st = "%s[%d] = %s;" % (src, i, lf[0])
                elif k == 2:
                    node.pop()
                    st = "%s.pop();" % src
                elif k == 3:
                    node.reverse()
                    st = "%s.reverse();" % src
                else:
                    node.insert(0, lf[1])
                    st = "%s.insert(%s, 0);" % (src, lf[0])
            elif isinstance(node, D):
                k = "k%d" % s.below(6)
                if k in node and s.below(2):
                    del node[k]
                    st = '%s.remove("%s");' % (src, k)
                else:
                    node[k] = lf[1]
                    st = '%s["%s"] = %s;' % (src, k, lf[0])
            elif isinstance(node, S):
                k = s.below(6)
                if k in node:
                    node.remove(k)
                    st = "%s.remove(%d);" % (src, k)
                else:
                    node.add(k)
                    st = "%s.add(%d);" % (src, k)
            else:
                a = s.pick(["x", "y", "p"])
                setattr(node, a, lf[1])
                st = "%s.setp(%s);" % (src, lf[0]) if a == "p" else "%s.%s = %s;" % (src, a, lf[0])
        s.label("op:" + op)
        stmts.append(st)
        show()
    return decl, stmts, out, copied and deepmut, s.below(4)


def check(case, ctx):
    decl, stmts, out, nt, mode = case
    if nt:
        ctx.nontrivial(stmts)
    src = "\n".join(decl) + "\n"
    if mode & 2:        # what a statement leaves behind would move the variables declared after it
        stmts = ["{ const t1 = 5; %s const t2 = 6; if (t1 + t2 != 11) print(\"moved\"); }" % x if " = " in x.split("\n")[0] and x.count(";") == 1 else x for x in stmts]
    for g in range(0, len(stmts), 6):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(stmts[g:g + 6]), g)
    if mode & 1:
        src = "def f() {\n" + src + "\n}\nf();\n"
    ctx.expect(PRE + src, out)


# -- copies of graphs that contain themselves -----------------------------
def gen_cyc(s):
    n = s.int(1, 5)
    kinds = [s.pick("LDI") for _ in range(n)]
    edges = [s.below(n) for _ in range(n)]
    return kinds, edges, s.below(n), s.below(6)


def check_cyc(case, ctx):
    kinds, edges, root, steps = case
    ctx.nontrivial(case)
    mk = {"L": "[nil, %d]", "D": '{"n": nil, "v": %d}', "I": "A(nil, %d)"}
    nx = {"L": "%s[0]", "D": '%s["n"]', "I": "%s.x"}
    vl = {"L": "%s[1]", "D": '%s["v"]', "I": "%s.getp()"}
    st = {"L": "%s[1] = %d;", "D": '%s["v"] = %d;', "I": "%s.setp(%d);"}
    src = PRE + "".join("var o%d = %s;\n" % (i, mk[k] % i) for i, k in enumerate(kinds))
    src += "".join((nx[k] % ("o%d" % i)) + " = o%d;\n" % edges[i] for i, k in enumerate(kinds))
    src += "var c = o%d.deepCopy();\n" % root
    # walk both; the copy is a rho-shaped chain with the same values
    out, pos, e, seq = [], root, "c", []
    for i in range(n_steps(kinds)):
        src += "print(%s);\n" % (vl[kinds[pos]] % e)
        out.append(str(pos))
        seq.append((pos, e))
        e = nx[kinds[pos]] % e
        pos = edges[pos]
    # change the copy everywhere on the first lap: the originals stay
    for pos, e in seq[:len(kinds)]:
        src += (st[kinds[pos]] % (e, 77)) + "\n"
    for i, k in enumerate(kinds):
        src += "print(%s);\n" % (vl[k] % ("o%d" % i))
        out.append(str(i))
    src += "print(%s);\n" % (vl[kinds[root]] % "c")
    out.append("77")
    ctx.expect(src, out)


def n_steps(kinds):
    return 2 * len(kinds) + 1


def parts():
    return [Part("graphs", gen, check, 16000), Part("cycles", gen_cyc, check_cyc, 2000)]
