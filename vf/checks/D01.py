"""Lists against a plain sequence model, after every operation."""
import functools
from ..core import Part, Any
from .. import vals as V

RULE = ("a random history of 3-40 list operations (28 kinds) on up to three lists, run as a file (top level or inside a "
        "function) or in the REPL with failing operations in between, printing the list after every operation; "
        "non-trivial = at least 3 mutating operations and a list that reached length 3")
ASSUMES = ["find/findIndex start and end within the list", "sortFunc callbacks are consistent comparators"]

# callbacks: name, Dictu text, Python function
MAPS = [("id", "def (x) => x", lambda x: x), ("wrap", "def (x) => [x]", lambda x: [x]),
        ("type", "def (x) => type(x)", V.typ), ("not", "def (x) => not x", lambda x: not V.truthy(x)),
        ("eq3", "def (x) => x == 3", lambda x: V.eq(x, 3)), ("str", 'def (x) => "<{}>".format(x)', lambda x: "<" + V.show(x) + ">"),
        ("blk", "def (x) => { if (x == 1) { return 10; } return x; }", lambda x: 10 if V.eq(x, 1) else x)]
PREDS = [("num", 'def (x) => type(x) == "number"', lambda x: V.typ(x) == "number"), ("truthy", "def (x) => x", V.truthy),
         ("ne1", "def (x) => x != 1", lambda x: not V.eq(x, 1)), ("eqa", 'def (x) => x == "a"', lambda x: V.eq(x, "a")),
         ("never", "def (x) => false", lambda x: False), ("always", "def (x) => 1", lambda x: True)]
NUMPREDS = [("gt", "def (x) => x > 2", lambda x: x > 2), ("even", "def (x) => x % 2 == 0", lambda x: x % 2 == 0)]


def elem(s, kind):
    if kind == "num":
        return V.gen_num(s)
    if kind == "small":
        return s.int(0, 5)
    if kind == "str":
        return V.gen_str(s)
    if s.below(8) == 0:
        return [V.gen_scalar(s) for _ in s.many(0, 3, 1)]
    return V.gen_scalar(s)


def index(s, n, bad):
    """An index valid for a list of n elements, or an invalid one."""
    if bad:
        return s.pick([n, -n - 1, n + s.int(0, 5), -n - 1 - s.int(0, 5), 1000000])
    return s.int(0, n - 1) if s.below(2) else -1 - s.int(0, n - 1)


def gen_ops(s, allow_err):
    kind = s.pick(["mixed", "num", "small", "str"])
    s.label("kind:" + kind)
    lists = {"a": [elem(s, kind) for _ in s.many(0, 12, 5)]}
    big = s.below(12) == 0
    steps = [("var a = %s;" % V.lit(lists["a"]), [], False)]
    if big:
        n, k, m = s.int(10, 300), s.int(1, 97), s.int(2, 400)
        if kind == "str":
            steps.append(("for (var i = 0; i < %d; i += 1) { a.push('s{}'.format((i * %d) %% %d)); }" % (n, k, m), [], False))
            lists["a"] += ["s%d" % (i * k % m) for i in range(n)]
        else:
            steps.append(("for (var i = 0; i < %d; i += 1) { a.push((i * %d) %% %d); }" % (n, k, m), [], False))
            lists["a"] += [i * k % m for i in range(n)]
    lists["b"] = [elem(s, kind) for _ in s.many(0, 5, 2)]
    steps.append(("var b = %s;" % V.lit(lists["b"]), [], False))
    mut = 0
    maxlen = 0
    for _ in s.many(3, 40, 14):
        v = "a" if s.below(4) else "b"
        o = "b" if v == "a" else "a"
        l = lists[v]
        n = len(l)
        maxlen = max(maxlen, n)
        bad = allow_err and s.below(6) == 0
        op = s.weighted([(8, "push"), (5, "insert"), (4, "pop"), (4, "popi"), (4, "remove"), (3, "set"), (3, "get"),
                         (2, "extend"), (2, "plus"), (2, "reverse"), (3, "sort"), (2, "sortFunc"), (2, "contains"),
                         (2, "join"), (2, "map"), (2, "filter"), (1, "reduce"), (1, "forEach"), (2, "find"),
                         (2, "findIndex"), (2, "splice"), (1, "unique"), (1, "compound"), (1, "selfextend"),
                         (1, "sum"), (1, "loop"), (1, "assign"), (1, "lenbool"), (1, "popall"), (1, "contains_nested")])
        s.label("op:" + op)
        err = False
        out = []
        line = None
        if n > 400 and op in ("extend", "plus", "splice", "selfextend", "insert", "push"):
            op = "reverse"
        if op == "push":
            x = elem(s, kind)
            line = "%s.push(%s);" % (v, V.lit(x))
            l.append(x)
            mut += 1
        elif op == "insert":
            x = elem(s, kind)
            if bad:
                i = s.pick([n + 1, -n - 2, n + 7])
                err = True
            else:
                # docs: position before which to insert; -1 is after the last element
                i = s.int(0, n) if s.below(3) else -1 - s.int(0, n)
                l.insert(i if i >= 0 else n + i + 1, x)
                mut += 1
            line = "%s.insert(%s, %d);" % (v, V.lit(x), i)
        elif op == "pop":
            if n == 0:
                if not allow_err:
                    continue
                line, err = "%s.pop();" % v, True
            else:
                line, out = "print(%s.pop());" % v, [V.show(l.pop())]
                mut += 1
        elif op == "popi":
            if n == 0 or bad:
                if not allow_err:
                    continue
                line, err = "%s.pop(%d);" % (v, index(s, n, True)), True
            else:
                i = index(s, n, False)
                line, out = "print(%s.pop(%d));" % (v, i), [V.show(l.pop(i))]
                mut += 1
        elif op == "remove":
            x = s.pick(l) if n and not bad and s.below(8) else elem(s, kind)
            pos = next((k for k, y in enumerate(l) if V.eq(x, y)), None)
            line = "%s.remove(%s);" % (v, V.lit(x))
            if pos is None:
                if not allow_err:
                    continue
                err = True
            else:
                del l[pos]
                mut += 1
        elif op == "set":
            if n == 0 and not allow_err:
                continue
            x = elem(s, kind)
            if n == 0 or bad:
                err = True
                line = "%s[%d] = %s;" % (v, index(s, n, True), V.lit(x))
            else:
                i = index(s, n, False)
                l[i] = x
                line = "%s[%d] = %s;" % (v, i, V.lit(x))
                mut += 1
        elif op == "get":
            if n == 0 or bad:
                if not allow_err:
                    continue
                err = True
                line = "print(%s[%d]);" % (v, index(s, n, True))
            else:
                i = index(s, n, False)
                line, out = "print(%s[%d]);" % (v, i), [V.show(l[i])]
        elif op == "extend":
            line = "%s.extend(%s);" % (v, o)
            l.extend(lists[o])
            mut += 1
        elif op == "selfextend":
            if n > 150:
                continue
            line = "%s.extend(%s);" % (v, v)
            l.extend(list(l))
            mut += 1
        elif op == "plus":
            line, out = "print(%s + %s);" % (v, o), [V.show(l + lists[o])]
            if s.below(2):
                line = "%s = %s + %s;" % (v, v, o)
                out = []
                lists[v] = l + lists[o]
                mut += 1
        elif op == "assign":
            line = "%s = %s.copy();" % (v, o)
            lists[v] = list(lists[o])
        elif op == "reverse":
            line = "%s.reverse();" % v
            l.reverse()
            mut += 1
        elif op == "sort":
            isnum = all(V.typ(x) == "number" for x in l)
            isstr = all(V.typ(x) == "string" for x in l)
            line = "%s.sort();" % v
            if isnum:
                l.sort()
                mut += 1
            elif isstr:
                l.sort(key=lambda x: x.encode())
                mut += 1
            else:
                if not allow_err:
                    continue
                err = True
        elif op == "sortFunc":
            if not all(V.typ(x) == "number" for x in l) or n > 60:
                continue
            if s.below(2):
                line = "%s.sortFunc(def (x, y) => x - y);" % v
                l.sort()
            else:
                line = "%s.sortFunc(def (x, y) => { return y - x; });" % v
                l.sort(reverse=True)
            mut += 1
        elif op == "contains":
            x = s.pick(l) if n and s.below(2) else elem(s, kind)
            line, out = "print(%s.contains(%s));" % (v, V.lit(x)), [V.show(any(V.eq(x, y) for y in l))]
        elif op == "contains_nested":
            x = [elem(s, kind)]
            l.append(list(x))
            line, out = "%s.push(%s); print(%s.contains(%s));" % (v, V.lit(x), v, V.lit(x)), ["true"]
        elif op == "join":
            if s.below(3) == 0:
                line, d = "print(%s.join());" % v, ", "
            else:
                d = s.pick(["-", "", ", ", "<=>", " "])
                line = "print(%s.join(%s));" % (v, V.qlit(d))
            out = [d.join(V.show(x) for x in l)]
        elif op == "map":
            _, t, f = s.pick(MAPS)
            line, out = "print(%s.map(%s));" % (v, t), [V.show([f(x) for x in l])]
        elif op == "filter":
            if all(V.typ(x) == "number" for x in l) and s.below(2):
                _, t, f = s.pick(NUMPREDS)
            else:
                _, t, f = s.pick(PREDS)
            if s.below(5) == 0:
                line, out = "print(%s.filter());" % v, [V.show([x for x in l if V.truthy(x)])]
            else:
                line, out = "print(%s.filter(%s));" % (v, t), [V.show([x for x in l if f(x)])]
        elif op == "reduce":
            if all(V.typ(x) == "number" for x in l) and s.below(2):
                acc = 0.0
                for x in l:
                    acc = acc + float(x)
                line, out = "print(%s.reduce(def (p, x) => p + x));" % v, [V.show(acc)]
            else:
                line, out = "print(%s.reduce(def (p, x) => p + [x], []));" % v, [V.show(l)]
        elif op == "sum":
            if not all(V.typ(x) == "string" for x in l):
                continue
            line, out = 'print(%s.reduce(def (p, x) => x + p, ""));' % v, ["".join(reversed(l))]
        elif op == "forEach":
            line = '%s.forEach(def (x) => print("e {}".format(x)));' % v
            out = ["e " + V.show(x) for x in l]
        elif op == "loop":
            line = 'for (var i = 0; i < %s.len(); i += 1) { print(%s[i]); }' % (v, v)
            out = [V.show(x) for x in l]
        elif op in ("find", "findIndex"):
            _, t, f = s.pick(PREDS)
            i, j = 0, n
            k = s.below(3)
            args = t
            if k >= 1:
                i = s.int(0, n)
                args += ", %d" % i
            if k == 2:
                j = s.int(i, n)
                args += ", %d" % j
            hit = next((q for q in range(i, j) if f(l[q])), None)
            res = None if hit is None else (l[hit] if op == "find" else hit)
            line, out = "print(%s.%s(%s));" % (v, op, args), [V.show(res)]
        elif op == "splice":
            i, c = s.int(0, n), s.int(0, n + 1)
            items = [elem(s, kind) for _ in s.many(0, 3, 1)]
            res = l[:i] + items + l[i + c:]
            line, out = "print(%s.splice(%d, %d, %s));" % (v, i, c, V.lit(items)), [V.show(res)]
        elif op == "unique":
            if any(isinstance(x, list) for x in l):
                continue
            u = {V.key(x): x for x in l}
            line = '%s.unique().forEach(def (x) => print("{} {}".format(type(x), x)));' % v
            out = [Any("%s %s" % (V.typ(x), V.show(x)) for x in u.values())]
        elif op == "compound":
            nums = [k for k, x in enumerate(l) if V.typ(x) == "number"]
            if not nums:
                continue
            i = s.pick(nums)
            sym = s.pick(["+=", "-=", "*="])
            d = s.int(0, 9)
            x = float(l[i])
            l[i] = x + d if sym == "+=" else x - d if sym == "-=" else x * d
            if l[i] == 0:
                l[i] = 0
            line = "%s[%d] %s %d;" % (v, i if s.below(2) else i - n, sym, d)
            if sym == "*=" and x < 0 and d == 0:
                continue_zero = True
                line, l[i] = "%s[%d] = 0;" % (v, i), 0
            mut += 1
        elif op == "lenbool":
            line, out = "print(%s.len()); print(%s.toBool()); print(%s.toString());" % (v, v, v), [
                str(n), V.show(n > 0), V.show(l)]
        elif op == "popall":
            if s.below(3):
                continue
            line, out = "while (%s.len() > 0) { print(%s.pop()); }" % (v, v), [V.show(x) for x in reversed(l)]
            del l[:]
        steps.append((line, out, err))
        lst = lists[v]
        steps.append(("print(%s); print(%s.len());" % (v, v), [V.show(lst), str(len(lst))], False))
        maxlen = max(maxlen, len(lst))
    steps.append(("print(a); print(b);", [V.show(lists["a"]), V.show(lists["b"])], False))
    return steps, mut, maxlen


def gen_file(s):
    steps, mut, mx = gen_ops(s, False)
    return steps, mut, mx, s.below(2)


def gen_repl(s):
    steps, mut, mx = gen_ops(s, True)
    return steps, mut, mx, 2


def check(case, ctx):
    steps, mut, mx, mode = case
    if mut >= 3 and mx >= 3:
        ctx.nontrivial([x[0] for x in steps])
    ctx.label("mode:" + ["top level", "in function", "repl"][mode])
    if any(e for _, _, e in steps):
        ctx.label("with failing operation")
    if mx > 100:
        ctx.label("long list")
    if mode == 2:
        ctx.repl(steps)
        return
    # a function holds at most 256 constants: group the steps
    decl = [x[0] for x in steps if x[0].startswith("var ")]
    body = [x[0] for x in steps if not x[0].startswith("var ")]
    src = "\n".join(decl) + "\n"
    for g in range(0, len(body), 10):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(body[g:g + 10]), g)
    if mode == 1:
        src = "def f() {\n" + src + "\n}\nf();"
    ctx.expect_items(src + "\n", [i for x in steps for i in x[1]])


def parts():
    return [Part("file", gen_file, check, 8000), Part("repl", gen_repl, check, 8000)]
