"""Queues and stacks against deque/list models, as a file, in the REPL with failing operations, and under GC stress."""
from ..core import Part
from .. import vals as V

VARIANTS = ["asan", "stress"]
RULE = ("a random history of 5-120 operations (14 kinds, incl. bulk push/pop loops that grow, shrink and wrap the storage) on "
        "two queues and two stacks created with and without a capacity; every value returned and every length compared; "
        "non-trivial = growth past the initial capacity after at least one pop, or a wrap past the end of the storage")


def mk(s, kind):
    """-> (expression, capacity)"""
    if s.below(3) == 0:
        return "%s.new()" % kind, 8
    n = s.weighted([(3, 1), (3, 2), (2, 3), (2, 5), (2, 8), (1, 9), (1, 16), (1, 33), (1, 100)])
    return "%s.newWithSize(%d).unwrap()" % (kind, n), n


def elem(s):
    """(expression, shown)"""
    v = V.gen_value(s, 1)
    while isinstance(v, (V.DictV, V.SetV)) and len(v.d) > 1:
        v = V.gen_value(s, 1)
    if s.below(3) == 0:
        k = s.int(0, 99)
        return '"made {}".format(%d)' % k, "made %d" % k
    return V.lit(v), V.show(v)


def gen_ops(s, allow_err, small):
    steps, st, nt = [], {}, False
    for name, kind in (("q", "Queue"), ("r", "Queue"), ("s", "Stack"), ("t", "Stack")):
        e, cap = mk(s, kind)
        st[name] = dict(x=[], cap=cap, popped=0, kind=kind)
        steps.append(("var %s = %s;" % (name, e), [], False))
        steps.append(("print(%s.cap()); print(%s.len()); print(%s.isEmpty()); print(%s);" % (name, name, name, name),
                      [str(cap), "0", "true", "<%s>" % kind], False))
    for _ in s.many(5, 60 if small else 120, 20 if small else 40):
        n = s.pick("qqrsst") if s.below(4) else s.pick("qrst")
        d = st[n]
        x, isq = d["x"], d["kind"] == "Queue"
        bad = allow_err and s.below(8) == 0
        op = s.weighted([(10, "push"), (7, "pop"), (3, "peek"), (2, "len"), (3, "bulkpush"), (3, "bulkpop"), (3, "rotate"),
                         (1, "drain"), (1, "full"), (1, "fill"), (1, "move"), (1, "recreate"), (1, "badnew"), (1, "nest")])
        s.label("op:" + op)
        err, out, line = False, [], None
        take = (lambda: x.pop(0)) if isq else (lambda: x.pop())
        see = (lambda: x[0]) if isq else (lambda: x[-1])

        def put(v):
            nonlocal nt
            x.append(v)
            if len(x) > d["cap"] and d["popped"]:
                nt = True
            if isq and d["popped"] and len(x) + d["popped"] > d["cap"]:
                nt = True
        if op == "push":
            e, sh = elem(s)
            if bad:
                line, err = "%s.push(%s);" % (n, s.pick(["", "1, 2"])), True
            else:
                put(sh)
                line = "%s.push(%s);" % (n, e)
                if s.below(4) == 0:
                    line, out = "print(%s.push(%s));" % (n, e), ["nil"]
        elif op == "pop":
            if not x:
                if not allow_err:
                    continue
                line, err = "print(%s.pop());" % n, True
            else:
                line, out = "print(%s.pop());" % n, [take()]
                d["popped"] += 1
        elif op == "peek":
            if not x:
                if not allow_err:
                    continue
                line, err = "print(%s.peek());" % n, True
            else:
                line, out = "print(%s.peek()); print(%s.peek());" % (n, n), [see()] * 2
        elif op == "len":
            line, out = "print(%s.len()); print(%s.isEmpty());" % (n, n), [str(len(x)), V.show(not x)]
        elif op == "bulkpush":
            c, b = s.int(1, 8 if small else 60), s.int(0, 1000)
            line = 'for (var i = 0; i < %d; i += 1) { %s.push("v{}".format(%d + i)); }' % (c, n, b)
            for i in range(c):
                put("v%d" % (b + i))
        elif op == "bulkpop":
            if not x:
                continue
            c = min(s.int(1, 60), len(x))
            line = "for (var i = 0; i < %d; i += 1) { print(%s.pop()); }" % (c, n)
            out = [take() for _ in range(c)]
            d["popped"] += c
        elif op == "rotate":
            if not x:
                continue
            c = s.int(1, 6 if small else 25)
            line = "for (var i = 0; i < %d; i += 1) { %s.push(%s.pop()); }" % (c, n, n)
            for _ in range(c):
                v = take()
                d["popped"] += 1
                put(v)
        elif op == "drain":
            line = "while (not %s.isEmpty()) { print(%s.pop()); }" % (n, n)
            d["popped"] += len(x)
            out = []
            while x:
                out.append(take())
        elif op == "full":
            line = "print(%s.isFull() == (%s.cap() == %s.len())); print(%s.cap() >= %s.len());" % (n, n, n, n, n)
            out = ["true", "true"]
        elif op == "fill":
            # fill exactly to capacity, then one more
            line = 'while (not %s.isFull()) { %s.push("f"); } print(%s.isFull()); print(%s.len() == %s.cap());' % (n, n, n, n, n)
            out = ["true", "true"]
            steps.append((line, out, False))
            # the capacity is the implementation's business: read the length back through the model of a drain
            keep = len(x)
            if isq:
                line = 'for (var i = 0; i < %d; i += 1) { print(%s.pop()); } while (not %s.isEmpty()) { if (%s.pop() != "f") { print("wrong"); } }' % (keep, n, n, n)
                out = list(x)
            else:
                line = 'while (%s.len() > %d) { if (%s.pop() != "f") { print("wrong"); } } for (var i = 0; i < %d; i += 1) { print(%s.pop()); }' % (n, keep, n, keep, n)
                out = list(reversed(x))
            x.clear()
            d["popped"] += keep + 1
        elif op == "move":
            m = s.pick("qrst")
            if m == n or not x:
                continue
            v = take()
            d["popped"] += 1
            d2 = st[m]
            d2["x"].append(v)
            line = "%s.push(%s.pop());" % (m, n)
        elif op == "recreate":
            if s.below(3):
                continue
            e, cap = mk(s, d["kind"])
            d.update(x=[], cap=cap, popped=0)
            line = "%s = %s;" % (n, e)
        elif op == "badnew":
            k = s.pick(["0", "-1", "-5", "0 - 100"])
            line = "print(%s.newWithSize(%s).success()); print(%s.newWithSize(%s));" % (d["kind"], k, d["kind"], k)
            out = ["false", "<Result Err>"]
            if bad:
                line, out, err = "%s.newWithSize(%s);" % (d["kind"], s.pick(["", '"1"', "nil", "1, 2"])), [], True
        elif op == "nest":
            m = s.pick("qrst")
            line = "%s.push(%s.new());" % (n, d["kind"])
            put("<%s>" % d["kind"])
        steps.append((line, out, err))
        steps.append(("print(%s.len());" % n, [str(len(st[n]["x"]))], False))
    for n, d in st.items():
        x = list(d["x"])
        steps.append(("while (not %s.isEmpty()) { print(%s.pop()); }" % (n, n), x if d["kind"] == "Queue" else x[::-1], False))
    return steps, nt


def check(case, ctx):
    (steps, nt), mode = case
    if nt:
        ctx.nontrivial([x[0] for x in steps])
    ctx.label("mode:" + ["file", "repl", "gc stress", "function"][mode])
    head = "import Queue; import Stack;"
    if mode == 1:
        ctx.repl([(head, [], False)] + steps)
        return
    body = "\n".join(x[0] for x in steps)
    if mode == 3:
        decl = [x[0] for x in steps if x[0].startswith("var ")]
        rest = [x[0] for x in steps if not x[0].startswith("var ")]
        body = "\n".join(decl) + "\n" + "".join("def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(rest[g:g + 6]), g)
                                                 for g in range(0, len(rest), 6))
        # declarations print nothing, so the order of the output is unchanged
    ctx.expect_items(head + "\n" + body + "\n", [i for x in steps for i in x[1]], variant="stress" if mode == 2 else "asan")


def parts():
    return [Part("file", lambda s: (gen_ops(s, False, False), 0 if s.below(2) else 3), check, 2500),
            Part("repl", lambda s: (gen_ops(s, True, False), 1), check, 2000),
            Part("stress", lambda s: (gen_ops(s, False, True), 2), check, 300)]
