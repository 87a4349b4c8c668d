"""Generated test classes whose every assertion, count, order and exit status is known beforehand."""
import re
from .. import vals as V
from ..core import Part

TECHNIQUE = "model-based generation of test classes; the complete report (each line of each method, the three totals, the exit status) is compared with the model"
RULE = ("(classes) 1-3 test classes per program, each 0-7 methods (tests, providers returning lists, single and empty values, skipped, "
        "ordinary, inherited and overridden methods, setUp and tearDown that print), 0-6 passing and failing assertions of all 9 kinds per test "
        "in straight code, loops, branches and helpers, with quiet and stop-on-failure set per class or globally; "
        "non-trivial = both passing and failing assertions, or a provider")
P = " " * 9


def plain(v):
    return v if isinstance(v, str) else V.show(v)


def value(s):
    k = s.below(8)
    if k < 3:
        return s.int(-3, 3)
    if k == 3:
        return s.pick(["", "a", "{}", "x y", "number", "nil"])
    if k == 4:
        return s.pick([None, True, False])
    if k == 5:
        return s.pick([[], [1], ["a", None], [[1]]])
    return V.gen_scalar(s)


RESULT = {"Success(nil)": (True, "<Result Suc>"), "Success([1])": (True, "<Result Suc>"), 'Error("no")': (False, "<Result Err>"), '"x".toNumber()': (False, "<Result Err>"), '"4".toNumber()': (True, "<Result Suc>")}


def assertion(s, hint=None):
    """-> (source of the call's rest, passes, message)"""
    k = s.pick(["Equals", "Equals", "NotEquals", "Nil", "NotNil", "Type", "Truthy", "Falsey", "Success", "Error"])
    s.label(k)
    v, src = hint if hint is not None else (None, None)
    if src is None:
        v = value(s)
        src = V.lit(v)
    f = plain(v)
    if k in ("Equals", "NotEquals"):
        w = v if s.below(2) else value(s)
        same = V.eq(v, w)
        ok = same == (k == "Equals")
        return "assert%s(%s, %s)" % (k, src, V.lit(w)), ok, "%s is %sequal to %s." % (f, "not " if k == "Equals" else "", plain(w))
    if k == "Nil":
        return "assertNil(%s)" % src, v is None, "%s is not nil." % f
    if k == "NotNil":
        return "assertNotNil(%s)" % src, v is not None, "Should not be nil."
    if k == "Type":
        t = V.typ(v) if s.below(2) else s.pick(["string", "number", "nil", "bool", "list", "", "result", "Number"])
        return "assertType(%s, '%s')" % (src, t), t == V.typ(v), "%s(%s) is not of type %s." % (f, V.typ(v), t)
    if k in ("Truthy", "Falsey"):
        return "assert%s(%s)" % (k, src), V.truthy(v) == (k == "Truthy"), "%s is not %s." % (f, k)
    if s.below(3):
        r = s.pick(sorted(RESULT))
        ok, shown = RESULT[r]
        return "assert%s(%s)" % (k, r), ok == (k == "Success"), "%s is not a Result type in %s state." % (shown, "a success" if k == "Success" else "an error")
    return "assert%s(%s)" % (k, src), False, "%s is not a Result type." % f


class Stop(Exception):
    pass


def gen(s):
    lines = ["from UnitTest import UnitTest;"]
    glob = {"q": False, "x": False}
    suites = []
    nt = [0, 0, 0]
    for n in range(s.weighted([(5, 1), (3, 2), (2, 3)])):
        for k, name in (("q", "forceOnlyFailures"), ("x", "forceExitOnFailure")):
            if s.below(8) == 0:
                glob[k] = not glob[k]
                lines.append("UnitTest.%s = %s;" % (name, "true" if glob[k] else "false"))
        allpass = s.below(3) == 0
        own = {"q": False, "x": False}
        used, methods, skipped = set(), {}, set()
        hooks = {"setUp": None, "tearDown": None}

        def fresh(base):
            m = base
            while m in used or m + "Provider" in used or m.endswith("Provider"):
                m += s.pick(["A", "b", "1", "_x"])
            used.update([m, m + "Provider"])
            return m

        def body(v=None):
            """statements as (kind, ...) with the source lines they go to"""
            out = []
            for _ in s.many(0, 6, 2.5):
                a = assertion(s, v if v is not None and s.below(2) else None)
                while allpass and not a[1]:
                    a = assertion(s, None)
                out.append((s.weighted([(8, "plain"), (2, "loop"), (1, "if"), (1, "else"), (2, "helper"), (1, "def"), (1, "print"), (1, "twice")]), a))
            return out

        def emit_class(name, parent, withinit):
            lines.append("class %s < %s {" % (name, parent))
            if withinit:
                how = s.below(3)
                if how == 0:
                    own["q"], own["x"] = s.below(2) == 0, s.below(3) == 0
                    lines.append("    init() { super.init(); this.onlyFailures = %s; this.exitOnFailure = %s; }" % (str(own["q"]).lower(), str(own["x"]).lower()))
                elif how == 1:
                    own["q"], own["x"] = s.below(2) == 0, s.below(3) == 0
                    lines.append("    init() { super.init(%s, %s); }" % (str(own["q"]).lower(), str(own["x"]).lower()))
            for h in ("setUp", "tearDown"):
                if s.below(3) == 0:
                    hooks[h] = "%s of %s" % (h, name)
                    lines.append("    %s() { print('%s'); }" % (h, hooks[h]))
            names = []
            for _ in s.many(0, 7, 3):
                k = s.weighted([(8, "test"), (4, "provided"), (2, "skipped"), (2, "plain")])
                s.label(k)
                if k == "plain":
                    m = fresh(s.pick(["helper", "aTest", "Test", "tes", "mytest", "_test"]))
                    names.append(m)
                    lines.append("    %s() { this.assertEquals(1, 2); print('%s'); }" % (m, m))
                    continue
                if k == "skipped":
                    m = fresh(s.pick(["test", "testX", "test_skip"])) + "_skipped"
                    if m in skipped:
                        continue
                    skipped.add(m)
                    names.append(m)
                    lines.append("    %s() { this.assertEquals(1, 2); print('%s'); }" % (m, m))
                    continue
                over = [m for m in methods if m not in names and methods[m][1] is None]
                m = s.pick(over) if over and s.below(2) else fresh(s.pick(["test", "testA", "test_b", "testing", "test9", "testSkipped", "testskipped_", "test_skipped_no", "testProviders"]))
                names.append(m)
                prov = None
                if k == "provided" and not (m in methods):
                    nt[2] += 1
                    t = s.pick(["list", "list", "list", "single", "empty"])
                    prov = [] if t == "empty" else [value(s) for _ in s.many(1, 5, 2)] if t == "list" else None
                    if prov is None:
                        x = value(s)
                        while isinstance(x, list):
                            x = value(s)
                        prov = [x]
                        lines.append("    %sProvider() { return %s; }" % (m, V.lit(x)))
                    else:
                        lines.append("    %sProvider() { return %s; }" % (m, V.lit(prov)))
                steps = []           # per run: list of (line or None, passes, message, printed)
                lines.append("    %s(%s) {" % (m, "v" if prov is not None else ""))
                for shape, (src, ok, msg) in body():
                    if shape == "print":
                        lines.append("        print('in %s');" % m)
                        steps.append(("print", "in %s" % m))
                        continue
                    ln = len(lines) + 1
                    if shape == "helper":
                        # the line reported is the line of the assertion itself
                        steps.append(("helper", src, ok, msg))
                        lines.append("        this.%s();" % ("help%d" % (len(helps) + 1)))
                        helps.append((src, steps, len(steps) - 1))
                        continue
                    if shape == "plain":
                        lines.append("        this.%s;" % src)
                        steps.append((ln, ok, msg))
                    elif shape == "loop":
                        c = s.int(0, 3)
                        lines.append("        for (var i = 0; i < %d; i += 1) { this.%s; }" % (c, src))
                        steps += [(ln, ok, msg)] * c
                    elif shape in ("if", "else"):
                        taken = s.below(2)
                        t = ("true" if taken else "false") if shape == "if" else ("false" if taken else "true")
                        lines.append("        if (%s) { %s } else { %s }" % (t, ("this.%s;" % src) if shape == "if" else "", ("this.%s;" % src) if shape == "else" else ""))
                        if taken:
                            steps.append((ln, ok, msg))
                    elif shape == "def":
                        lines.append("        const f = def (t) => { t.%s; }; f(this);" % src)
                        steps.append((ln, ok, msg))
                        lines[-1] = "        { const f = def (t) => { t.%s; }; f(this); }" % src
                    else:
                        lines.append("        this.%s; this.%s;" % (src, src))
                        steps += [(ln, ok, msg)] * 2
                if prov is not None and s.below(2) == 0:
                    w = s.pick(prov) if prov else value(s)
                    if not (allpass and not all(V.eq(x, w) for x in prov)):
                        ln = len(lines) + 1
                        lines.append("        this.assertEquals(v, %s);" % V.lit(w))
                        steps.append(("value", ln, w))
                lines.append("    }")
                methods[m] = (steps, prov)
            for i, (src, steps, at) in enumerate(helps):
                if steps[at][0] == "helper":
                    lines.append("    help%d() {" % (i + 1))
                    ln = len(lines) + 1
                    lines.append("        this.%s;" % src)
                    lines.append("    }")
                    steps[at] = (ln,) + steps[at][2:]
            lines.append("}")

        helps = []
        parent = "UnitTest"
        if s.below(4) == 0:
            emit_class("Base%d" % n, parent, False)
            parent = "Base%d" % n
        emit_class("Suite%d" % n, parent, True)
        lines.append("Suite%d().run();" % n)
        quiet, stop = own["q"] or glob["q"], own["x"] or glob["x"]
        blocks, passed, failed = {}, 0, 0
        for m, (steps, prov) in methods.items():
            out, ends = [], False
            try:
                for v in ([None] if prov is None else prov):
                    if hooks["setUp"]:
                        out.append(hooks["setUp"])
                    for st in steps:
                        if st[0] == "print":
                            out.append(st[1])
                            continue
                        if st[0] == "value":
                            ln, ok, msg = st[1], V.eq(v, st[2]), "%s is not equal to %s." % (plain(v), plain(st[2]))
                        else:
                            ln, ok, msg = st
                        if ok:
                            passed += 1
                            nt[0] += 1
                            if not quiet:
                                out.append(P + "Success.")
                        else:
                            failed += 1
                            nt[1] += 1
                            out.append(P + "Line: %d - Failure: %s" % (ln, msg))
                            if stop:
                                raise Stop
                    if hooks["tearDown"]:
                        out.append(hooks["tearDown"])
            except Stop:
                ends = True
            blocks[m] = (out, ends)
        suites.append((blocks, passed, failed, len(skipped), stop))
        if failed:
            lines += ["print('not reached');"]
            break
    return "\n".join(lines) + "\n", suites, (nt[0] and nt[1]) or nt[2]


def check(case, ctx):
    src, suites, nt = case
    if nt:
        ctx.nontrivial(src)
    r = ctx.run(src)
    ctx.alive(r)
    text = r.out.decode("utf-8", "surrogateescape")
    code = 0

    def bad(why):
        ctx.fail("report", "%s\nthe report was\n%s(exit %s, stderr %r)" % (why, text[-1500:], r.exit, r.err[-300:]))
    rest = text
    for blocks, passed, failed, skipped, stop in suites:
        head, sep, rest = rest.partition("\n")
        if not head.endswith("main.du"):
            bad("the report does not start with the file's name but with %r" % head)
        left = dict(blocks)
        while True:
            m = re.match(r"    (\w+)\(\)\n", rest)
            if not m:
                break
            name = m.group(1)
            if name not in left:
                bad("method %s is run, but is no test left to run" % name)
            out, ends = left.pop(name)
            want = "".join(x + "\n" for x in out)
            rest = rest[m.end():]
            if not rest.startswith(want):
                bad("method %s must report %r but reports %r" % (name, want, rest[:len(want) + 40]))
            rest = rest[len(want):]
            if ends:
                code = 1
                break
        if code:
            break
        if left:
            bad("the tests %s are not run" % sorted(left))
        want = "\nResults:\n    - %d assertion(s) were successful.\n    - %d assertion(s) were failures.\n    - %d method(s) were skipped.\n\n" % (passed, failed, skipped)
        if not rest.startswith(want):
            bad("the totals must be %r, not %r" % (want, rest[:200]))
        rest = rest[len(want):]
        if failed:
            code = 1
            break
    if rest:
        bad("nothing may follow, but %r does" % rest[:200])
    ctx.status(r, code)


def parts():
    return [Part("classes", gen, check, 3000)]
