"""Results: histories of combinators against a model."""
from ..core import Part, Shown
from .. import vals as V

RULE = ("a history of 5-30 operations on a pool of Results made by Success, Error, toNumber, library calls and user functions: success, "
        "unwrap, unwrapError, match, matchWrap, matchError (callbacks that log, capture, return values, Results or call further "
        "combinators), truth, storage in collections; wrong-side unwraps as REPL lines; non-trivial = a combinator whose outcome "
        "feeds another")


class R:
    def __init__(self, ok, v):
        self.ok, self.v = ok, v


def shown(v):
    if isinstance(v, R):
        return "<Result Suc>" if v.ok else "<Result Err>"
    if isinstance(v, str):
        return v
    return Shown(v)


LIB = [('JSON.parse("[1, 2]")', True, [1, 2]), ('JSON.parse("{bad")', False, None), ('JSON.parse("")', False, None),
       ('Path.realpath("/no/such/file")', False, None), ('IO.readFile("nosuch")' if 0 else 'System.rmdir("nosuchdir")', False, None),
       ('System.remove("nosuchfile")', False, None), ('System.mkdir("nosuch/nested")', False, None), ('"12".toNumber()', True, 12),
       ('"1.5e3".toNumber()', True, 1500), ('"x1".toNumber()', False, "Can not convert 'x1' to number"),
       ('Base64.decode("YWJj")', None, "abc"), ('JSON.stringify([1])', True, '[1]'), ('System.setCWD("/no/such/dir")', False, None),
       ('Sqlite.connect("/no/such/dir/x.db")', False, None), ('Process.run(["/no/such/binary"])', False, None),
       ('Path.listDir("/no/such/dir")', None, None)]
PRE = "import JSON; import Path; import System; import Sqlite; import Process;\nvar log = [];\nvar n = 0;\n"


def gen(s, allow_err):
    pool = []          # (name, R, text known)
    steps = []
    n = 0
    chain = False
    count = 0

    def res(k):
        nonlocal n
        n += 1
        return "r%d" % n
    for i in range(s.int(5, 30)):
        bad = allow_err and s.below(5) == 0
        op = s.weighted([(4 if len(pool) < 4 else 1, "new"), (1, "lib"), (2, "success"), (2, "unwrap"), (2, "unwrapError"), (4, "match"),
                         (4, "matchWrap"), (3, "matchError"), (1, "truth"), (1, "store"), (1, "eq")])
        if not pool:
            op = "new"
        s.label("op:" + op)
        if op == "new":
            if s.below(2):
                v = V.gen_value(s, 2)
                r = R(True, v)
                src = "Success(%s)" % V.lit(v)
                if s.below(5) == 0 and pool:
                    nm, o = s.pick(pool)
                    r, src = R(True, o), "Success(%s)" % nm
            else:
                v = V.gen_str(s)
                r, src = R(False, v), "Error(%s)" % V.lit(v)
            if bad:
                steps.append((s.pick(["Error(1);", "Error(nil);", "Error([1]);", "Success();", "Success(1, 2);", "Error();", "Error('a', 'b');"]), [], True))
                continue
            nm = res(0)
            if s.below(3) == 0:
                src = "(def () => %s)()" % src
            steps.append(("var %s = %s; print(%s); print(type(%s));" % (nm, src, nm, nm), [shown(r), "result"], False))
            pool.append((nm, r))
            continue
        if op == "lib":
            src, ok, v = s.pick([x for x in LIB if x[1] is not None])
            nm = res(0)
            steps.append(("var %s = %s; print(%s.success()); print(type(%s));" % (nm, src, nm, nm), [V.show(ok), "result"], False))
            if ok:
                pool.append((nm, R(True, v)))
            else:
                if isinstance(v, str):
                    steps.append(("print(%s.unwrapError());" % nm, [v], False))
                    pool.append((nm, R(False, v)))
                else:
                    steps.append(("print(type(%s.unwrapError())); print(%s.unwrapError().len() > 0);" % (nm, nm), ["string", "true"], False))
            continue
        nm, r = s.pick(pool)
        if op == "success":
            if bad:
                steps.append(("%s.success(1);" % nm, [], True))
            else:
                steps.append(("print(%s.success());" % nm, [V.show(r.ok)], False))
        elif op in ("unwrap", "unwrapError"):
            good = r.ok == (op == "unwrap")
            if not good and not allow_err:
                continue
            if good:
                if isinstance(r.v, (R, str)):
                    steps.append(("print(%s.%s());" % (nm, op), [shown(r.v)], False))
                else:
                    steps.append(("print(%s.%s() == %s); print(%s.%s());" % (nm, op, V.lit(r.v), nm, op), ["true", shown(r.v)], False))
                if isinstance(r.v, R) and s.below(2):
                    m = res(0)
                    steps.append(("var %s = %s.unwrap();" % (m, nm), [], False))
                    pool.append((m, r.v))
            else:
                steps.append(("var q = 'kept'; print('pre'); n = %s.%s(); print('post');" % (nm, op), ["pre"], True))
        elif op in ("match", "matchWrap", "matchError"):
            if bad:
                steps.append((s.pick(["%s.%s();", "%s.%s(def (x) => x, def (x) => x, 1);"]) % (nm, op), [], True))
                continue
            # callback shapes: (source, value of result given v)
            def cb(side, v):
                k = s.below(6)
                tag = "%s%d" % (side, i)
                if k == 0:
                    return "def (v) => v", [], v
                if k == 1:
                    return "def (v) => { n += 1; print('%s'); return [v]; }" % tag, [tag], [v] if not isinstance(v, R) else None
                if k == 2:
                    return "def (v) => '%s'" % tag, [], tag
                if k == 3:
                    return "def (v) => { print('%s'); return '%s'; }" % (tag, tag), [tag], tag
                if k == 4:
                    return "def (v) => Error('%s')" % tag, [], R(False, tag)
                return "def (v) => { print(v); return Success('%s').match(def (x) => x + '!', def (e) => 'no'); }" % tag, [shown(v)], tag + "!"
            c1 = cb("S", r.v if r.ok else 0)
            c2 = cb("E", r.v if not r.ok else "")
            hit = c1 if r.ok else c2
            if op == "matchError":
                src, outs, val = "%s.matchError(%s)" % (nm, c2[0]), ([] if r.ok else c2[1]), (r.v if r.ok else c2[2])
            else:
                src, outs, val = "%s.%s(%s, %s)" % (nm, op, c1[0], c2[0]), hit[1], hit[2]
            if isinstance(val, list) and any(isinstance(x, R) for x in val) or val is None and hit[0].startswith("def (v) => { n"):
                continue
            m = res(0)
            if op == "matchWrap":
                if not r.ok and not isinstance(val, str):
                    if allow_err:
                        steps.append(("n = %s; print('post');" % src, outs, True))
                    continue
                val = R(r.ok, val)
                pool.append((m, val))
                chain = True
                steps.append(("var %s = %s; print(%s);" % (m, src, m), outs + [shown(val)], False))
            else:
                steps.append(("var %s = %s; print(%s);" % (m, src, m), outs + [shown(val)], False))
                if isinstance(val, R):
                    pool.append((m, val))
                    chain = True
        elif op == "truth":
            steps.append(("print(%s ? 'T' : 'F'); print(not %s); if (%s) { print('yes'); } else { print('no'); }" % (nm, nm, nm),
                          ["T" if r.ok else "F", V.show(not r.ok), "yes" if r.ok else "no"], False))
        elif op == "store":
            steps.append(("log = [1, %s, {'r': %s}]; print(log[1] == %s); print(log[2]['r'].success()); print(log);" % (nm, nm, nm),
                          ["true", V.show(r.ok), '[1, %s, {"r": %s}]' % (shown(r), shown(r))], False))
        else:
            m2, r2 = s.pick(pool)
            same = r is r2
            steps.append(("print(%s == %s); print(%s != %s);" % (nm, m2, nm, m2), [V.show(same), V.show(not same)], False))
    return steps, chain


def check(case, ctx):
    (steps, chain), mode = case
    if chain and len(steps) >= 5:
        ctx.nontrivial([x[0] for x in steps])
    if mode == 2:
        ctx.repl([(l, [], False) for l in PRE.split("\n") if l] + steps)
        return
    decl = [x[0] for x in steps]
    src = PRE
    import re
    names = sorted(set(re.findall(r"\bvar (r\d+)", "\n".join(decl))))
    if names:
        src += "var %s;\n" % "; var ".join(names)
    body = [re.sub(r"\bvar (r\d+)", r"\1", d) for d in decl]
    for g in range(0, len(body), 5):
        src += "def g%d() {\n%s\n}\ng%d();\n" % (g, "\n".join(body[g:g + 5]), g)
    ctx.expect_items(src, [i for x in steps for i in x[1]])


def parts():
    return [Part("file", lambda s: (gen(s, False), 0), check, 8000),
            Part("repl", lambda s: (gen(s, True), 2), check, 8000)]
