"""Histories of environment reads, changes and .env files against a dictionary; child processes show the whole environment."""
from ..core import Part
from .S08 import blit
from .S15 import child, ll

POOL_SKIP_PARTS = ()
TECHNIQUE = ("stateful model-based testing: generated histories of Env calls and generated .env files against a dictionary, "
             "with the complete environment seen by child processes started in between")
RULE = ("(history) 5-40 get/set/remove/clearAll/readFile calls over 3-10 names and values of arbitrary bytes, files of 0-30 lines with comments, "
        "quotes, several '=', spaces, empty values, malformed lines and names that cannot be set, child environments compared entry by entry; "
        "(errors) wrong arguments and missing files in the REPL; non-trivial = a value was replaced or removed and read afterwards")
BASE = ("LANG=C", "VF_A=one", "VF_B=", "VF_C=x=y")


def name(s):
    return s.pick([b"VF_A", b"VF_B", b"VF_C", b"VF_D", b"VF_DD", b"VF", b"lower", b"with space", b"\xc3\xa9", b"1", b"x.y", b"VF_\n", b"Q" * 300, b"#h", b"\xff\x01"])


def value(s):
    k = s.below(6)
    if k < 3:
        return s.pick([b"", b"v", b"two words", b"a=b", b"=", b"#c", b" pad ", b"nil", b"0", b"'q'", b"\n", b"\xe2\x82\xac"])
    if k == 3:
        return bytes(s.int(1, 255) for _ in range(s.int(1, 9)))
    if k == 4:
        return b"L" * s.pick([200, 1023, 1024, 5000])
    return s.text("abc=", 0, 4).encode()


def gen_file(s):
    """-> (text, [(name, value)...] set by it, line of the malformed entry or None, True if an entry cannot be set)"""
    out, sets, bad, fails = [], [], None, False
    for n in range(len(list(s.many(0, 30, 7)))):
        k = s.weighted([(8, "plain"), (3, "spaced"), (3, "comment"), (2, "hash"), (2, "blank"), (2, "equals"), (1, "empty"), (1, "malformed"), (1, "noname"), (1, "long"), (1, "tabs")])
        s.label("line " + k)
        m = s.pick(["VF_A", "VF_B", "VF_E", "F1", "f_2", "A B", "\u00e9"])
        v = s.pick(["1", "value", "two words", "'quoted'", '"q"', "\u20ac", "a,b;c", "$VF_A", "\\n", "0"])
        if k == "plain":
            line = "%s=%s" % (m, v)
        elif k == "spaced":
            line = "%s%s%s=%s%s%s" % (" " * s.below(3) if m != "#" else "", m, " " * s.below(3), " " * s.below(3), v, " " * s.below(3))
        elif k == "tabs":
            line = "\t%s\t=\t%s\t" % (m, v)
        elif k == "comment":
            out.append(s.pick(["#", "# comment", "#VF_A=no", "## x = y", "#malformed"]))
            continue
        elif k == "hash":
            line = "%s=%s%s" % (m, v, s.pick(["#c", " # c", "#", " #=#", " # a # b"]))
        elif k == "blank":
            out.append("")
            continue
        elif k == "equals":
            v = s.pick(["a=b", "=", "==x", "a = b"])
            line = "%s=%s" % (m, v)
        elif k == "empty":
            v = ""
            line = m + s.pick(["=", " =", "=#c", "= # c"])
        elif k == "long":
            v = "v" * s.pick([100, 500, 1000])
            line = "%s=%s" % (m, v)
        elif k == "noname":
            out.append(s.pick(["=x", " = x", "="]))
            if bad is None and not fails:
                fails = True
            continue
        else:
            out.append(s.pick(["no entry", "x", "VF_A:1", "export", "x # a"]))
            if bad is None and not fails:
                bad = n + 1
            continue
        out.append(line)
        if bad is None and not fails:
            sets.append((m.encode(), v.encode()))
    text = "\n".join(out) + ("\n" if s.below(3) else "")
    return text.encode(), sets, bad, fails


def gen_history(s):
    env = dict(e.encode().split(b"=", 1) for e in BASE)
    whole = False          # the complete environment is known
    lines, want, tree, nt = ["import Env; import Process;"], [], {"child": ("mode", 0o755, None), "d": None}, 0
    touched = set()
    for n in range(len(list(s.many(5, 40, 16)))):
        k = s.weighted([(8, "get"), (8, "set"), (3, "remove"), (3, "file"), (1, "clear"), (2, "child"), (1, "bad"), (2, "default"), (1, "all")])
        s.label(k)
        m = s.pick(sorted(env)) if env and s.below(3) == 0 else name(s)
        if k == "get":
            v = env.get(m)
            lines.append("def s%d() { const v = Env.get(%s); print(v == nil); print(v == %s); } s%d();" % (n, blit(m), "nil" if v is None else blit(v), n))
            want += ["true" if v is None else "false", "true"]
            nt += m in touched
        elif k == "default":
            d = value(s)
            v = env.get(m, d)
            lines.append("print(Env.get(%s, %s) == %s);" % (blit(m), blit(d), blit(v)))
            want.append("true")
        elif k == "set":
            v = value(s)
            lines.append("print(Env.set(%s, %s).unwrap());" % (blit(m), blit(v)))
            want.append("nil")
            if m in env:
                touched.add(m)
            env[m] = v
        elif k == "remove":
            lines.append("print(Env.set(%s, nil).unwrap());" % blit(m))
            want.append("nil")
            if env.pop(m, None) is not None:
                touched.add(m)
        elif k == "bad":
            m = s.pick([b"", b"=", b"VF_A=", b"=x"])
            lines.append("print(Env.set(%s, %s).success());" % (blit(m), s.pick(["nil", '"v"'])))
            want.append("false")
        elif k == "clear":
            lines.append("print(Env.clearAll().unwrap());")
            want.append("nil")
            touched |= set(env)
            env.clear()
            whole = True
        elif k == "file":
            text, sets, bad, fails = gen_file(s)
            f = s.pick(["e1", "e2.env", "d/e"]) if s.below(4) else ".env"
            while f in tree and tree[f] != text:
                f += "x"
            tree[f] = text
            lines.append("{ const r = Env.readFile(%s); print(r.success());" % ("" if f == ".env" else "'%s'" % f))
            if bad is None and not fails:
                lines.append("print(r.unwrap()); }")
                want += ["true", "nil"]
            else:
                lines.append("print(r.unwrapError()%s); }" % (".contains('line %d')" % bad if bad else ".len() > 0"))
                want += ["false", "true"]
            for a, b in sets:
                if a in env:
                    touched.add(a)
                env[a] = b
        elif k == "child":
            if b"\n" in m:
                continue
            lines.append("print(Process.run(%s, true).unwrap() == %s);" % (ll(["./child", "env", m]), blit(env.get(m, b"<unset>"))))
            want.append("true")
        elif whole:
            lines.append("print(Process.run(%s, true).unwrap().split('\\n').len() - 1);" % ll(["./child", "environ"]))
            want.append(str(len(env)))
    # every name once more, and the first and last to the child
    names = sorted(set(list(env) + [b"VF_A", b"VF_D", b"lower"]))
    for i in range(0, len(names), 20):
        lines.append("def last%d() {" % i)
        for m in names[i:i + 20]:
            lines.append("print(Env.get(%s) == %s);" % (blit(m), blit(env[m]) if m in env else "nil"))
            want.append("true")
        lines.append("} last%d();" % i)
    if whole:
        lines.append("{ const l = Process.run(%s, true).unwrap().split('\\n'); print(l.len()); l.sort(); l.forEach(def (x) => { print(x); }); }" % ll(["./child", "environ"]))
        want.append(str(len(env) + 1))
        want += sorted([b"."] + [(m + b"=" + v).hex().encode() for m, v in env.items()])
    return tree, "\n".join(lines) + "\n", [w if isinstance(w, bytes) else w.encode() for w in want], nt > 0


def check_history(case, ctx):
    tree, src, want, nt = case
    if nt:
        ctx.nontrivial(src)
    ctx.expect(src, want, tree=dict(tree, child=("mode", 0o755, child())), env=BASE)
    ctx.runs[-1][2].pop("tree", None)


BAD = ["get()", "get(1)", "get(nil)", 'get("VF_A", 1)', 'get("VF_A", nil)', 'get("VF_A", "a", "b")', "set()", 'set("VF_A")', 'set("VF_A", 1)', "set(1, 'x')",
       'set("VF_A", "x", "y")', 'set("VF_A", true)', 'clearAll(1)', 'readFile("missing")', 'readFile(1)', 'readFile("a", "b")']


def gen_errors(s):
    steps = [("import Env;", [], False)]
    v = "one"
    for _ in s.many(2, 12, 6):
        if s.below(3):
            b = s.pick(BAD)
            steps.append(("Env.%s;" % b, [], True))
        elif s.below(2):
            v = s.text("abc", 1, 3)
            steps.append(("const r%d = Env.set('VF_A', '%s');" % (len(steps), v), [], False))
        steps.append(("print(Env.get('VF_A'));", [v], False))
    return steps


def check_errors(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps, tree={"a": b"VF_A=changed\n", "d": None}, env=BASE)


def parts():
    return [Part("history", gen_history, check_history, 2400), Part("errors", gen_errors, check_errors, 400)]
