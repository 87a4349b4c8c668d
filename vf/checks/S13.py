"""Argparse against a model of the documented assignment rules."""
from ..core import Part
from .. import vals as V

RULE = ("parsers with 0-8 options (string, number, bool, list; required or not; one or two dashes, inner dashes, names sharing a prefix or an attribute, "
        "declared twice; with and without a metavar) and 1-4 argument vectors each (the command line, then vectors put into System.argv): values with "
        "commas, blanks, '=' and UTF-8, empty, missing, or looking like flags, options repeated, unknown ones and stray words; every attribute is "
        "printed and compared with the model, failures by what they name; non-trivial = an option given on the vector")

FLAGS = ["-a", "-b", "--a", "-ab", "--ab", "--name", "-n", "--dry-run", "--dryrun", "-v", "--verbose", "--x-y-z", "-port", "--port", "--ports", "---odd"]
WORDS = ["x", "hello world", "a,b", "", "a=b", "na\u00efve", "0", "x-y", "name", "true", "nil", ",", "a,,b", "1", "{}"]
KINDS = ["string", "number", "bool", "list"]


def gen_value(s, kind):
    if kind == "number":
        k = s.below(8)
        if k < 4:
            n = s.int(-1000, 1000)
            return str(n)
        if k == 4:
            return V.fmt(s.int(-4000, 4000) / 8)
        if k == 5:
            return "0"
        return s.pick(["x", "", "1x", "--", "one", "-", "1,2", "-x"])
    if s.below(8) == 0:
        return s.pick(["-x", "-", "--name", "-1"])
    if kind == "list":
        return ",".join(s.pick(["a", "bc", "1", "", "x y"]) for _ in s.many(1, 5, 2))
    return s.pick(WORDS)


def number(t):
    try:
        return float(t) if t and t.strip() == t and all(c in "0123456789.-" for c in t) else None
    except ValueError:
        return None


def gen(s):
    lines, want, used = ["from Argparse import Parser;"], [], False
    name, desc = s.pick(["prog", "", "Code!", "a {} b"]), s.pick(["does things", "", "{}", "two\nlines"])
    usage = s.pick([None, None, None, "", "my usage", "-x"])
    lines.append("const p = Parser(%s, %s%s);" % (V.lit(name), V.lit(desc), "" if usage is None else ", " + V.lit(usage)))
    opts = []       # (flag, kind, desc, required, attribute)
    for _ in s.many(0, 8, 4):
        flag, kind = s.pick(FLAGS), s.pick(KINDS)
        d = s.pick(["thing", "", "the %s" % kind, "{}"])
        req = s.below(3) == 0
        meta = s.pick([None, None, "", "meta", "m2", "a", "name", "with-dash"])
        lines.append("p.add%s(%s, %s, %s%s);" % (kind.capitalize(), V.lit(flag), V.lit(d), "true" if req else "false", "" if meta is None else ", " + V.lit(meta)))
        if any(o[0] == flag for o in opts):
            s.label("declared twice")
            continue
        opts.append((flag, kind, d, req, meta or flag.replace("-", "")))
        s.label(kind)
    attrs = sorted({o[4] for o in opts})
    first = None
    for run in range(len(list(s.many(1, 4, 2)))):
        argv = []
        for o in opts:
            if o[3] and s.below(8):
                argv.append(o[0])
                if o[1] != "bool":
                    argv.append(gen_value(s, o[1]))
        for _ in s.many(0, 6, 2):
            k = s.below(6)
            if k <= 3 and opts:
                o = s.pick(opts)
                new = [o[0]]
                if o[1] != "bool" and s.below(10):
                    new.append(gen_value(s, o[1]))
            elif k == 4:
                new = [s.pick(FLAGS + ["--unknown", "--a=1", "-abc"])]
            else:
                new = [s.pick(WORDS)]
            at = s.below(3)
            if at == 0:
                argv = new + argv
            else:
                argv += new
        if run == 0:
            first = argv
            full = ["main.du"] + argv
        else:
            full = argv
            lines.append("System.argv = %s;" % V.lit(argv) if False else "while (System.argv.len() > 0) { System.argv.pop(); } System.argv.extend(%s);" % V.lit(argv))
        out, err = {a: None for a in attrs}, None
        by = {o[0]: o for o in opts}
        for i, w in enumerate(full):
            o = by.get(w)
            if o is None:
                continue
            used = True
            if o[1] == "bool":
                out[o[4]] = True
                continue
            if i + 1 == len(full) or (o[1] != "number" and full[i + 1].startswith("-")):
                err = w + " requires an argument"
                break
            v = full[i + 1]
            if o[1] == "number":
                v = number(v)
                if v is None:
                    err = w + " arg must be a number"
                    break
            elif o[1] == "list":
                v = v.split(",")
            out[o[4]] = v
        if err is None and any(o[3] and o[0] not in full for o in opts):
            err = "1 or more required flags missing"
        s.label("error" if err else "parsed")
        lines.append("const r%d = p.parse(); print(r%d.success());" % (run, run))
        want.append("false" if err else "true")
        if err:
            lines.append("print(r%d.unwrapError());" % run)
            want.append(err)
        else:
            lines.append("const a%d = r%d.unwrap();" % (run, run))
            for a in attrs:
                lines.append("print([a%d.getAttribute(%s)]);" % (run, V.lit(a)))
                want.append(V.show([out[a]]))
        if s.below(4) == 0:
            lines.append("print(p.usage() == %s);" % V.lit(usage if usage else "usage: %s\n    %s\n\n" % (name, desc) + "".join(
                "    %s    %s%s\n" % (o[0], o[2], "    Required" if o[3] else "") for o in opts)))
            want.append("true")
            s.label("usage")
    return "import System;\n" + "\n".join(lines) + "\n", want, first, used


def check(case, ctx):
    src, want, argv, used = case
    if used:
        ctx.nontrivial((src, argv))
    ctx.expect_items(src, [w for w in want], argv=argv)


def parts():
    return [Part("parse", gen, check, 8000)]
