"""Log lines against the message, prefix and clock."""
import calendar, re, time
from ..core import Part
from .S08 import blit

TECHNIQUE = "stateful model-based testing: histories of generated log calls; both streams are compared with the model, times with the clock read before and after in the program's time zone"
RULE = ("(history) 1-4 loggers on stdout and stderr plus the module's own calls, 3-30 calls of print, println, setPrefix and unsetPrefix with "
        "messages and prefixes of arbitrary bytes including format specifiers, mixed with print, ended by fatal, fatalln or the program's end, in 5 time "
        "zones; (errors) wrong arguments in the REPL; non-trivial = at least two loggers or a changed prefix")
ZONES = {"UTC": 0, "EST5": -5 * 3600, "XXX-5:30": 5 * 3600 + 1800, "YYY-14": 14 * 3600, "ZZZ12": -12 * 3600}
STAMP = re.compile(rb"\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ")


def msg(s):
    k = s.below(4)
    if k == 0:
        return s.pick([b"", b"%s", b"%d%n%s", b"two\nlines", b"%", b"%%", b"\\n", b"2021/11/27 11:49:14 x", b" ", b"\xe2\x82\xac", b"\t", b"x" * 5000])
    if k == 1:
        return bytes(s.int(1, 255) for _ in range(s.int(1, 8)))
    return s.text("abc %", 0, 6).encode()


def gen_history(s):
    lines, out, err = ["import Log;"], [], []      # items: bytes or None for a time stamp
    logs, nt = [], False
    for n in range(s.int(0, 4)):
        err_ = s.below(2)
        lines.append("const l%d = Log.new(%s).unwrap();" % (n, s.pick(["Log.stderr", "2"]) if err_ else s.pick(["Log.stdout", "1"])))
        logs.append([err_, b""])
    nt = len(logs) > 1
    exit = 0
    total = len(list(s.many(3, 30, 12)))
    for n in range(total + 1):
        k = s.weighted([(6, "print"), (6, "println"), (3, "setPrefix"), (2, "unsetPrefix"), (1, "say"), (1, "module"), (1, "bad")])
        if n == total:
            if s.below(2):
                break
            k = s.pick(["fatal", "fatalln"])
        s.label(k)
        i = s.below(len(logs)) if logs else None
        if k == "say":
            m = s.text("ab", 0, 2)
            lines.append('print("%s");' % m)
            out.append(m.encode() + b"\n")
            continue
        if k == "bad":
            lines.append("print(Log.new(%s).success());" % s.pick(["0", "Log.stdin", "3", "-1", "99"]))
            out.append(b"false\n")
            continue
        if k in ("setPrefix", "unsetPrefix"):
            if i is None:
                continue
            nt = True
            if k == "unsetPrefix":
                lines.append("l%d.unsetPrefix();" % i)
                logs[i][1] = b""
            else:
                p = msg(s) or b"p"
                lines.append("l%d.setPrefix(%s);" % (i, blit(p)))
                logs[i][1] = p
            continue
        m = msg(s)
        mod = i is None or k == "module" or s.below(4) == 0
        if k == "module":
            k = s.pick(["print", "println"])
        lines.append("%s.%s(%s);" % ("Log" if mod else "l%d" % i, k, blit(m)))
        to = err if not mod and logs[i][0] else out
        to += [None, (logs[i][1] + b" " if not mod and logs[i][1] else b"") + m + (b"\n" if k.endswith("ln") else b"")]
        if k.startswith("fatal"):
            exit = 1
    if exit:
        lines.append('print("after");')
    return "\n".join(lines) + "\n", out, err, exit, s.pick(sorted(ZONES)), nt


def match(ctx, name, got, items, lo, hi, off):
    pos = 0
    for it in items:
        if it is None:
            m = STAMP.match(got, pos)
            if not m:
                ctx.fail("stamp", "%s has no time stamp at byte %d: %r" % (name, pos, got[pos:pos + 60]))
            t = calendar.timegm(time.strptime(m.group().decode().strip(), "%Y/%m/%d %H:%M:%S")) - off
            if not lo - 1 <= t <= hi + 1:
                ctx.fail("clock", "%s is stamped %r, %d s off" % (name, m.group(), t - lo))
            pos = m.end()
        else:
            if got[pos:pos + len(it)] != it:
                ctx.fail("text", "%s at byte %d is %r, the model says %r" % (name, pos, got[pos:pos + len(it) + 30], it))
            pos += len(it)
    if pos != len(got):
        ctx.fail("more", "%s goes on with %r" % (name, got[pos:pos + 80]))


def check_history(case, ctx):
    src, out, err, exit, zone, nt = case
    if nt:
        ctx.nontrivial(src)
    lo = time.time()
    r = ctx.run(src, env=("TZ=" + zone,))
    hi = time.time()
    ctx.alive(r)
    match(ctx, "stdout", r.out, out, lo, hi, ZONES[zone])
    match(ctx, "stderr", r.err, err, lo, hi, ZONES[zone])
    ctx.status(r, exit)


BAD = ["print()", "print(1)", "print(nil)", 'print("a", "b")', "println([])", "println()", "fatal()", "fatal(1)", "fatalln()", "fatalln({})"]


def gen_errors(s):
    steps = [("import Log;", [], False), ("const l = Log.new(2).unwrap();", [], False)]
    for _ in s.many(2, 10, 5):
        w = s.pick(["Log", "l", "l"])
        a = s.pick(BAD + (["setPrefix()", "setPrefix(1)", "setPrefix('a', 'b')", "unsetPrefix(1)"] if w == "l" else ["new()", "new('1')", "new(1, 2)", "new(nil)"]))
        steps.append(("%s.%s;" % (w, a), [], True))
        if s.below(3) == 0:
            steps.append(("print(%d);" % len(steps), [str(len(steps))], False))
    return steps


def check_errors(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def parts():
    return [Part("history", gen_history, check_history, 3000), Part("errors", gen_errors, check_errors, 300)]
