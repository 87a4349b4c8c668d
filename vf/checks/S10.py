"""Dates: strftime against a calendar model, strptime as its inverse, the clock, errors."""
import re
import time

from ..core import Part
from .. import vals as V
from .S08 import blit

RULE = ("times: every second from year 1000 to 9999 with weight on year, month, leap-day, century and day ends, fractional ones, and years up to "
        "99999 for the plain directives; formats: 0-1500 pieces of literal text and the 26 documented directives, with weight on lengths around the "
        "128 byte buffer and its doublings; strptime: complete date texts in 14 layouts and damaged ones; 9 time zones; the model computes "
        "calendar fields from the day number with integer arithmetic; non-trivial = a formatted or parsed date, a clock reading, or an error")

DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ZONES = {"UTC0": 0, "EST5": -18000, "AAA-14": 50400, "BBB12": -43200, "XXX-5:30": 19800, "CCC3:30": -12600, "DDD0:00:01": -1, "EST5EDT,M3.2.0,M11.1.0": None,
         "CET-1CEST,M3.5.0,M10.5.0/3": None}


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before(y):
    """Days from 1 January 1970 to 1 January of y."""
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400 - 719162


def stamp(y, mo, d, h, mi, sec):
    n = days_before(y) + d - 1 + sum(LEN[:mo - 1]) + (1 if mo > 2 and leap(y) else 0)
    return n * 86400 + h * 3600 + mi * 60 + sec


class Fields:
    def __init__(self, t):
        self.t = t
        n, r = divmod(t, 86400)
        self.h, r = divmod(r, 3600)
        self.mi, self.s = divmod(r, 60)
        y = n // 366 + 1970
        while days_before(y + 1) <= n:
            y += 1
        while days_before(y) > n:
            y -= 1
        self.y, self.yday, self.w = y, n - days_before(y), (n + 3) % 7
        r = self.yday
        for i, k in enumerate(LEN):
            k += i == 1 and leap(y)
            if r < k:
                self.mo, self.d = i + 1, r + 1
                break
            r -= k

    def one(self, c):
        f = self
        i = f.h % 12 or 12
        return {"a": DAYS[f.w][:3], "A": DAYS[f.w], "b": MONTHS[f.mo - 1][:3], "B": MONTHS[f.mo - 1], "C": "%02d" % (f.y // 100), "d": "%02d" % f.d,
                "e": "%2d" % f.d, "H": "%02d" % f.h, "I": "%02d" % i, "j": "%03d" % (f.yday + 1), "m": "%02d" % f.mo, "M": "%02d" % f.mi, "n": "\n",
                "p": "AM" if f.h < 12 else "PM", "P": "am" if f.h < 12 else "pm", "s": str(f.t), "S": "%02d" % f.s, "t": "\t", "u": str(f.w + 1),
                "y": "%02d" % (f.y % 100), "Y": str(f.y), "z": "+0000", "Z": "GMT", "%": "%"}.get(c) or {
            "c": lambda: f.text("%a %b %e %H:%M:%S %Y"), "D": lambda: f.text("%m/%d/%y"), "F": lambda: f.text("%Y-%m-%d")}[c]()

    def text(self, fmt):
        return re.sub("%(.)", lambda m: self.one(m.group(1)), fmt, flags=re.S)


ALL = "aAbBcCdDeFHIjmMnpPsStuyYzZ%"
WIDE = "aAbBdeHIjmMpPSuYc"


def gen_time(s, lo=1000, hi=9999):
    k = s.below(8)
    y = (s.int(1960, 2040) if k < 4 else s.pick([1970, 1972, 2000, 1900, 2100, 2400, 1600, 9999, 1999, 2024, 2038, 1969, 1968, 4000]) if k < 6 else s.int(lo, hi))
    if hi > 9999 and s.below(2):
        y = s.int(10000, hi)
    mo = s.pick([1, 2, 2, 3, 12]) if s.below(2) else s.int(1, 12)
    n = LEN[mo - 1] + (mo == 2 and leap(y))
    d = s.pick([1, n, n - 1, 2, 9, 10]) if s.below(2) else s.int(1, n)
    if s.below(2):
        h, mi, x = s.int(0, 23), s.int(0, 59), s.int(0, 59)
    else:
        h, mi, x = s.pick([0, 1, 11, 12, 13, 23]), s.pick([0, 59, 1]), s.pick([0, 59, 1, 9])
    return stamp(y, mo, d, h, mi, x)


def gen_format(s, chars):
    k = s.below(10)
    n = len(list(s.many(1, 12, 4))) if k < 7 else s.int(1, 90)
    out = []
    for _ in range(n):
        if s.below(3):
            c = s.pick(chars)
            if s.below(6) == 0:
                c = c if c != "P" else "p"
            out.append("%" + c)
        else:
            out.append(s.text("abcXYZ019 -/:,.\u00e9\u4e16", 1, 6, 2))
    f = "".join(out)
    if k == 8:
        # all around the doublings of the 128 byte buffer, and of 4 * length
        f += "x" * s.int(0, s.pick([20, 130, 300]))
    if k == 9:
        f = ("%" + s.pick("ccAFBj")) * (s.int(1, s.pick([12, 40, 200])) if s.below(3) else s.pick([62, 63, 64])) + f
    return f


def expr_time(s, t):
    """A number literal for t, sometimes with a fraction that is to be dropped."""
    if t >= 0 and t < 2 ** 40 and s.below(6) == 0:
        return repr(t + s.pick([.5, .25, .75, .999]))
    return "%d" % t if t >= 0 else "-%d" % -t


def gen_format_case(s):
    tz = s.pick(sorted(ZONES)) if s.below(2) else "UTC0"
    wide = s.below(5) == 0
    chars = WIDE if wide else ALL
    if ZONES[tz] != 0:
        chars = chars.replace("s", "")
    lines, want = ["import Datetime;"], []
    for _ in s.many(1, 8, 4):
        t = gen_time(s, hi=99999 if wide else 9999)
        f = gen_format(s, chars)
        s.label("format > 128 bytes" if len(f) > 128 else "format")
        lines.append("print(Datetime.strftime(%s, %s));" % (blit(f.encode()), expr_time(s, t)))
        w = Fields(t).text(f)
        s.label("result >= 128 bytes" if len(w) >= 128 else "result")
        want += w.split("\n")
    return tz, lines, want


def check_format(case, ctx):
    tz, lines, want = case
    ctx.nontrivial(case)
    ctx.expect("\n".join(lines) + "\n", want, env=("TZ=" + tz,))


DATES = ["%Y-%m-%d", "%F", "%d.%m.%Y", "%e %b %Y", "%B %d, %Y", "%A %d %B %Y", "%a, %d %b %Y", "%Y/%j", "%C%y-%m-%d", "%u %Y %m %e"]
SHORT = ["%D", "%y-%m-%d", "%d %b %y"]
TIMES = ["%H:%M:%S", "%I:%M:%S %p", "%p %I.%M.%S", "%H %M %S", "%S-%M-%H"]


def gen_parse(s):
    tz = s.pick(sorted(ZONES)) if s.below(2) else "UTC0"
    lines, want = ["import Datetime;"], []
    for _ in s.many(1, 8, 4):
        t = gen_time(s)
        k = s.below(10)
        if k == 0:
            f = "%s"
            t = abs(t)
        elif k == 1:
            f = "%c"
        elif k == 2:
            # what the text leaves out is the first day, midnight
            f, x = s.pick([("%Y", 0), ("%Y-%m", 1), ("%b %Y", 1), ("%B, %Y", 1), ("%C%y", 0)])
            t = stamp(Fields(t).y, Fields(t).mo if x else 1, 1, 0, 0, 0)
        else:
            d = s.pick(DATES) if s.below(3) else s.pick(SHORT)
            if d in SHORT:
                while not stamp(1969, 1, 1, 0, 0, 0) <= t < stamp(2069, 1, 1, 0, 0, 0):
                    t = t % stamp(2069, 1, 1, 0, 0, 0)
            h = s.weighted([(5, s.pick(TIMES)), (1, None)])
            if h is None:
                t -= t % 86400
                f = d
            else:
                sep = s.pick([" ", "T", " at ", "%n", "%t", " %% ", "_"])
                f = d + sep + h if s.below(3) else h + sep + d
        text = Fields(t).text(f)
        bad = s.below(4) == 0
        s.label("damaged" if bad else f)
        if bad:
            how = s.below(4)
            if how == 0:
                text = "?" + text
            elif how == 1:
                text = s.pick(["", "x"])
            elif how == 2:
                f = f + s.pick([" !", "-%Y", " %B", "Q"])
            else:
                # a field out of its range
                f, text = s.pick([("%Y-%m-%d", "2020-13-01"), ("%Y-%m-%d", "2020-00-01"), ("%Y-%m-%d", "2020-01-32"), ("%H:%M:%S", "24:00:00"), ("%H:%M:%S", "23:60:00"),
                                  ("%H:%M:%S", "23:00:62"), ("%I %p", "13 AM"), ("%I %p", "12 XM"), ("%j %Y", "367 2020"), ("%Y %b", "2020 Foo"), ("%A", "Funday"), ("%d/%m", "1-1"),
                                  ("%u", "8"), ("%y", "x1"), ("%e", "0"), ("%D", "1/2"), ("%F", "2020-1"), ("%c", "Fri May 29"), ("%%", "x"), ("%p", "")])
            want.append("nil")
        else:
            if s.below(6) == 0:
                text = text.upper() if s.below(2) else text.lower()
                if "T" in f.replace("%T", "") or "at" in f:
                    text = Fields(t).text(f)
            if s.below(6) == 0 and f != "%s":
                f = f.replace(" ", "  ")
                text = re.sub(" +", lambda m: m.group(0) + " ", text)
            want.append(str(t))
        lines.append("print(Datetime.strptime(%s, %s));" % (blit(f.encode()), blit(text.encode())))
        if not bad and s.below(3) == 0:
            # both directions inside the language
            g = "%Y-%m-%d %H:%M:%S"
            lines.append("print(Datetime.strftime('%s', Datetime.strptime(%s, %s)));" % (g, blit(f.encode()), blit(text.encode())))
            want.append(Fields(t).text(g))
    return tz, lines, want


def gen_clock(s):
    return s.pick(sorted(z for z in ZONES if ZONES[z] is not None)), [s.pick(["now", "utc", "format"]) for _ in s.many(1, 4, 2)]


def check_clock(case, ctx):
    tz, calls = case
    ctx.nontrivial(case)
    src = "import Datetime;\n" + "".join({
        "now": "print(Datetime.now());\n", "utc": "print(Datetime.nowUTC());\n", "format": "print(Datetime.strftime('%c'));\n"}[c] for c in calls)
    src += "print([Datetime.SECONDS_IN_MINUTE, Datetime.SECONDS_IN_HOUR, Datetime.SECONDS_IN_DAY, Datetime.SECONDS_IN_WEEK]);\n"
    t0 = int(time.time()) - 1
    r = ctx.run(src, env=("TZ=" + tz,))
    t1 = int(time.time()) + 1
    ctx.alive(r)
    ctx.status(r)
    got = r.out.decode("latin1").split("\n")
    if len(got) != len(calls) + 2 or got[-2] != "[60, 3600, 86400, 604800]":
        ctx.fail("clock", "printed %r" % got)
    if t1 - t0 > 3600:
        return
    for c, g in zip(calls, got):
        off = ZONES[tz] if c == "now" else 0
        if not any(Fields(t + off).text("%c") == g for t in range(t0, t1 + 1)):
            ctx.fail("clock", "%s gave %r in zone %s; the clock says %r" % (c, g, tz, Fields(t1 + off).text("%c")))


BAD = ["now(1)", "now(nil)", "nowUTC(1)", "strftime()", "strftime(1)", "strftime(nil)", 'strftime("%Y", "1")', 'strftime("%Y", nil)', 'strftime("%Y", 1, 2)', 'strftime("%Y", 1e18)',
       'strftime("%Y", -1e18)', 'strftime("%Y", 1e300)', 'strftime("%Y", -1e300)', 'strftime("%Y", 72057594037927936)', 'strftime("%Y", 70000000000000000)',
       'strftime("%Y", true)', 'strftime(["%Y"])', 'strptime()', 'strptime("%Y")', 'strptime("%Y", 2020)', 'strptime(2020, "%Y")', 'strptime("%Y", "2020", "x")', 'strptime("%Y", nil)']


def gen_errors(s):
    steps = [("import Datetime;", [], False)]
    for _ in s.many(2, 10, 5):
        if s.below(3):
            e = s.pick(BAD).replace("1e18", "1" + "0" * 18).replace("1e300", "1" + "0" * 300)
            steps.append(("print(Datetime.%s);" % e, [], True))
        else:
            t = gen_time(s)
            f = "%Y-%m-%d %H:%M:%S"
            steps.append(("print(Datetime.strftime('%s', %s)); print(Datetime.strptime('%s', '%s')); print(Datetime.strftime('', %s).len());" % (
                f, expr_time(s, t), f, Fields(t).text(f), t), [Fields(t).text(f), str(t), "0"], False))
    return steps


def check_errors(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def parts():
    return [Part("format", gen_format_case, check_format, 4000), Part("parse", gen_parse, check_format, 4000),
            Part("clock", gen_clock, check_clock, 200), Part("errors", gen_errors, check_errors, 300)]
