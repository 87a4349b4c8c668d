"""SQLite: histories of statements, the same statements through Python's binding of the same library as the model."""
import os
import shutil
import sqlite3
import tempfile
import time

from ..core import Part
from .. import vals as V
from .S08 import blit

RULE = ("1-3 connections to memory or 1-2 database files, 4-40 statements: tables with every column affinity, keys, CHECK, UNIQUE and foreign key "
        "constraints; inserts, upserts, updates, deletes, RETURNING, selects, aggregates, recursive queries, transactions, savepoints, schema changes, "
        "PRAGMAs, statements that fail before, at or after their first row; positional, numbered and named parameters holding nil, booleans, numbers and "
        "text with quotes, question marks, SQL, NUL and UTF-8; the same history is run by Python's sqlite3 (same shared library) and every result, error "
        "text and the final content of the files is compared; non-trivial = a query returned stored rows")

EX = """import Sqlite;
def ex(c, q, ...a) {
    const r = a.len() == 0 ? c.execute(q) : c.execute(q, a[0]);
    if (r.success()) { print(r.unwrap()); return r.unwrap(); }
    print("E " + r.unwrapError()); return nil;
}
def quiet(c, q, ...a) {
    const r = a.len() == 0 ? c.execute(q) : c.execute(q, a[0]);
    if (r.success()) { return r.unwrap(); }
    return r.unwrapError();
}
"""

TEXTS = ["a", "b", "", "abc", "it's", '"q"', "?", "'; DROP TABLE t0; --", "1", "1.0", " 2", "1e3", "0x10", "nil", "NULL", "\u00e9\u4e16\U0001f600", "two\nlines", "a\0b", "\0", "%", "A", "long " * 40, ":a", "-- x", "x" * 3000]


def value(s):
    k = s.below(10)
    if k <= 3:
        return s.pick(TEXTS)
    if k <= 6:
        return V.gen_num(s)
    if k == 7:
        return s.pick([0, 1, -1, 2, 3, 0.5, 9007199254740992, 1e20, 1e-10, 4294967296, -2147483649])
    if k == 8:
        return s.pick([True, False])
    return None


def bound(v):
    return int(v) if isinstance(v, bool) else float(v) if isinstance(v, (int, float)) else v


def back(v):
    """What the language is to see for a value of the database."""
    if isinstance(v, bytes):
        return v
    return v if v is None else float(v)


def dlit(v):
    if isinstance(v, str):
        return blit(v.encode("utf-8", "surrogateescape"))
    if isinstance(v, bytes):
        return blit(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(dlit, v)) + "]"
    return V.lit(v)


def bshow(v):
    if isinstance(v, bytes):
        return b'"' + v + b'"'
    if isinstance(v, list):
        return b"[" + b", ".join(map(bshow, v)) + b"]"
    return V.show(v).encode()


class Gen:
    def __init__(self, s):
        self.s = s
        self.cols = {}      # table -> list of column names
        self.keyed = []     # tables whose c0 is a key

    def table(self):
        return self.s.pick(sorted(self.cols)) if self.cols and self.s.below(20) else "t%d" % self.s.below(4)

    def col(self, t):
        cs = self.cols.get(t, ["c0"])
        return self.s.pick(cs) if self.s.below(15) else self.s.pick(["c0", "rowid", "nope", "c9"])

    def mark(self, n, params, v):
        """One placeholder for v, in some spelling."""
        params.append(v)
        return "?"

    def create(self):
        s = self.s
        t = "t%d" % s.below(4)
        cs, defs = [], []
        for i in range(s.int(1, 5)):
            c = "c%d" % i
            d = c + s.pick([" INTEGER", " REAL", " TEXT", " NUMERIC", " BLOB", "", " VARCHAR(3)"])
            d += s.pick(["", "", "", "", " UNIQUE", " NOT NULL", " CHECK (%s > 0)" % c, " DEFAULT 'd?'", " DEFAULT 7"])
            if i == 0 and s.below(3) == 0:
                d = c + s.pick([" INTEGER PRIMARY KEY", " TEXT PRIMARY KEY", " INTEGER PRIMARY KEY AUTOINCREMENT"])
                if t not in self.cols:
                    self.keyed.append(t)
            elif s.below(4) == 0 and self.keyed:
                o = s.pick(self.keyed) if s.below(10) else self.table()
                d += " REFERENCES %s(%s)%s" % (o, self.cols.get(o, ["c0"])[0], s.pick(["", " ON DELETE CASCADE", " ON DELETE SET NULL", " DEFERRABLE INITIALLY DEFERRED"]))
            cs.append(c)
            defs.append(d)
        self.cols.setdefault(t, cs)
        return "CREATE TABLE %s%s (%s)" % (s.pick(["", "", "IF NOT EXISTS "]), t, ", ".join(defs)), None

    def where(self, t, params):
        s = self.s
        k = s.below(8)
        if k <= 1:
            return ""
        c = self.col(t)
        if k == 7:
            params.append(value(s))
            params.append(value(s))
            return " WHERE %s BETWEEN ? AND ?" % c
        if k == 6:
            ps = [value(s) for _ in s.many(1, 4, 2)]
            params.extend(ps)
            return " WHERE %s IN (%s)" % (c, ", ".join("?" * len(ps)))
        params.append(value(s))
        return " WHERE %s %s ?" % (c, s.pick(["=", "=", "IS", "<", ">", "LIKE", "!=", "IS NOT"]))

    def insert(self):
        s = self.s
        t = self.table()
        cs = list(self.cols.get(t, ["c0"]))
        names = ""
        if s.below(3) == 0:
            cs = s.subset(cs, 0.7) or cs[:1]
            names = " (" + ", ".join(cs) + ")"
        rows = s.int(1, 3) if s.below(4) == 0 else 1
        params = []
        groups = []
        n = len(cs) + (1 if s.below(25) == 0 else 0)
        for _ in range(rows):
            g = []
            for _ in range(n):
                if s.below(8) == 0:
                    g.append(s.pick(["NULL", "'lit?'", "42", "2.5", "x'00ff41'", "'it''s'"]))
                else:
                    params.append(value(s))
                    g.append("?")
            groups.append("(" + ", ".join(g) + ")")
        q = "INSERT%s INTO %s%s VALUES %s" % (s.pick(["", "", "", " OR IGNORE", " OR REPLACE"]), t, names, ", ".join(groups))
        k = s.below(10)
        if k == 0:
            q += " ON CONFLICT DO NOTHING"
        if k <= 2:
            q += " RETURNING " + s.pick(["*", self.col(t), "rowid", "1, '?'"])
        return q, params

    def select(self):
        s = self.s
        t = self.table()
        params = []
        k = s.below(12)
        c = self.col(t)
        if k <= 3:
            return "SELECT * FROM %s%s ORDER BY rowid" % (t, self.where(t, params)) + self.limit(params), params
        if k == 4:
            return "SELECT %s, typeof(%s) FROM %s%s ORDER BY rowid" % (c, c, t, self.where(t, params)), params
        if k == 5:
            return "SELECT count(*), %s(%s) FROM %s%s" % (s.pick(["max", "min", "total", "sum", "count", "avg"]), c, t, self.where(t, params)), params
        if k == 6:
            return "SELECT length(%s), hex(%s), quote(%s), upper(%s) FROM %s%s ORDER BY rowid" % (c, c, c, c, t, self.where(t, params)), params
        if k == 7:
            u = self.table()
            return "SELECT a.*, b.* FROM %s a %s JOIN %s b ON a.%s = b.%s ORDER BY a.rowid, b.rowid LIMIT 20" % (t, s.pick(["", "LEFT"]), u, c, self.col(u)), None
        if k == 8:
            return "WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM n WHERE i < ?) SELECT i, i * 0.5, 'r' || i FROM n", [s.pick([0, 1, 5, 40, 300])]
        if k == 9:
            return "SELECT DISTINCT %s FROM %s ORDER BY 1" % (c, t), None
        return self.literal()

    def limit(self, params):
        s = self.s
        if s.below(5):
            return ""
        params.append(s.int(0, 4))
        return " LIMIT ?"

    def literal(self):
        """Parameters in all spellings, question marks that are none."""
        s = self.s
        k = s.below(8)
        vs = [value(s) for _ in s.many(1, 6, 3)]
        if k <= 2:
            return "SELECT " + ", ".join("?" for _ in vs), vs
        if k == 3:
            order = [s.int(1, len(vs)) for _ in range(s.int(1, 6))] + [len(vs)]
            return "SELECT " + ", ".join("?%d" % i for i in order), vs
        if k == 4:
            return "SELECT '?', ?, \"?\" FROM (SELECT 1 AS \"?\") -- ?\n", vs[:1]
        if k == 5:
            names = s.pick([":a", "@a", "$a"])
            return "SELECT %s, %s /* ? */, typeof(%s)" % (names, names, names), vs[:1]
        if k == 6:
            return "SELECT typeof(?), quote(?), ? = ?", (vs + [1, 2, 3, 4])[:4]
        return s.pick([("SELECT 1 WHERE 0", None), ("VALUES (1, 'a'), (2, NULL), (-3.5, x'6100')", None), ("SELECT 9223372036854775807, 1e300, -1.5e-7, ''", None),
                       ("SELECT NULL", []), ("SELECT x''", None), ("SELECT 'a' || char(0) || 'b'", None), ("SELECT zeroblob(5)", None), ("SELECT 1;", None), ("  SELECT 2  ;\n ", None),
                       ("SELECT CAST(x'ff41fe' AS TEXT)", None)])

    def change(self):
        s = self.s
        t = self.table()
        params = []
        if s.below(2):
            c = self.col(t)
            e = s.pick(["?", "?", "?", "%s + 1" % c, "upper(%s)" % c, "NULL", "%s || ?" % c])
            if "?" in e:
                params.append(value(s))
            q = "UPDATE %s%s SET %s = %s%s" % (s.pick(["", "", "OR IGNORE ", "OR REPLACE "]), t, c, e, self.where(t, params))
        else:
            q = "DELETE FROM %s%s" % (t, self.where(t, params))
        if s.below(6) == 0:
            q += " RETURNING *"
        return q, params

    def other(self):
        s = self.s
        t = self.table()
        k = s.below(10)
        if k <= 5:
            return s.pick(["BEGIN", "BEGIN", "BEGIN IMMEDIATE", "COMMIT", "COMMIT", "ROLLBACK", "SAVEPOINT s", "RELEASE s", "ROLLBACK TO s"]), None
        if k == 6:
            return s.pick(["CREATE %sINDEX i%d ON %s(%s)" % (s.pick(["", "UNIQUE "]), s.below(3), t, self.col(t)), "CREATE VIEW v%d AS SELECT * FROM %s" % (s.below(2), t),
                           "SELECT * FROM v%d" % s.below(2)]), None
        if k == 7:
            return s.pick(["PRAGMA table_info(%s)" % t, "PRAGMA foreign_keys", "PRAGMA user_version", "PRAGMA user_version = 5", "PRAGMA foreign_key_list(%s)" % t,
                           "SELECT name, sql FROM sqlite_master ORDER BY name", "SELECT changes()", "SELECT last_insert_rowid()", "SELECT total_changes()", "PRAGMA nosuchpragma"]), None
        if k == 8:
            q = "DROP TABLE %s%s" % (s.pick(["", "IF EXISTS "]), t)
            return q, None
        q = "ALTER TABLE %s ADD COLUMN c%d%s" % (t, s.int(5, 9), s.pick(["", " TEXT DEFAULT 'new'", " NOT NULL"]))
        return q, None

    def wrong(self):
        s = self.s
        t = self.table()
        return s.pick([("SELEC 1", None), ("SELECT * FROM nope", None), ("", None), ("SELECT", None), ("INSERT INTO %s VALUES (" % t, None), ("SELECT nope(1)", None),
                       ("SELECT abs(-9223372036854775808)", None), ("WITH n(i) AS (VALUES (1), (2), (3)) SELECT CASE WHEN i = 3 THEN abs(-9223372036854775807 - 1) ELSE i END FROM n", None),
                       ("SELECT json(?)", ["{"]), ("UPDATE nope SET a = ?", [1]), ("SELECT 'unfinished", None), ("DROP TABLE nope", None), ("CREATE TABLE sqlite_x (a)", None),
                       ("ATTACH DATABASE 'no/such/dir/x.db' AS z", None), ("SELECT * FROM %s WHERE" % t, None)])

    def statement(self):
        k = self.s.below(100)
        if k < 8 or not self.cols:
            return self.create()
        if k < 40:
            return self.insert()
        if k < 68:
            return self.select()
        if k < 80:
            return self.change()
        if k < 94:
            return self.other()
        return self.wrong()


def gen(s):
    g = Gen(s)
    mode = s.weighted([(6, "memory"), (3, "file"), (3, "shared")])
    s.label(mode)
    conns = 1 if mode != "shared" else s.int(2, 3)
    names = {"memory": [":memory:"], "file": ["a.db"], "shared": ["a.db", "a.db", "b.db"][:conns]}[mode]
    if mode == "memory" and s.below(4) == 0:
        names, conns = [":memory:", ":memory:"], 2
    steps = []
    down = set()

    def some(c):
        for _ in range(s.int(1, 3)):
            q, p = g.create()
            steps.append(("exec", c, q, p))
    if s.below(8):
        some(0)
    for _ in s.many(4, 40, 20):
        c = s.below(conns)
        k = s.below(50)
        if k == 0:
            steps.append(("close", c))
            down.add(c)
        elif c in down and k < 25:
            steps.append(("open", c))
            down.discard(c)
            if mode == "memory":
                some(c)
        else:
            q, p = g.statement()
            if p is None and s.below(4) == 0 and "?" not in q:
                p = []
            steps.append(("exec", c, q, p))
    return names, steps, s.pick([0, 0, 1, 10])


def connect(path, timeout):
    c = sqlite3.connect(path, isolation_level=None, timeout=timeout / 1000, cached_statements=0)
    c.text_factory = bytes
    c.execute("PRAGMA foreign_keys = ON")
    if path != ":memory:":
        c.execute("PRAGMA synchronous = OFF")
    return c


def model(conn, q, p):
    """-> ("rows", list) | ("nil",) | ("error", bytes)"""
    if conn is None:
        return "error", b"Database connection is closed"
    try:
        cur = conn.cursor()
        cur.execute(q, [bound(v) for v in p or []])
        if cur.description is None:
            return ("nil",)
        return "rows", [[back(v) for v in row] for row in cur.fetchall()]
    except sqlite3.ProgrammingError as e:
        raise AssertionError("generator: %s: %r %r" % (e, q, p))
    except (sqlite3.Error, sqlite3.Warning) as e:
        return "error", str(e).encode()


def check(case, ctx):
    import warnings
    warnings.simplefilter("ignore")
    names, steps, timeout = case
    tmp = tempfile.mkdtemp(prefix="vf_s07_")
    try:
        lines, want, opened, rows = [], [], [], 0
        files = any(n != ":memory:" for n in names)

        def open_(i):
            n = names[i]
            lines.append("c%d = Sqlite.connect(%s, %d).unwrap();" % (i, dlit(n), timeout))
            if n != ":memory:":
                lines.append("quiet(c%d, 'PRAGMA synchronous = OFF');" % i)
            opened[i] = connect(n if n == ":memory:" else os.path.join(tmp, n), timeout)
        for i in range(len(names)):
            lines.append("var c%d = nil;" % i)
            opened.append(None)
            open_(i)
        for st in steps:
            c = st[1]
            if st[0] == "close":
                lines.append("print(c%d.close());" % c)
                want.append(b"nil")
                if opened[c] is not None:
                    opened[c].close()
                opened[c] = None
                continue
            if st[0] == "open":
                if opened[c] is None:
                    open_(c)
                continue
            q, p = st[2], st[3]
            if q == "":
                # the library reports a misuse; only that it is reported counts
                lines.append("print(c%d.execute('').success());" % c)
                want.append(b"false")
                continue
            call = "(c%d, %s%s)" % (c, dlit(q), "" if p is None else ", " + dlit(p))
            res = model(opened[c], q, p)
            ctx.label(res[0])
            fn = "def f%d() { " % len(lines)
            if res[0] == "rows":
                rows += len(res[1])
                flat = [v for r in res[1] for v in r]
                if any(isinstance(v, bytes) and b"\0" in v for v in flat) and sum(map(len, res[1])) < 100:
                    lines.append(fn + "print(quiet%s == %s); } f%d();" % (call, dlit(res[1]), len(lines)))
                    want.append(b"true")
                elif any(isinstance(v, bytes) and b"\0" in v for v in flat):
                    lines.append(fn + "print(quiet%s.len()); } f%d();" % (call, len(lines)))
                    want.append(b"%d" % len(res[1]))
                else:
                    lines.append(fn + "ex%s; } f%d();" % (call, len(lines)))
                    want.append(bshow(res[1]))
            else:
                lines.append(fn + "ex%s; } f%d();" % (call, len(lines)))
                want.append(b"nil" if res[0] == "nil" else b"E " + res[1])
        if rows:
            ctx.nontrivial(lines)
        # the statements are spread over functions, each with its own constants
        src = EX + "".join(l + "\n" for l in lines)
        if len(lines) > 60:
            src = EX + "".join(l + "\n" for l in lines if l.startswith("var"))
            rest = [l for l in lines if not l.startswith("var")]
            for i in range(0, len(rest), 30):
                src += "def part%d() {\n%s} part%d();\n" % (i, "".join(l + "\n" for l in rest[i:i + 30]), i)
        r = ctx.expect(src, want, **({"tree": {}} if files else {}), cpu=10)
        if files:
            for o in opened:
                if o is not None:
                    o.close()
            os.mkdir(os.path.join(tmp, "got"))
            for n, e in r.tree.items():
                b = e
                while isinstance(b, tuple):
                    b = b[-1]
                if isinstance(b, bytes):
                    with open(os.path.join(tmp, "got", n), "wb") as f:
                        f.write(b)
            for n in sorted(set(names)):
                dumps = []
                for d in (tmp, os.path.join(tmp, "got")):
                    c = sqlite3.connect(os.path.join(d, n))
                    c.text_factory = bytes
                    try:
                        t = {}
                        for name, kind, sql in c.execute("SELECT name, type, sql FROM sqlite_master ORDER BY name").fetchall():
                            t[name] = (sql, c.execute('SELECT * FROM "%s"' % name.decode()).fetchall() if kind == b"table" else None)
                        dumps.append(t)
                    finally:
                        c.close()
                if dumps[0] != dumps[1]:
                    k = [x for x in dumps[0].keys() | dumps[1].keys() if dumps[0].get(x) != dumps[1].get(x)]
                    ctx.fail("file", "the file %s holds %r, the model says %r" % (n, {x: dumps[1].get(x) for x in k}, {x: dumps[0].get(x) for x in k}))
    finally:
        shutil.rmtree(tmp)


VALS = ["nil", "1", "'x'", "true", "0.5"]
BAD = ["db.execute()", "db.execute(1)", "db.execute(nil)", "db.execute('SELECT 1', 1)", "db.execute('SELECT 1', nil)", "db.execute('SELECT 1', [], 1)", "db.execute('SELECT ?', 'x')",
       "db.execute('SELECT ?', {})", "db.close(1)", "Sqlite.connect()", "Sqlite.connect(1)", "Sqlite.connect(':memory:', '1')", "Sqlite.connect(':memory:', 1, 2)", "Sqlite.connect(nil)"]


def gen_errors(s):
    steps = [("import Sqlite;", [], False), ("const db = Sqlite.connect(':memory:').unwrap();", [], False), ("print(db.execute('CREATE TABLE t (a, b)').unwrap());", ["nil"], False)]
    n = 0
    for _ in s.many(3, 14, 7):
        k = s.below(6)
        if k == 0:
            steps.append(("print(%s);" % s.pick(BAD), [], True))
        elif k == 1:
            q, m = s.pick([("SELECT ?", 1), ("SELECT ?, ?", 2), ("SELECT 1", 0), ("SELECT '?'", 0), ("SELECT ?3", 3), ("SELECT :a, :b, :a", 2), ("SELECT ? -- ?", 1), ("INSERT INTO t VALUES (?, ?)", 2),
                           ("INSERT INTO t VALUES ('?', ?)", 1), ("UPDATE t SET a = ?2 WHERE b = ?1", 2), ("SELECT ?1, ?1", 1)])
            k = s.pick([i for i in range(5) if i != m])
            a = "" if k == 0 and s.below(2) else ", [%s]" % ", ".join(s.pick(VALS) for _ in range(k))
            steps.append(('print(db.execute("%s"%s));' % (q, a), [], True))
        elif k == 2:
            steps.append(("print(db.execute('INSERT INTO t VALUES (?, ?)', %s));" % s.pick(["[1, [1]]", "[{}, 2]", "[set(1), nil]", "[db, 1]", "[def (x) => x, 1]", "['x', Sqlite]"]), [], True))
        elif k == 3:
            steps.append(("print(Sqlite.connect('/nonexistent-vf/x.db').unwrapError());", ["unable to open database file"], False))
        else:
            steps.append(("print(db.execute('INSERT INTO t VALUES (?, ?)', [%d, 'x']).unwrap());" % n, ["nil"], False))
            n += 1
        if s.below(2):
            steps.append(("print(db.execute('SELECT count(*), max(a) FROM t').unwrap());", ["[[%d, %s]]" % (n, n - 1 if n else "nil")], False))
    return steps


def check_errors(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps)


def gen_wait(s):
    return s.pick([None] + [s.int(1, 12) * 50 for _ in range(30)]), s.pick(["BEGIN EXCLUSIVE", "BEGIN IMMEDIATE"]), s.pick(["INSERT INTO t VALUES (2)", "DELETE FROM t", "CREATE TABLE u (a)"])


def check_wait(case, ctx):
    timeout, begin, q = case
    ctx.nontrivial(case)
    t0 = time.monotonic()
    ctx.expect(EX + """const a = Sqlite.connect('w.db').unwrap();
const b = Sqlite.connect('w.db'%s).unwrap();
ex(a, 'CREATE TABLE t (x)'); ex(a, '%s'); ex(a, 'INSERT INTO t VALUES (1)');
ex(b, '%s'); ex(a, 'COMMIT'); ex(b, '%s'); ex(a, 'SELECT count(*) FROM t');
""" % ("" if timeout is None else ", %d" % timeout, begin, q, q),
        ["nil", "nil", "nil", "E database is locked", "nil", "nil", {"I": "[[2]]", "D": "[[0]]", "C": "[[1]]"}[q[0]]], tree={})
    dt = time.monotonic() - t0
    least = (5000 if timeout is None else timeout) / 1000
    if dt < least * 0.97:
        ctx.fail("timeout", "a locked database was given up after %.3f s, the time-out is %.3f s" % (dt, least))


def parts():
    return [Part("history", gen, check, 2500), Part("errors", gen_errors, check_errors, 400), Part("timeout", gen_wait, check_wait, 40, 200)]
