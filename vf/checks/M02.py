"""The programs of all other checks, with the allocator's balance at exit."""
import re
from .. import pool
from ..core import Part, Discard

VARIANTS = ("balance",)
TECHNIQUE = "property testing of an invariant (allocation balance at exit, bounded peak) over generated programs, with shrinking"
RULE = ("the generated programs, sessions and histories of every other check; after each the interpreter reports how many bytes of what it "
        "allocated were not returned, which must be 0, and the build counts the C library blocks taken by each of its functions and not freed; and loops that create and drop data of every kind must finish under a memory limit; "
        "non-trivial = the other check counts the program as non-trivial")
LOST = re.compile(rb"Total bytes lost: (-?\d+)\n?")
RAW = re.compile(rb"VF_RAW (\d+) (\d+) (\w+)\n")


def hook(ctx, kind, src, variant, kw):
    f = ctx.run if kind == "run" else ctx.raw
    if kind == "run":
        kw = dict(kw, api=True)
    r = f(src, "balance", **kw)
    if r.timeout or r.exit == 1:      # 1: the program asked to exit at once
        return r
    m = LOST.findall(r.out)
    if not r.crashed:
        if not m:
            raise pool.Own("balance", "the interpreter ended (%s) without giving back its memory" % r.describe())
        if m[-1] != b"0":
            raise pool.Own("balance", "%s bytes lost at exit (%s)" % (m[-1].decode(), r.describe()))
        i = r.out.rfind(b"Total bytes lost")
        r.out = r.out[:i]
        raw = RAW.findall(r.err)
        if raw and b"FFI.load(" in (src if isinstance(src, bytes) else str(src).encode()):
            r.err, raw = RAW.sub(b"", r.err), []        # a native module gives memory back by its own means
        if raw:
            r.err = RAW.sub(b"", r.err)
            raise pool.Own("raw:" + raw[0][2].decode(), "memory taken from the C library was never given back: " + ", ".join(
                "%s bytes in %s blocks by %s()" % (n.decode(), k.decode(), w.decode()) for n, k, w in raw))
    return r


SNIPS = r"""
var a = []; for (var j = 0; j < 20; j += 1) a.push(i + j); a.pop(); a.remove(i);
var d = {"k": i}; d["x" + i.toString()] = [i]; d.remove("k");
gd["g" + i.toString()] = i; gd.remove("g" + i.toString());
gs.add(i); gs.remove(i);
gl.push("s" + i.toString()); gl.pop();
gl.insert([i], 0); gl.remove(gl[0]);
var s = "a" + i.toString() + "b"; s = s.upper().lower().title().replace("a", "xx").strip();
var p = ("q," + i.toString() + ",r").split(","); var q = p.join("-");
var f = def (x) => x + i; f(3);
var fs = []; for (var j = 0; j < 3; j += 1) { var k = j; fs.push(def () => k + i); } fs[1]();
var o = C(i); o.x = [o]; o.m(2);
var o = D(i); o.self = o; var b = o.m; b(1);
var l = []; l.push(l); l.push({"l": l});
var c1 = {"a": [1, {"b": set("x")}]}; var c2 = c1.deepCopy(); var c3 = c1.copy();
var o = C(i); var o2 = o.deepCopy(); o.setAttribute("z" + (i % 7).toString(), 1); o.getAttributes(); o.methods();
("n" + i.toString()).toNumber().matchWrap(def (x) => x, def (e) => e);
i.toString().toNumber().match(def (x) => x, def (e) => e); Math.sqrt(i);
gl2[i % 5] = "v" + i.toString() + "w"; gl2.contains("v1w"); gl2.sortFunc(def (x, y) => 0);
def g(n) { if (n > 0) return g(n - 1); return [n]; } g(5);
def v(...r) { return r.len(); } v(...[i, 2, 3]); v(i); v();
def w(x, y = [x], z = y) { return z; } w(i); w(i, 2);
class L { var cv = [1]; m() { return this; } } var o = L(); o.m().m();
class L < C { m(x) { return super.m(x); } } L(i).m(4);
enum E { A, B = "x", C } E.values(); E.A;
var [x, y] = [i, [i]]; [x, y] = [y, x];
"ab{}cd{}".format(i, "z" + i.toString()).find("d"); "abc"[1]; "abcdef"[1:3]; [1, 2, i][0:2];
[1, 2, i].map(def (x) => [x]).filter(def (x) => x[0] > 1).reduce(def (t, x) => t, []); [3, i, 1].sort();
JSON.stringify({"a": [i, "x", nil]}).unwrap(); JSON.parse("[1, {\"k" + i.toString() + "\": 2}]").unwrap();
JSON.parse("{bad").unwrapError();
var b = Buffer.new(64).unwrap(); b.writeUInt32LE(0, i); b.readUInt32LE(0).unwrap(); b.resize(128);
var q = Queue.newWithSize(4).unwrap(); q.push([i]); q.push(i); q.pop();
var q = Stack.new(); q.push([i]); q.push(i); q.pop();
var n = BigInt.new(i.toString()).unwrap(); var m = BigInt.new("123456789012345678901234567890").unwrap(); m.add(n); m.subtract(n);
Base64.encode("x" + i.toString()); Base64.decode("eDE=");
Path.basename("/a/b" + i.toString()); Path.dirname("/a/b" + i.toString()); Path.join("a", i.toString());
Datetime.strftime("%H:%M:%S", i); Datetime.strptime("%Y-%m-%d", "2020-01-02");
Hashlib.sha256("x" + i.toString()); Hashlib.hmac("k", "m" + i.toString());
Random.range(1, 5); UUID.generate(); Random.select([1, [i]]);
Math.max([i, 2]); Math.sum([1, i]); Math.floor(i / 3);
System.time(); System.clock(); Object.hash([i]); Object.getClassRef("Nope" + i.toString()).unwrapError();
Env.get("NOPE" + i.toString(), "d"); Env.set("VF_X", "v" + (i % 3).toString()); Env.get("VF_X");
if (i % 10 == 0) with("f.txt", "w") { file.write("x" + i.toString()); } else gl.push(1);
if (i % 10 == 0) { with("f.txt", "w") { file.write("x\ny\n"); } with("f.txt", "r") { file.readLine(); file.read(); } }
if (i % 20 == 0) { var db = Sqlite.connect(":memory:").unwrap(); db.execute("CREATE TABLE t (a)"); db.execute("INSERT INTO t VALUES (?)", [i]); db.execute("SELECT a FROM t").unwrap(); db.execute("BAD").unwrapError(); db.close(); }
var it = {"a": 1, "b": [i]}; it.forEach(def (k, v) => v); it.keys(); it.len(); it.get("z", 0); it.exists("a");
var st = set(1, "b", i); st.values(); st.len(); st.contains(i); st.toString(); st.containsAll([1]);
"x{} {}".count("x"); "a b c".wordCount(); "a  b".collapseSpaces(); "long text here".wrap(5); "x".repeat(5);
[i, i, 2].unique(); [[i]].deepCopy(); [1, i].toString(); [1, i].reverse(); [1, 2, i, 4].splice(1, 2, [9]);
type(i); i.toBool(); nil.toString(); o0?.zz; C(i)?.x; C(i)._class._name;
const rr = def (n) => { if (n == 0) { return []; } return [n]; }; rr(i); rr(0);
switch (i % 3) { case 0: gl3 = [i]; case 1, 7: gl3 = nil; default: gl3 = {"a": i}; }
while (true) { var t = [i]; var u = def () => t; if (i > 0 or u()) { break; } }
"""
SNIPS = SNIPS.strip().split("\n")
HEAD = """import Math; import JSON; import Buffer; import Queue; import Stack; import BigInt; import Base64; import Path; import Datetime;
import Hashlib; import Random; import UUID; import System; import Object; import Env; import Sqlite;
class C { init(var n) { this.x = n; } m(k) { return [k, this.n]; } }
class D < C { init(n) { super.init(n); } m(k) { var f = def () => super.m(k); return f(); } }
var gd = {}; var gs = set(); var gl = []; var gl2 = [0, 0, 0, 0, 0]; var gl3; var o0;
def body(i) {
"""


def gen_growth(s):
    k = [s.pick(SNIPS) for _ in s.many(1, 4, 2)]
    return k


def check_growth(k, ctx):
    src = HEAD + "\n".join("    { %s }" % x.replace("gl.push(1)", "gl.len()") for x in k) + "\n}\nfor (var i = 1; i <= NNN; i += 1) { body(i); }\nprint(\"done\");\n"
    ctx.nontrivial(src)
    ctx.label("growth loops")
    rss = []
    for n in (1500, 30000, 150000):
        r = ctx.run(src.replace("NNN", str(n)), "balance", cpu=90)
        if not r.out.startswith(b"done"):
            raise Discard()
        rss.append(r.rss)
        if len(rss) == 2 and rss[1] < rss[0] + 3000:
            return
    if rss[2] > rss[1] + 4000:
        raise pool.Own("growth", "peak memory grows with the number of iterations of a loop that keeps nothing: %d KB after 1500, %d KB after 30000, %d KB after 150000" % tuple(rss))


def parts():
    return [Part("growth", gen_growth, check_growth, 120, 1500)] + pool.wrap(hook, 400, 10000, weight={"S16": .5}, skip=[("S19", "term"), ("S16", "fail"), ("R01", "sizes"), ("R02", "recursion"), ("C01", "arguments"), ("C01", "status"), ("C01", "modes")])
