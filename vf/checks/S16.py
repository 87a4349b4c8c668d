"""HTTP and sockets over the loopback: a scripted server records every request and decides every response."""
import functools
import gzip
import json
import os
import re
import select
import socket
import threading
import time
from http import HTTPStatus

from ..core import Part
from .. import vals as V
from .S08 import blit

RULE = ("http: 1-6 calls of HTTP.get/post/put/head/options and of 0-2 clients (options, headers, redirects, changed on the way) against a server "
        "that records raw requests and answers with generated status, headers and body (0-200000 bytes of any content, with a length, chunked or until "
        "close, plain or gzip, in arbitrary pieces), redirects, answers cut short, not HTTP, or none; every recorded request (method, target, headers, "
        "body) and every response object is compared with the description; socket: stream and datagram pairs inside one program and with a peer "
        "outside, 0-300000 bytes each way in arbitrary pieces, closed peers, refused ports; non-trivial = a request that reached the server / bytes received")

ENV = ("no_proxy=*", "NO_PROXY=*")


class Server(threading.Thread):
    def __init__(self, script):
        super().__init__(daemon=True)
        self.script, self.requests, self.problem = list(script), [], None
        self.lock = socket.socket()
        self.lock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.lock.bind(("127.0.0.1", 0))
        self.lock.listen(16)
        self.port = self.lock.getsockname()[1]
        self.stop = False
        self.gone = threading.Event()

    def run(self):
        try:
            while not self.stop:
                r, _, _ = select.select([self.lock], [], [], 0.05)
                if r:
                    c, _ = self.lock.accept()
                    c.settimeout(10)
                    try:
                        self.serve(c)
                    except OSError:
                        pass
                    finally:
                        c.close()
        finally:
            self.lock.close()

    def serve(self, c):
        buf = b""
        while not self.stop:
            while b"\r\n\r\n" not in buf:
                # a client that keeps the connection while another one knocks: leave the idle one
                while True:
                    r, _, _ = select.select([c, self.lock], [], [], 0.05)
                    if c in r:
                        break
                    if self.stop or (self.lock in r and not buf):
                        return
                d = c.recv(65536)
                if not d:
                    return
                buf += d
            head, buf = buf.split(b"\r\n\r\n", 1)
            lines = head.split(b"\r\n")
            hs = [(l.split(b":", 1)[0].lower(), l.split(b":", 1)[1].strip()) for l in lines[1:] if b":" in l]
            d = dict(hs)
            if d.get(b"expect", b"").lower() == b"100-continue":
                c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
            n = int(d.get(b"content-length", b"0"))
            while len(buf) < n:
                x = c.recv(65536)
                if not x:
                    break
                buf += x
            body, buf = buf[:n], buf[n:]
            self.requests.append((lines[0], hs, body))
            if not self.script:
                self.problem = "an unexpected request: %r" % lines[0]
                return
            pieces, close = self.script.pop(0)
            for p in pieces:
                if isinstance(p, float):
                    time.sleep(p)
                else:
                    c.sendall(p)
            if close:
                c.shutdown(socket.SHUT_WR)
                return

    def end(self):
        self.stop = True
        self.join(15)


def cut(s, b):
    """b in arbitrary pieces."""
    if s.below(3) or not b:
        return [b]
    at = sorted({s.int(0, len(b)) for _ in range(s.int(1, 4))})
    out = [b[i:j] for i, j in zip([0] + at, at + [len(b)])]
    return [x for x in out if x]


def data(s, big=False):
    k = s.below(8)
    if k == 0:
        return b""
    if k <= 3:
        return s.text("abc {}[]:,\"01\n", 1, 40).encode()
    if k == 4:
        return bytes(s.below(256) for _ in range(s.int(1, 60)))
    if k == 5:
        return s.pick([b"\0", b"a\0b", b"\r\n\r\n", b"%41+&=", "\u00e9\u4e16".encode(), b"HTTP/1.1 200 OK\r\n\r\n"])
    n = s.pick([127, 128, 1023, 1024, 4096, 16383, 16384, 16385, 65536]) if not big or s.below(2) else s.int(1000, 200000)
    unit = s.pick([b"x", b"ab\n", b"\0\xff", b"0123456789"])
    return (unit * (n // len(unit) + 1))[:n]


def expr(b):
    """A Dictu expression for the bytes b."""
    for w in range(1, 11):
        if len(b) > 100 and b == (b[:w] * (len(b) // w + 1))[:len(b)]:
            n = len(b) // w
            return "(%s.repeat(%d) + %s)" % (blit(b[:w]), n, blit(b[n * w:]))
    return blit(b)


REASON = {200: "OK", 201: "Created", 404: "Not Found", 500: "Internal Server Error", 204: "No Content", 304: "Not Modified", 418: "I'm a teapot", 299: "", 599: "Odd", 202: "Accepted"}
HEADERS = ["X-Test: 1", "X-Empty:", "X-Colon: a:b:c", "Content-Type: application/json", "Set-Cookie: a=1", "Set-Cookie: b=2; Path=/", "Server: vf", "X-Long: " + "v" * 3000, "ETag: \"x\"",
           "x-lower: y", "X-Utf: \u00e9", "X-Sp:  two  spaces  "]
SENT = ["X-A: 1", "X-B: two words", "Content-Type: application/json", "User-Agent: Dictu", "Accept: text/plain", "X-C: a:b", "Authorization: Bearer abc", "X-Long: " + "q" * 2000, "Cookie: a=1; b=2"]


def response(s, method, bad_ok=True):
    """-> (pieces, close, expected) with expected (status, header lines, content) or None for an error."""
    k = s.below(14)
    if k == 0 and bad_ok:
        s.label("cut short")
        b = b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n" + data(s)[:99]
        if method != "HEAD":
            return [b], True, None
    if k == 1 and bad_ok:
        s.label("no response")
        return [], True, None
    if k == 2 and bad_ok and s.below(2):
        s.label("not HTTP")
        return [b"hello\r\n"], True, None
    if k == 3 and bad_ok and method != "HEAD":
        s.label("broken chunk")
        return [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n", b"zz\r\n"], True, None
    code = s.pick([200, 200, 200, 200, 201, 404, 500, 418, 299, 599, 204, 304, 202])
    hs = [s.pick(HEADERS) for _ in s.many(0, 5, 2)]
    body = data(s, True)
    content = body
    if s.below(4) == 0:
        body = gzip.compress(body, mtime=0)
        hs.append("Content-Encoding: gzip")
        s.label("gzip")
    bare = code in (204, 304) or method == "HEAD"
    if bare:
        content = b""
    close = s.below(4) == 0
    if close:
        hs.append("Connection: close")
    k = s.below(4)
    if code in (204, 304):
        wire = b""
        if code == 204 and any(h.startswith("Content-Encoding") for h in hs):
            hs = [h for h in hs if not h.startswith("Content-Encoding")]
    elif k <= 1:
        hs.append("Content-Length: %d" % len(body))
        wire = body
    elif k == 2:
        hs.append("Transfer-Encoding: chunked")
        wire = b""
        for p in cut(s, body):
            if p:
                wire += b"%x\r\n%s\r\n" % (len(p), p)
        wire += b"0\r\n\r\n"
    else:
        wire = body
        if not close:
            hs.append("Connection: close")
            close = True
    if bare:
        wire = b""
    s.label("status %d" % code)
    start = "HTTP/1.1 %d %s" % (code, REASON[code])
    head = "\r\n".join([start] + hs).encode() + b"\r\n\r\n"
    return cut(s, head + wire), close, (code, [start] + hs, content)


def redirect(s, method, to):
    code = s.pick([301, 302, 303, 307, 308])
    hs = ["Location: " + to, s.pick(["Content-Length: 0", "Content-Length: 5"])]
    start = "HTTP/1.1 %d Moved" % code
    b = "\r\n".join([start] + hs).encode() + b"\r\n\r\n" + (b"moved" if hs[1].endswith("5") and method != "HEAD" else b"")
    return code, [b], [start] + hs


def gen_http(s):
    """-> (program template, script, expected requests, expected output)"""
    lines, script, reqs, want = ["import HTTP;"], [], [], []
    clients = []
    for i in range(s.weighted([(3, 0), (4, 1), (2, 2)])):
        hs = [s.pick(SENT) for _ in s.many(0, 3, 1)]
        hs = [h for j, h in enumerate(hs) if h.split(":")[0] not in [x.split(":")[0] for x in hs[:j]]]
        follow = s.below(3) > 0
        opts = ['"timeout": %d' % s.int(5, 30)] if s.below(2) else []
        if hs or s.below(2):
            opts.append('"headers": ' + V.lit(hs))
        if not follow or s.below(2):
            opts.append('"follow_redirects": %s' % ("true" if follow else "false"))
        if s.below(4) == 0:
            opts += ['"insecure": false', '"keyFile": ""', '"certFile": ""', '"keyPasswd": ""']
        lines.append("const c%d = HTTP.newClient({%s});" % (i, ", ".join(opts)))
        clients.append([hs, follow])
    n = 0
    for _ in s.many(1, 7, 3):
        who = s.below(len(clients) + 1) - 1
        c = clients[who] if who >= 0 else None
        if c is not None and s.below(4) == 0:
            if s.below(2):
                c[0] = [s.pick(SENT)] if s.below(4) else []
                lines.append("c%d.setHeaders(%s);" % (who, V.lit(c[0])))
            elif s.below(2):
                c[1] = not c[1]
                lines.append("c%d.setFollowRedirects(%s);" % (who, "true" if c[1] else "false"))
            else:
                lines.append("c%d.setTimeout(%d);" % (who, s.int(5, 30)))
        m = s.pick(["get", "get", "post", "post", "put", "head", "options"])
        method = m.upper()
        path = s.pick(["/", "/a", "/a/b?x=1&y=%20", "/long/" + "p" * 300, "/?q=a+b", "/x.json"])
        s.label(("client " if c else "") + m)
        args, body, form = ["BASE + " + V.lit(path)], b"", None
        if m in ("post", "put"):
            k = s.below(4)
            if k == 0:
                pass
            elif k == 1:
                d = {}
                for _ in s.many(0, 30 if s.below(8) == 0 else 4, 2):
                    d[s.text("abcdef_-01", 1, 8)] = s.pick([1, 2.5, True, "x", "a b", "", "v" * 90, "w" * 400, None, "y1"])
                args.append("{" + ", ".join(V.lit(a) + ": " + V.lit(b) for a, b in d.items()) + "}")
                form = sorted(("%s=%s" % (a, V.show(b))).encode() for a, b in d.items())
            else:
                body = data(s, True)
                args.append(expr(body))
        hs = []
        if c is None and s.below(2):
            if m in ("post", "put") and len(args) == 1:
                args.append('""')
                body = b""
            hs = [s.pick(SENT) for _ in s.many(0, 3, 1)]
            hs = [h for j, h in enumerate(hs) if h.split(":")[0] not in [x.split(":")[0] for x in hs[:j]]]
            args.append(V.lit(hs))
            if s.below(2):
                args.append(str(s.int(5, 30)))
        elif c is not None:
            hs = c[0]
        follow = c is None or c[1]
        # the responses
        heads = []
        target = "*" if m == "options" else path
        meth = method
        if m in ("get", "head", "post") and s.below(4) == 0:
            for hop in range(s.int(1, 3)):
                to = "/hop%d" % hop
                code, pieces, lst = redirect(s, meth, to)
                script.append((pieces, False))
                reqs.append((meth, target, hs, body, form))
                heads += lst
                if not follow:
                    break
                if meth == "POST" and code in (301, 302, 303):
                    meth, body, form = "GET", b"", None
                target = to
            s.label("redirects %d" % (hop + 1))
        if heads and not follow:
            res = code, heads, b"" if meth == "HEAD" or lst[2].endswith("0") else b"moved"
        else:
            pieces, close, res = response(s, "HEAD" if m in ("options",) else meth, bad_ok=True)
            script.append((pieces, close))
            reqs.append((meth, target, hs, body, form))
            if res is None and not pieces:
                # a reused connection that dies without a byte is tried once more
                res = "again"
            elif res is not None:
                res = res[0], heads + res[1], res[2]
        f = "HTTP" if c is None else "c%d" % who
        call = "%s.%s(%s)" % (f, m, ", ".join(args))
        if res == "again":
            if c is not None or heads:
                script[-1] = ([b"hello\r\n"], True)
            res = None
        if res is None:
            lines.append("def s%d() { const r = %s; print(r.success()); print(r.unwrapError().len() > 0); } s%d();" % (n, call, n))
            want += ["false", "true"]
        else:
            lines.append("def s%d() { const r = %s; if (not r.success()) { print(r.unwrapError()); return; } const x = r.unwrap(); print(x.statusCode); print(x.content.len()); print(x.content == %s); "
                         "print(x.headers.len()); print(x.headers == %s); if (x.headers != %s) { print(x.headers); } } s%d();" % (
                             n, call, expr(res[2]), "[" + ", ".join(blit(h.encode()) for h in res[1]) + "]", "[" + ", ".join(blit(h.encode()) for h in res[1]) + "]", n))
            want += [str(res[0]), str(len(res[2])), "true", str(len(res[1])), "true"]
        n += 1
    return lines, script, reqs, want


def expected_headers(method, port, hs, body, form, got_body):
    d = {b"host": b"127.0.0.1:%d" % port, b"accept": b"*/*", b"accept-encoding": b"gzip"}
    if method in ("POST", "PUT"):
        d[b"content-length"] = b"%d" % len(got_body)
        d[b"content-type"] = b"application/x-www-form-urlencoded"
        if len(got_body) > 1024 * 1024:
            d[b"expect"] = b"100-continue"
    for h in hs:
        a, b = h.encode().split(b":", 1)
        d[a.lower()] = b.strip()
    return d


def check_http(case, ctx):
    lines, script, reqs, want = case
    srv = Server(script)
    srv.start()
    try:
        src = "const BASE = 'http://127.0.0.1:%d';\n" % srv.port + "\n".join(lines) + "\n"
        r = ctx.run(src, env=ENV, cpu=10, wall=60000)
    finally:
        srv.end()
    if srv.requests:
        ctx.nontrivial(lines)
    ctx.alive(r)
    got = r.out.decode("latin1").split("\n")[:-1]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.fail("response", "output line %d is %r, the model says %r (stderr %r; requests %r)" % (
            i + 1, (got[i:i + 2] or ["<end>"])[0][:300], (want[i:i + 1] or ["<end>"])[0], r.err[-300:], [x[0] for x in srv.requests]))
    ctx.status(r)
    if srv.problem:
        ctx.fail("request", srv.problem)
    if len(srv.requests) != len(reqs):
        ctx.fail("request", "%d requests arrived, the program makes %d: %r" % (len(srv.requests), len(reqs), [x[0] for x in srv.requests]))
    for (line, hs, body), (method, target, sent, wbody, form) in zip(srv.requests, reqs):
        w = ("%s %s HTTP/1.1" % (method, target)).encode()
        if line != w:
            ctx.fail("request", "the request line is %r, described was %r" % (line, w))
        if form is not None:
            if sorted(x for x in body.split(b"&") if x) != form:
                ctx.fail("request", "the form data is %r, described was %r" % (body[:300], form))
        elif body != wbody:
            ctx.fail("request", "the body of %r is %r (%d bytes), described was %r (%d bytes)" % (line, body[:200], len(body), wbody[:200], len(wbody)))
        e = expected_headers(method, srv.port, sent, wbody, form, body)
        if sorted(hs) != sorted(e.items()):
            ctx.fail("request", "the headers of %r are %r, described were %r" % (line, sorted(hs), sorted(e.items())))


def gen_json(s):
    v = V.gen_value(s, 2) if s.below(3) else [V.gen_scalar(s)]

    def plain(v):
        if isinstance(v, (V.DictV, V.SetV)):
            return {str(a): plain(b) for a, b in v.items()} if isinstance(v, V.DictV) else [plain(x) for x in v.items()]
        return [plain(x) for x in v] if isinstance(v, list) else v
    return plain(v), s.below(5) == 0


def check_json(case, ctx):
    v, bad = case
    ctx.nontrivial(case)
    body = json.dumps(v).encode() + (b"}" if bad else b"")
    srv = Server([([b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body], False)])
    srv.start()
    try:
        ctx.expect("import HTTP; import JSON;\nconst x = HTTP.get('http://127.0.0.1:%d/').unwrap();\nprint(x.json().success()); if (x.json().success()) { print(x.json().unwrap() == JSON.parse(%s).unwrap()); }\n" % (
            srv.port, blit(body)), ["false"] if bad else ["true", "true"], env=ENV, cpu=10)
    finally:
        srv.end()


def gen_fail(s):
    k = s.below(5)
    client = s.below(2)
    m = s.pick(["get", "post", "put", "head", "options"])
    if k == 0:
        return "timeout", client, m, s.below(2)
    return s.pick(["refused", "refused", "nohost", "scheme", "after"]), client, m, 0


def check_fail(case, ctx):
    kind, client, m, _ = case
    ctx.nontrivial(case)
    script = [([3.0, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"], True)] if kind == "timeout" else [([b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"], True)] * 2
    srv = Server(script)
    hold = socket.socket()
    hold.bind(("127.0.0.1", 0))          # bound, not listening: connections are refused
    srv.start()
    try:
        url = {"timeout": "http://127.0.0.1:%d/" % srv.port, "refused": "http://127.0.0.1:%d/" % hold.getsockname()[1], "nohost": "http://nosuchhost.invalid/", "scheme": "nosuch://127.0.0.1/",
               "after": "http://127.0.0.1:%d/" % hold.getsockname()[1]}[kind]
        good = "http://127.0.0.1:%d/ok" % srv.port
        src = "import HTTP;\n"
        if client:
            src += "const c = HTTP.newClient({%s});\n%s" % ('"timeout": 1' if kind == "timeout" and not _ else "", "c.setTimeout(1);\n" if kind == "timeout" and _ else "")
            call = "c.%s('%s')" % (m, url)
            ok = "c.%s('%s')" % (m, good)
        else:
            extra = {"post": ", '', [], 1", "put": ", '', [], 1"}.get(m, ", [], 1") if kind == "timeout" else ""
            call = "HTTP.%s('%s'%s)" % (m, url, extra)
            ok = "HTTP.%s('%s')" % (m, good)
        src += "{ const r = %s; print(r.success()); print(r.unwrapError().len() > 0); }\n" % call
        want = ["false", "true"]
        if kind != "timeout":
            src += "{ const r = %s; print(r.success()); print(r.unwrap().statusCode); }\n" % ok
            want += ["true", "200"]
        t0 = time.monotonic()
        ctx.expect(src, want, env=ENV, cpu=10)
        if kind == "timeout" and time.monotonic() - t0 < 0.9:
            ctx.fail("timeout", "given up after %.2f s with a time-out of 1 s" % (time.monotonic() - t0))
    finally:
        srv.end()
        hold.close()


BAD = ["get()", "get(1)", "get('http://127.0.0.1:1/', 1)", "get('http://127.0.0.1:1/', [1])", "get('http://127.0.0.1:1/', [], '1')", "get('http://127.0.0.1:1/', [], 1, 1)", "post()", "post(1)",
       "post('http://127.0.0.1:1/', 1)", "post('http://127.0.0.1:1/', '', 1)", "post('http://127.0.0.1:1/', '', [nil])", "post('http://127.0.0.1:1/', '', [], '')", "put()", "put(nil)",
       "put('http://127.0.0.1:1/', [])", "put('http://127.0.0.1:1/', {}, ['x', 1])", "head()", "head([])", "head('http://127.0.0.1:1/', {})", "options()", "options(1)",
       "options('http://127.0.0.1:1/', ['a', {}])", "newClient()", "newClient(1)", "newClient([])", "newClient({}, 1)", "newClient({1: 2})", "newClient({'timeout': 'x'})", "newClient({'headers': 1})",
       "newClient({'headers': [1]})", "newClient({'insecure': 1})", "newClient({'follow_redirects': nil})", "newClient({'keyFile': 1})", "newClient({'certFile': []})", "newClient({'keyPasswd': 1})"]
CBAD = ["get()", "get(1)", "get('x', 1)", "post()", "post(1)", "post('x', 1)", "post('x', '', 1)", "put()", "put(1)", "put('x', nil)", "head()", "head(1)", "head('x', 1)", "options()", "options(1)",
        "options('x', 1)", "options('x', [1])", "options('x', [], 'y')", "options('x', [], 1, 2)", "setTimeout()", "setTimeout('1')", "setHeaders()", "setHeaders(1)", "setHeaders([1])",
        "setHeaders(['a: b', nil])", "setInsecure(1)", "setFollowRedirects(1)", "setKeyFile(1)", "setCertFile(1)", "setKeyPass(1)", "setKeyPass()"]
SBAD = ["Socket.create()", "Socket.create(1)", "Socket.create('a', 1)", "Socket.create(1, 2, 3)", "k.bind()", "k.bind(1, 2)", "k.bind('127.0.0.1', 'x')", "k.listen('x')", "k.listen(1, 2)", "k.accept(1)",
        "k.write()", "k.write(1)", "k.write('a', 'b')", "k.recv()", "k.recv('1')", "k.recv(-1)", "k.recv(-5)", "k.connect()", "k.connect(1, 2)", "k.connect('127.0.0.1', nil)", "k.close(1)",
        "k.setsockopt(1)", "k.setsockopt('a', 1)"]


def gen_errors(s):
    steps = [("import HTTP; import Socket;", [], False), ("var c = HTTP.newClient({}); var k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap();", [], False)]
    for _ in s.many(3, 12, 6):
        steps.append(("print(%s);" % s.pick([lambda: "HTTP." + s.pick(BAD), lambda: "c." + s.pick(CBAD), lambda: s.pick(SBAD)])(), [], True))
        if s.below(4) == 0:
            steps.append(("c = HTTP.newClient({}); print(c);", ["<HttpClient>"], False))
    steps.append(("print(HTTP.get('http://127.0.0.1:1/').success()); print(c.get('http://127.0.0.1:1/').success()); print(k.connect('127.0.0.1', 1).success());", ["false"] * 3, False))
    return steps


def check_errors(steps, ctx):
    ctx.nontrivial([x[0] for x in steps])
    ctx.repl(steps, env=ENV)


def free_port():
    """A port number reserved for this process: bound, not listening."""
    k = socket.socket()
    k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    k.bind(("127.0.0.1", 0))
    return k, k.getsockname()[1]


ALL = "def all(k, n, most) { var t = ''; while (t.len() < n) { const d = k.recv(most).unwrap(); if (d.len() == 0) { print('ended'); return t; } if (d.len() > most) { print('more than asked for'); } t += d; } return t; }\n"


def gen_pair(s):
    """Both ends in one program: a conversation of messages that fit the buffers."""
    lines, want = [], []
    closed = set()
    pending = {"a": b"", "b": b""}         # what each end has still to read
    other = {"a": "b", "b": "a"}
    for _ in s.many(1, 14, 6):
        e = s.pick("ab")
        o = other[e]
        k = s.below(12)
        if k == 0 and not closed and not pending["a"] and not pending["b"]:
            lines.append("print(%s.close()); print(%s.recv(5).unwrap() == ''); print(%s.write('x').success()); print(%s.recv(1).success()); print(%s.close());" % (e, o, e, e, e))
            want += ["nil", "true", "false", "false", "nil"]
            # the peer is told by an error, at the latest some writes later
            lines.append("var n%d = 0; while (%s.write('late').success() and n%d < 2000) { n%d += 1; } print(n%d < 2000);" % ((len(lines), o) + (len(lines),) * 3))
            want.append("true")
            closed.add(e)
            s.label("closed")
        elif closed:
            continue
        elif k <= 6:
            m = data(s)[:20000]
            if len(pending[o]) + len(m) > 60000:
                continue
            lines.append("print(%s.write(%s).unwrap());" % (e, expr(m)))
            want.append(str(len(m)))
            pending[o] += m
        elif pending[e]:
            n = s.int(1, len(pending[e])) if s.below(3) == 0 else len(pending[e])
            most = s.pick([n, 1, 2, 7, 100, 4096]) if n < 300 else s.pick([n, 1000, 4096])
            if s.below(3) == 0:
                # more than there is: what is there, without waiting for the rest
                lines.append("{ const t = %s.recv(%d).unwrap(); print(t.len() > 0); const u = %s; print(u.startsWith(t)); print(t + exact(%s, u.len() - t.len(), 70000) == u); }" % (
                    e, s.pick([len(pending[e]) + 1, 70000, 100000]), expr(pending[e]), e))
                want += ["true"] * 3
                pending[e] = b""
                continue
            # never ask for more than the n bytes to be read here
            lines.append("{ const t = exact(%s, %d, %d); print(t.len()); print(t == %s); }" % (e, n, most, expr(pending[e][:n])))
            want += [str(n), "true"]
            pending[e] = pending[e][n:]
            s.label("received")
    return lines, want


EXACT = "def exact(k, n, most) { var t = ''; while (t.len() < n) { const w = n - t.len() < most ? n - t.len() : most; const d = k.recv(w).unwrap(); if (d.len() == 0) { print('ended'); return t; } if (d.len() > w) { print('more than asked for'); } t += d; } return t; }\n"


def check_pair(case, ctx):
    lines, want = case
    if "true" in want:
        ctx.nontrivial(lines)
    hold, port = free_port()
    try:
        src = "import Socket;\n" + EXACT + """const l = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap();
print(l.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR).success());
print(l.bind('127.0.0.1', %d).unwrap()); print(l.listen(%s).unwrap());
const a = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap();
print(a.connect('127.0.0.1', %d).unwrap());
const [b, ip] = l.accept().unwrap();
print(ip);
""" % (port, "" if port % 2 else "5", port)
        for i in range(0, len(lines), 10):
            src += "def p%d() {\n%s}\np%d();\n" % (i, "".join(x + "\n" for x in lines[i:i + 10]), i)
        ctx.expect(src, ["true", "nil", "nil", "nil", "127.0.0.1"] + want, wall=8000)
    finally:
        hold.close()


def gen_peer(s):
    return s.pick(["server", "client"]), data(s, True) + (data(s, True) if s.below(2) else b""), [data(s, True) for _ in s.many(0, 4, 2)], s.pick([1, 100, 1000, 65536, 200000]), s.below(4) == 0


def check_peer(case, ctx):
    """The peer sends `out`, then reads everything until the end."""
    role, out, ins, most, dead = case
    if len(out) > 5000:
        most = max(most, 1000)
    ctx.nontrivial(case)
    got, problem = [], []
    hold, port = free_port()
    ln = None

    def talk(k):
        k.settimeout(10)
        try:
            k.sendall(out)
            while True:
                d = k.recv(65536)
                if not d:
                    break
                got.append(d)
        except OSError as e:
            problem.append(repr(e))
        finally:
            k.close()

    if role == "client":          # the program connects to us
        hold.close()
        ln = socket.socket()
        ln.bind(("127.0.0.1", 0))
        ln.listen(1)
        ln.settimeout(10)
        port = ln.getsockname()[1]

        def go():
            try:
                talk(ln.accept()[0])
            except OSError as e:
                problem.append(repr(e))
        start = "const k = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); k.connect('127.0.0.1', %d).unwrap();\n" % port
    else:                          # we connect to the program
        def go():
            end = time.monotonic() + 10
            while time.monotonic() < end:
                k = socket.socket()
                try:
                    k.connect(("127.0.0.1", port))
                except OSError:
                    k.close()
                    time.sleep(0.005)
                    continue
                if k.getsockname() == k.getpeername():      # connected to itself
                    k.close()
                    continue
                return talk(k)
            problem.append("the program never listened")
        start = """const l = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); l.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR).unwrap();
l.bind('127.0.0.1', %d).unwrap(); l.listen().unwrap(); const [k, ip] = l.accept().unwrap(); if (ip != '127.0.0.1') { print(ip); }
""" % port
    t = threading.Thread(target=go, daemon=True)
    t.start()
    try:
        src = "import Socket;\n" + EXACT + start + "{ const t = exact(k, %d, %d); print(t.len()); print(t == %s); }\n" % (len(out), most, expr(out[:len(out)])) + "".join(
            "def w%d() { print(k.write(%s).unwrap()); } w%d();\n" % (i, expr(m), i) for i, m in enumerate(ins)) + "k.close();\n"
        ctx.expect(src, [str(len(out)), "true"] + [str(len(m)) for m in ins], cpu=10, wall=20000)
        t.join(15)
        if problem or b"".join(got) != b"".join(ins):
            g, w = b"".join(got), b"".join(ins)
            ctx.fail("bytes", "the peer received %d bytes, %d were written (%s); first difference at %d" % (
                len(g), len(w), problem, next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))))
    finally:
        hold.close()
        t.join(15)
        if ln:
            ln.close()


def gen_dgram(s):
    return [(data(s)[:9000], s.pick([0, 1, 10, 10000, 10000, 10000])) for _ in s.many(1, 6, 3)]


def check_dgram(case, ctx):
    """Datagrams arrive one by one, cut to what was asked for."""
    ctx.nontrivial(case)
    hold = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    hold.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    hold.bind(("127.0.0.1", 0))
    port = hold.getsockname()[1]
    hold.close()
    ms = [(m, n) for m, n in case if m]
    src = """import Socket;
const a = Socket.create(Socket.AF_INET, Socket.SOCK_DGRAM).unwrap(); const b = Socket.create(Socket.AF_INET, Socket.SOCK_DGRAM).unwrap();
if (not a.bind('127.0.0.1', %d).success()) { print('taken'); }
b.connect('127.0.0.1', %d).unwrap();
""" % (port, port)
    src += "".join("def w%d() { print(b.write(%s).unwrap()); } w%d();\n" % (i, expr(m), i) for i, (m, _) in enumerate(ms))
    src += "".join("def r%d() { print(a.recv(%d).unwrap() == %s); } r%d();\n" % (i, n, expr(m[:n]), i) for i, (m, n) in enumerate(ms))
    want = [str(len(m)) for m, _ in ms] + ["true"] * len(ms)
    r = ctx.run(src, wall=8000)
    ctx.alive(r)
    if b"taken" in r.out:
        return
    got = r.out.decode("latin1").split("\n")[:-1]
    if got != want:
        ctx.fail("datagrams", "printed %r, the model says %r (stderr %r)" % (got, want, r.err[-300:]))


# -- the names of methods, statuses and headers -------------------------------
ODD_CODES = {"NONAUTHORITATIVE_INFO": 203, "PROXY_AUTH_REQUIRED": 407, "TEAPOT": 418}
ODD_PHRASES = {"PROCESS": 102, "UPGRADE_REQIUIRED": 426, "UNAVAILABLE": 503, "VARIAN_ALSO_NEGOTIATES": 506}
ODD_HEADERS = {"AIM": "a-im", "ACCEPT_CONTROL_REQUEST_METHOD": "access-control-request-method", "ACCEPT_CONTROL_REQUEST_HEADERS": "access-control-request-headers",
               "REFERRER": "referer", "IM": "im"}


def meaning(name, value):
    """Whether a constant has the value its name denotes; None when the name says nothing."""
    by = {x.value: x for x in HTTPStatus}
    codes = dict({x.name: x.value for x in HTTPStatus}, **ODD_CODES)
    if name.startswith("STATUS_CODE_"):
        c = codes.get(name[12:])
        return None if c is None else value == str(c)
    if name.startswith("STATUS_MESSAGE_"):
        c = dict(codes, **ODD_PHRASES).get(name[15:])
        plain = lambda t: re.sub("[^a-z]", "", t.lower())
        return None if c is None else plain(value) == plain(by[c].phrase)
    if name.startswith("METHOD_"):
        return value == name[7:]
    m = re.match(r"(REQUEST|RESPONSE)_HEADER_(\w+)$", name)
    if m:
        return value.lower() == ODD_HEADERS.get(m.group(2), m.group(2).replace("_", "-").lower())


@functools.lru_cache(None)
def constants():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "httpnames.txt")) as f:
        return f.read().split()


def gen_names(s):
    return [s.pick(constants()) for _ in s.many(1, 60, 20)]


def check_names(names, ctx):
    ctx.nontrivial(repr(names))
    src = ["import HTTP;"]
    for i in range(0, len(names), 20):
        src.append("def f%d() {" % i + "".join("print(HTTP.%s);" % n for n in names[i:i + 20]) + "}\nf%d();" % i)
    src = "\n".join(src) + "\n"
    r = ctx.run(src)
    ctx.alive(r)
    ctx.status(r)
    for n, v in zip(names, r.out.decode("latin1").split("\n")):
        if meaning(n, v) is False:
            ctx.fail("names", "HTTP.%s is %r" % (n, v))


def parts():
    return [Part("http", gen_http, check_http, 1500), Part("json", gen_json, check_json, 100), Part("fail", gen_fail, check_fail, 64, 600), Part("errors", gen_errors, check_errors, 300),
            Part("pair", gen_pair, check_pair, 600), Part("peer", gen_peer, check_peer, 400), Part("dgram", gen_dgram, check_dgram, 200), Part("names", gen_names, check_names, 200)]
