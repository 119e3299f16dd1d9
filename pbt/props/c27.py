"""C27: REST client against a recording loopback server."""

import base64
import json
import os
import select
import socket
import threading
import time
from urllib.parse import parse_qsl, unquote, urlsplit

import diamondback as db
import requests
from hypothesis import strategies as st

from pbt.core import accepted, brief, ensure, facet, fail, raises

ASSUMPTIONS = [
    "Servers answer without redirection; paths contain no percent signs, query or fragment marks, or dot segments.",
    "Header values are printable ASCII without surrounding space.",
]
METHODS = ("delete", "get", "head", "options", "patch", "post", "put")
os.environ["no_proxy"] = os.environ["NO_PROXY"] = "127.0.0.1,localhost"


class Server:
    """A minimal HTTP server which records every request, and answers with a programmed response."""

    def __init__(self):
        self.socket = socket.socket()
        self.socket.bind(("127.0.0.1", 0))
        self.socket.listen(64)
        self.port = self.socket.getsockname()[1]
        self.lock = threading.Lock()
        self.seen, self.connections = [], 0
        self.mode, self.status, self.body, self.delay = "answer", 200, b"", 0.0
        threading.Thread(target=self.serve, daemon=True).start()

    def program(self, mode="answer", status=200, body=b"", delay=0.0):
        with self.lock:
            self.mode, self.status, self.body, self.delay = mode, status, body, delay
            self.seen, self.connections = [], 0

    def serve(self):
        while True:
            try:
                c, _ = self.socket.accept()
            except OSError:
                return
            with self.lock:
                self.connections += 1
            threading.Thread(target=self.guard, args=(c,), daemon=True).start()

    def guard(self, c):
        try:
            self.handle(c)
        except OSError:
            pass  # the client closed

    def handle(self, c):
        with c:
            c.settimeout(20.0)
            with self.lock:
                mode = self.mode
            if mode == "drop":
                return
            buf = b""
            while b"\r\n\r\n" not in buf:
                part = c.recv(65536)
                if not part:
                    return
                buf += part
            head, body = buf.split(b"\r\n\r\n", 1)
            lines = head.decode("latin-1").split("\r\n")
            headers = [tuple(v.split(": ", 1)) if ": " in v else (v.rstrip(":"), "") for v in lines[1:]]
            low = {k.lower(): v for k, v in headers}
            if low.get("transfer-encoding", "") == "chunked":
                data = b""
                while True:
                    while b"\r\n" not in body:
                        body += c.recv(65536)
                    size, body = body.split(b"\r\n", 1)
                    n = int(size, 16)
                    while len(body) < n + 2:
                        body += c.recv(65536)
                    data, body = data + body[:n], body[n + 2 :]
                    if not n:
                        break
                body = data
            else:
                n = int(low.get("content-length", "0"))
                while len(body) < n:
                    part = c.recv(65536)
                    if not part:
                        return
                    body += part
            method, target, _ = lines[0].split(" ", 2)
            with self.lock:
                self.seen.append(dict(method=method, target=target, headers=headers, body=body))
                status, answer, delay = self.status, self.body, self.delay
            if delay:
                time.sleep(delay)
            if mode == "garbage":
                c.sendall(b"garbage")
                return
            bodyless = status == 204 or status == 304 or method == "HEAD"
            out = f"HTTP/1.1 {status} Status\r\nConnection: close\r\nX-Mark: yes\r\n"
            if status % 2 == 0:
                out += f"Set-Cookie: mark{status}=v{status}; Path=/\r\n"
            if status not in (204, 304):
                out += f"Content-Length: {len(answer)}\r\n"
            c.sendall(out.encode() + b"\r\n" + (b"" if bodyless else answer))
            c.shutdown(socket.SHUT_WR)
            select.select([c], [], [], 2.0)  # until the client closes


SERVER = {}


def server(key=0):
    """One server of this process."""
    k = (os.getpid(), key)
    if k not in SERVER:
        SERVER[k] = Server()
    return SERVER[k]


SEGMENT = st.one_of(st.sampled_from(["a", "v1", "Item", "x-y_z~", "a.b", "caf\u00e9", "with space", "a+b", "a,b;c", "(x)", "@me", "a:b", "$1", "!", "a%20b", "%41", "x%2Fy", "100%25", "%E4%B8%AD"]), st.text("abcXYZ019-_ \u00e9\u4e2d", min_size=1, max_size=5))
TEXT = st.one_of(st.sampled_from(["", "1", "a b", "a&b", "a=b", "caf\u00e9", "%41", "x+y", "/", "?", "#", "\u4e2d\u6587", "a\nb", '"']), st.text(max_size=6).filter(lambda s: s.isprintable()))
KEY = st.text("abcdefXYZ_[]0 \u00e9&=", min_size=1, max_size=5)
VALUE = st.one_of(st.sampled_from(["", "1", "a b", "x;y=1", "text/plain", "a,b"]), st.text("abcXYZ019-_=;,/ ", max_size=8)).map(str.strip)
LATIN = st.text("abcXYZ019 !$%&@_-\u00e9\u00fc", max_size=6)
JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-(2**40), 2**40), st.floats(-1e9, 1e9), TEXT), lambda v: st.one_of(st.lists(v, max_size=3), st.dictionaries(TEXT, v, max_size=3)), max_leaves=6)


@st.composite
def call(draw):
    d = dict(
        method=draw(st.sampled_from(METHODS)),
        case=draw(st.sampled_from(["lower", "upper", "title", "swap"])),
        api=[draw(st.integers(0, 2)), draw(st.lists(SEGMENT, max_size=3)), draw(st.integers(0, 2))],
        status=draw(st.sampled_from([200, 200, 200, 201, 202, 204, 300, 304, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 599])),
        answer=draw(st.one_of(st.just(""), TEXT, st.integers(0, 3000).map(lambda n: "z" * n))),
    )
    if draw(st.booleans()):
        d["item"] = draw(st.dictionaries(KEY, TEXT, max_size=3))
    if draw(st.booleans()):
        d["header"] = draw(st.dictionaries(st.sampled_from(["X-One", "x-two", "Accept", "Content-Type", "User-Agent", "X-Empty", "If-Match", "Cookie"]), VALUE, max_size=3))
    k = draw(st.integers(0, 5))
    if k == 1:
        d["auth"] = [draw(LATIN.filter(lambda s: ":" not in s)), draw(LATIN)]
    k = draw(st.integers(0, 7))
    if k == 1:
        d["json"] = draw(JSON)
    elif k == 2:
        d["text"] = draw(TEXT)
    elif k == 3:
        d["bytes"] = draw(st.lists(st.integers(0, 255), max_size=20))
    elif k == 4:
        d["form"] = draw(st.dictionaries(KEY, TEXT, max_size=3))
    elif k == 5:
        d["bytes"] = [draw(st.integers(0, 255))] * draw(st.sampled_from([1000, 70000]))
    elif k == 6:
        d["json"] = draw(st.sampled_from([{}, [], 0, False, "", {"a": []}]))
    return d


@st.composite
def base(draw):
    return [draw(st.lists(SEGMENT, max_size=2)), draw(st.integers(0, 3))]


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append(["call", draw(call())])
        if draw(st.integers(0, 3)) == 0:
            ops.append(["url", draw(base())])
    return dict(url=draw(base()), ops=ops)


def keywords(d):
    kw = {}
    for k in ("item", "header", "json"):
        if k in d:
            kw[k] = d[k]
    if "auth" in d:
        kw["auth"] = tuple(d["auth"])
    if "text" in d:
        kw["data"] = d["text"]
    if "bytes" in d:
        kw["data"] = bytes(d["bytes"])
    if "form" in d:
        kw["data"] = d["form"]
    return kw


def spelled(d):
    m = d["method"]
    return dict(lower=m, upper=m.upper(), title=m.title(), swap=m[0] + m[1:].upper())[d["case"]]


def assign(client, s, spec, scheme="http"):
    path, slashes = spec
    root = f"{scheme}://127.0.0.1:{s.port}" + "".join("/" + v for v in path)
    client.url = root + "/" * slashes
    ensure(client.url == root, lambda: f"url reads {client.url} expected {root}")
    return "".join("/" + v for v in path)


def parts(path):
    """Segments of a path; characters are compared after percent decoding."""
    return [unquote(v) for v in path.split("/")]


def verify(r, d, prefix):
    """The recorded request is exactly the described one."""
    ensure(r["method"] == d["method"].upper(), f"method {r['method']} expected {d['method'].upper()}")
    u = urlsplit(r["target"] if r["target"].startswith("http") else "http://h" + r["target"])
    want = prefix + ("/" + "/".join(d["api"][1]) if d["api"][1] else "")
    ensure(parts(u.path) == parts(want or "/"), lambda: f"path {u.path!r} expected {want or '/'!r}")
    items = parse_qsl(u.query, keep_blank_values=True)
    ensure(sorted(items) == sorted(d.get("item", {}).items()), lambda: f"query items {items} expected {d.get('item', {})}")
    low = [k.lower() for k, _ in r["headers"]]
    ensure(len(set(low)) == len(low), lambda: f"repeated headers {r['headers']}")
    got = {k.lower(): v for k, v in r["headers"]}
    for k, v in d.get("header", {}).items():
        ensure(got.get(k.lower()) == v, lambda: f"header {k} is {got.get(k.lower())!r} expected {v!r}")
    automatic = {"host", "user-agent", "accept-encoding", "accept", "connection", "content-length", "content-type", "authorization", "proxy-connection"}
    other = set(got) - automatic - {k.lower() for k in d.get("header", {})}
    ensure(not other, lambda: f"unexpected headers {other}")
    if "auth" in d:
        want = "Basic " + base64.b64encode(":".join(d["auth"]).encode("latin-1")).decode()
        ensure(got.get("authorization") == want, lambda: f"authorization {got.get('authorization')!r} expected {want!r}")
    else:
        ensure("authorization" not in got, "authorization was sent without being specified")
    body = r["body"]
    if "json" in d:
        if d["json"] is None:
            ensure(body == b"", lambda: f"body {body!r} without json")
        else:
            try:
                v = json.loads(body)
            except ValueError:
                fail(f"body {body[:99]!r} is not JSON of {brief(d['json'])}")
            ensure(json.dumps(v) == json.dumps(d["json"]), lambda: f"json body {brief(v)} expected {brief(d['json'])}")
            if "content-type" not in {k.lower() for k in d.get("header", {})}:
                ensure(got.get("content-type") == "application/json", lambda: f"content type of json {got.get('content-type')}")
    elif "form" in d:
        v = parse_qsl(body.decode("ascii"), keep_blank_values=True)
        ensure(sorted(v) == sorted(d["form"].items()), lambda: f"form body {v} expected {d['form']}")
    else:
        want = d["text"].encode("utf-8") if "text" in d else bytes(d.get("bytes", b""))
        ensure(body == want, lambda: f"body {body[:80]!r} of {len(body)} bytes expected {want[:80]!r} of {len(want)} bytes")


def run(client, s, d, prefix):
    s.program(status=d["status"], body=d["answer"].encode("utf-8"))
    api = "/" * d["api"][0] + "/".join(d["api"][1]) + "/" * d["api"][2]
    kw = keywords(d)
    before = json.dumps({k: (v if not isinstance(v, bytes) else list(v)) for k, v in kw.items()})
    want = b"" if d["status"] in (204, 304) or d["method"] == "head" else d["answer"].encode("utf-8")
    if d["status"] >= 400:
        try:
            r = client.request(spelled(d), api, **kw)
            fail(f"status {d['status']} did not raise an HTTP error (returned {r!r})")
        except requests.HTTPError as ex:
            ensure(ex.response is not None and ex.response.status_code == d["status"], "HTTP error without its response")
    else:
        r = accepted(lambda: client.request(spelled(d), api, **kw), f"request with status {d['status']}")
        ensure(r.status_code == d["status"], f"status {r.status_code} expected {d['status']}")
        ensure(r.content == want, lambda: f"content {r.content[:80]!r} expected {want[:80]!r}")
        ensure(r.headers.get("X-Mark") == "yes", "response headers are not returned")
    with s.lock:
        seen = list(s.seen)
    ensure(len(seen) == 1, lambda: f"the server received {len(seen)} requests")
    verify(seen[0], d, prefix)
    after = json.dumps({k: (v if not isinstance(v, bytes) else list(v)) for k, v in kw.items()})
    ensure(before == after, "arguments were modified")


@facet("C27", "request", cases, n=1200, shards=8, rule="history of requests of one client: method x url x api x items x headers x authentication x body x status; every case is non-trivial.")
def request(case):
    s, client = server(), db.RestClient()
    prefix = assign(client, s, case["url"])
    last = ""
    for op, v in case["ops"]:
        if op == "url":
            prefix = assign(client, s, v)
        else:
            run(client, s, v, prefix)
            last = next((k for k in ("json", "text", "bytes", "form", "auth", "item") if k in v), "plain")
    return last + (" history" if len(case["ops"]) > 1 else "")


@st.composite
def invalid(draw):
    return dict(
        kind=draw(st.sampled_from(["method", "both"])),
        method=draw(st.one_of(st.sampled_from(["", "connect", "trace", "get ", " get", "gett", "ge", "post,get", "HEADER"]), st.text("abcdegopstu", max_size=6))),
        call=draw(call()), url=draw(base()), both=[draw(st.sampled_from(["a", {"a": "b"}])), draw(st.sampled_from([{"a": 1}, [0], "s", 1]))],
    )  # fmt: skip


@facet("C27", "reject", invalid, n=300, shards=2, rule="unknown method, or both data and json: ValueError, and the server receives nothing; trivial when the drawn method is known.")
def reject(case):
    s, client = server(), db.RestClient()
    prefix = assign(client, s, case["url"])
    s.program()
    d = case["call"]
    kw = keywords(d)
    if case["kind"] == "method":
        if case["method"].lower() in METHODS:
            return ""
        raises(ValueError, lambda: client.request(case["method"], "a", **kw), f"method {case['method']!r}")
    else:
        kw["data"], kw["json"] = case["both"]
        raises(ValueError, lambda: client.request(spelled(d), "a", **kw), "data and json")
    with s.lock:
        n = (len(s.seen), s.connections)
    ensure(n == (0, 0), lambda: f"a rejected request reached the server: {n}")
    run(client, s, d, prefix)
    return case["kind"]


@st.composite
def lives(draw):
    return dict(
        mode=draw(st.sampled_from(["answer", "answer", "answer", "drop", "garbage", "closed", "scheme", "none"])),
        status=draw(st.sampled_from([200, 204, 300, 304, 400, 401, 403, 404, 405, 500, 501, 503])), url=draw(base()), times=draw(st.integers(1, 3)),
    )  # fmt: skip


def closed_port():
    with socket.socket() as v:
        v.bind(("127.0.0.1", 0))
        return v.getsockname()[1]


@facet("C27", "live", lives, n=300, shards=4, rule="server which answers any status, disconnects, answers garbage, or is not there; every case is non-trivial.")
def live(case):
    s, client = server(), db.RestClient()
    prefix = assign(client, s, case["url"])
    for _ in range(case["times"]):
        ok = case["mode"] == "answer"
        s.program(mode=case["mode"] if case["mode"] in ("drop", "garbage") else "answer", status=case["status"])
        if case["mode"] == "closed":
            client.url = f"http://127.0.0.1:{closed_port()}"
        elif case["mode"] == "scheme":
            client.url = f"gopher://127.0.0.1:{s.port}"
        elif case["mode"] == "none":
            client.url = "no url"
        v = client.live
        ensure(bool(v) == ok, f"live is {v} with a server in mode {case['mode']} and status {case['status']}")
        if case["mode"] == "answer":
            with s.lock:
                seen = list(s.seen)
            ensure(len(seen) >= 1 and parts(urlsplit(seen[0]["target"]).path) == parts(prefix or "/"), lambda: f"live requested {seen}")
        else:
            raises(requests.RequestException, lambda: client.request("get", "a"), f"request of a server in mode {case['mode']}")
    # The client is usable again.
    assign(client, s, case["url"])
    s.program(status=case["status"])
    ensure(client.live, "live is false after the server returned")
    return case["mode"]


BACKLOG = []


def backlog():
    """The port of a listening socket whose queue is full, so that further connections are not established."""
    if not BACKLOG:
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        s.listen(0)
        port, full = s.getsockname()[1], 0
        held = [s]
        for _ in range(6):
            c = socket.socket()
            c.settimeout(0.3)
            held.append(c)
            try:
                c.connect(("127.0.0.1", port))
                full = 0
            except OSError as ex:
                full += isinstance(ex, TimeoutError)
        BACKLOG.extend([port, full >= 2, held])
    return BACKLOG[:2]


@st.composite
def routes(draw):
    return dict(call=draw(call()), url=draw(base()), kind=draw(st.sampled_from(["proxy", "proxy", "proxy", "slow", "patient", "full"])), pair=draw(st.booleans()))


@facet("C27", "route", routes, n=120, shards=4, rule="requests through a proxy, and slow or full servers with short and long timeouts; trivial where a queue of connections cannot be filled.")
def route(case):
    s, client = server(), db.RestClient()
    d = case["call"]
    if case["kind"] == "proxy":
        via = server(1)
        prefix = assign(client, s, case["url"])
        client.proxy = {"http": f"http://127.0.0.1:{via.port}"}
        s.program()
        run(client, via, d, prefix)
        with s.lock, via.lock:
            ensure(s.connections == 0, "the server was contacted directly instead of through the proxy")
            target = urlsplit(via.seen[0]["target"])
        ensure(target.port == s.port, lambda: f"the proxy was asked for {target}")
        via.program()
        ensure(client.live is True and len(via.seen) >= 1 and s.connections == 0, "live does not use the proxy")
    elif case["kind"] == "slow":
        assign(client, s, case["url"])
        s.program(delay=8.0)
        client.timeout = (30.0, 0.1) if case["pair"] else 0.1
        t = time.monotonic()
        raises(requests.Timeout, lambda: client.request("get", "a"), "request of a slow server")
        ensure(not client.live, "live of a slow server")
        ensure(time.monotonic() - t < 60.0, "timeout was not applied")
    elif case["kind"] == "full":
        port, full = backlog()
        if not full:
            return ""
        client.url = f"http://127.0.0.1:{port}"
        client.timeout = (0.2, 12.0) if case["pair"] else 0.2
        t = time.monotonic()
        raises(requests.ConnectTimeout, lambda: client.request("get", "a"), "request of a server which accepts no connection")
        ensure(time.monotonic() - t < 8.0, "timeout of connection was not applied")
    else:
        prefix = assign(client, s, case["url"])
        client.timeout = (5.0, 30.0) if case["pair"] else 30.0
        s.program(delay=0.2, status=200, body=b"late")
        r = accepted(lambda: client.request("get", "a"), "request of a server which answers within the timeout")
        ensure(r.content == b"late", "content")
    return case["kind"]
