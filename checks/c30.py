"""C30: the HTTP client delivers each response to its own request.

Histories of batches of (pipelined) requests against scripted servers: an
in-process network plays servers that answer in every framing, redirect, send
informational responses, answer early, cut responses short or hang up.
"""
import gzip
import io

from hypothesis import strategies as st

from vlib import Prop, Violation, eq, ok, fail

from pyslet.http import client as http

from checks import fakenet


HOSTS = ["a.com", "b.com"]


# ---------------------------------------------------------------- scripts

FILL = [b"", b"\r\n\r\n", b"0\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n",
        b"x" * 100, b"y" * 9000]


@st.composite
def behaviours(draw, faulty, later):
    """How the server answers one request"""
    b = dict(kind="answer",
             status=draw(st.sampled_from([200, 200, 200, 201, 204, 304, 404,
                                          500])),
             framing=draw(st.sampled_from(
                 ["length", "length", "chunked", "gzip", "close"])),
             fill=draw(st.sampled_from(FILL)),
             info=draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
             close=draw(st.sampled_from([None, None, None, None, "close",
                                         "idle", "1.0"])),
             early=draw(st.integers(0, 5)) == 0,
             expect=draw(st.sampled_from(["100", "100", "wait", "final"])))
    if later and draw(st.integers(0, 4)) == 0:
        b["status"] = draw(st.sampled_from([301, 303, 307]))
        b["to"] = draw(st.sampled_from(later))
    if faulty:
        b["kind"] = draw(st.sampled_from(["drop", "reset", "cut",
                                          "cutreset", "bad"]))
        b["at"] = draw(st.one_of(st.integers(0, 200),
                                 st.integers(0, 10000)))
        if b["framing"] == "close":
            b["framing"] = "length"
        b["bad"] = draw(st.sampled_from(
            [b"nonsense\r\n\r\n", b"HTTP/1.1 200 OK\r\nbad header\r\n\r\n",
             b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n",
             b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nx\r\n",
             b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
             b"1\r\nxx0\r\n\r\n",
             b"HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n"
             b"3\r\nxxx\r\n0\r\n\r\n"]))
    return b


@st.composite
def scripts(draw):
    n = draw(st.integers(1, 6))
    reqs = []
    for i in range(n):
        r = dict(method=draw(st.sampled_from(
            ["GET", "GET", "GET", "HEAD", "PUT", "POST", "DELETE"])),
            host=draw(st.sampled_from([0, 0, 0, 1])))
        if r["method"] in ("PUT", "POST"):
            r["body"] = draw(st.sampled_from([None] + FILL))
            r["how"] = draw(st.sampled_from(["bytes", "stream", "chunked"]))
            r["expect"] = draw(st.integers(0, 3)) == 0
        r["stream"] = draw(st.integers(0, 3)) == 0
        nfaults = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2]))
        later = list(range(i + 1, n))
        r["script"] = [draw(behaviours(True, [])) for j in range(nfaults)] + \
            [draw(behaviours(False, later))]
        reqs.append(r)
    batches = []
    left = list(range(n))
    while left:
        k = draw(st.integers(1, len(left)))
        batches.append(left[:k])
        left = left[k:]
    return reqs, batches, draw(st.integers(0, 9)), draw(st.booleans())


def is_final(b):
    return b["kind"] == "answer"


def answer(r, i, k):
    """(bytes, hang up after, status, body) of attempt k at request i"""
    b = r["script"][k]
    body = b"<%i.%i>" % (i, k) + b["fill"]
    status = b["status"]
    hs = [b"X-Id: %i.%i" % (i, k)]
    out = b""
    for j in range(b["info"]):
        out += b"HTTP/1.1 10%i Wait\r\nX-Info: %i\r\n\r\n" % (j * 2, i)
    version = b"1.0" if b["close"] == "1.0" else b"1.1"
    if "to" in b:
        hs.append(b"Location: http://%s/%i" % (
            HOSTS[b["to_host"]].encode(), b["to"]))
    close = b["close"] in ("close", "1.0")
    if b["close"] == "close":
        hs.append(b"Connection: close")
    framing = b["framing"]
    if version == b"1.0" and framing in ("chunked", "gzip"):
        framing = "length"
    if framing == "length":
        hs.append(b"Content-Length: %i" % len(body))
        raw = body
    elif framing == "close":
        if b["close"] != "close":
            hs.append(b"Connection: close")
        close = True
        raw = body
    else:
        z = body
        if framing == "gzip":
            hs.append(b"Transfer-Encoding: gzip, chunked")
            z = gzip.compress(body)
        else:
            hs.append(b"Transfer-Encoding: chunked")
        raw = b""
        while z:
            raw += b"%x\r\n%s\r\n" % (len(z[:1000]), z[:1000])
            z = z[1000:]
        raw += b"0\r\n\r\n"
    if status in (204, 304) or r["method"] == "HEAD":
        raw = body = b""
        if status == 204:
            hs = [h for h in hs if not h.startswith((b"Content-Length",
                                                     b"Transfer"))]
    out += b"HTTP/%s %i S%i\r\n%s\r\n\r\n" % (version, status, i,
                                              b"\r\n".join(hs)) + raw
    return out, close or b["close"] == "idle", status, body


class Peer(object):

    def __init__(self, server, host):
        self.server = server
        self.host = host
        self.buf = bytearray()
        self.out = bytearray()
        self.eof = False
        self.reset = False
        self.current = None
        self.swallow = False

    def hang(self, reset=False):
        self.eof = True
        if reset:
            self.reset = True
            self.out = bytearray()

    def feed(self, data):
        self.buf += data
        while self.buf and not self.eof and not self.swallow:
            if self.current is None and not self.start():
                return
            if not self.body():
                return

    def start(self):
        h = fakenet.parse_head(self.buf)
        if h is None:
            return False
        start, headers, pos = h
        del self.buf[:pos]
        parts = start.split(" ")
        ok(len(parts) == 3 and parts[2] in ("HTTP/1.1", "HTTP/1.0"),
           "request line", start)
        d = dict(headers)
        i = int(parts[1][1:])
        s = self.server
        r = s.reqs[i]
        k = min(s.attempts[i], len(r["script"]) - 1)
        s.attempts[i] += 1
        s.heads.append((i, int(d["x-req"])))
        ok(len(s.heads) < 300, "endless requests", s.heads[-10:])
        eq(d.get("host"), HOSTS[self.host], "Host header", headers)
        eq(self.host, r["host"], "sent to the wrong host", i)
        self.current = (i, k, parts[0], headers, int(d["x-req"]))
        b = r["script"][k]
        self.early = False
        if d.get("expect", "").lower() == "100-continue":
            if b["expect"] == "100":
                self.out += b"HTTP/1.1 100 Continue\r\n\r\n"
            elif b["expect"] == "final" and is_final(b) and \
                    not b["info"] and d.get("content-length") != "0":
                self.early = b["status"] < 300
                self.respond(self.early)
                if b["status"] >= 300:
                    # not interested in the body
                    self.server.refused.append(i)
                    self.swallow = True
                    return False
        elif b["early"] and is_final(b) and \
                b["status"] < 300 and (
                    "content-length" in d or "transfer-encoding" in d):
            # answered before the body was read
            self.respond(True)
            self.early = True
        return True

    def body(self):
        i, k, method, headers, req = self.current
        d = dict(headers)
        if "chunked" in d.get("transfer-encoding", "").lower():
            x = fakenet.parse_chunked(self.buf)
            if x is None:
                return False
            body, n = x
        else:
            n = int(d.get("content-length", "0"))
            if len(self.buf) < n:
                return False
            body = bytes(self.buf[:n])
        del self.buf[:n]
        self.server.requests.append((i, req, method, headers, body))
        if not self.early:
            self.respond()
        elif self.pending_hang:
            self.hang()
        self.current = None
        return True

    def respond(self, early=False):
        self.early_now = early
        i, k, method, headers, req = self.current
        s = self.server
        r = dict(s.reqs[i], method=method)
        b = r["script"][k]
        out, close, status, body = answer(r, i, k)
        kind = b["kind"]
        self.pending_hang = False
        s.log.append((i, k, kind))
        if kind == "drop":
            self.hang()
        elif kind == "reset":
            self.hang(True)
        elif kind in ("cut", "cutreset"):
            self.out += out[:b["at"] % len(out)]
            self.hang()
        elif kind == "bad":
            # no body is expected after HEAD
            self.out += b"nonsense\r\n\r\n" if method == "HEAD" else \
                b["bad"]
            self.swallow = True
        else:
            self.out += out
            if close:
                if self.early_now:
                    self.pending_hang = True
                else:
                    self.hang()


class Server(object):

    def __init__(self, reqs):
        self.reqs = reqs
        self.attempts = [0] * len(reqs)
        self.heads = []
        self.requests = []
        self.log = []
        self.refused = []

    def connection(self, host, port):
        eq(port, 80, "port")
        return Peer(self, HOSTS.index(host))


class Request(http.ClientRequest):

    nfinished = 0

    def finished(self):
        self.nfinished += 1
        self.finals = getattr(self, "finals", []) + [self.status]
        super(Request, self).finished()


def check_history(case, c):
    reqs, batches, frag, order = case
    for r in reqs:
        for b in r["script"]:
            if "to" in b:
                b["to_host"] = reqs[b["to"]]["host"]
    server = Server(reqs)
    net = fakenet.Net(server, frag)
    cl = net.client(timeout=120)
    for batch in batches:
        objs = []
        for i in batch:
            r = reqs[i]
            kw = {}
            if r.get("body") is not None:
                if r["how"] == "stream":
                    kw["entity_body"] = io.BytesIO(r["body"])
                else:
                    kw["entity_body"] = r["body"]
            sink = io.BytesIO() if r["stream"] else None
            req = Request("http://%s/%i" % (HOSTS[r["host"]], i),
                          method=r["method"], res_body=sink,
                          max_retries=40, **kw)
            req.sink = sink
            if r.get("how") == "chunked" and r["body"] is not None:
                req.set_transfer_encoding("chunked")
            if r.get("expect"):
                req.set_expect_continue()
            req.set_header("X-Req", str(i))
            objs.append((i, req))
        for i, req in objs:
            cl.queue_request(req)
        cl.thread_loop(60)
        for i, req in objs:
            check_result(server, reqs, i, req, batch, c, case)
        eq(cl.thread_active_count(), 0, "active connections", case)
    check_requests(server, reqs, case)
    cl.close()
    c.nontrivial(len(reqs) > 1)
    c.label("%i hosts" % len(set(r["host"] for r in reqs)))
    if any(not is_final(b) for r in reqs for b in r["script"]):
        c.label("faults")
    if any(len(b) > 1 for b in batches):
        c.label("pipelined")


def check_result(server, reqs, i, req, batch, c, case):
    r = reqs[i]
    # the responses to this request, in order
    hist = []
    xid = req.response.get_header("X-Id")
    body = req.sink.getvalue() if req.sink is not None else req.res_body
    info = (req.status, req.error, xid, bytes(body)[:60], server.log, case)
    heads = [h for h, q in server.heads if q == i]
    if req.status == 0 or req.error is not None:
        # a failure, only requests that can't be sent again may fail
        ok(any(reqs[x]["method"] == "POST" for x in batch), "an idempotent request failed", *info)
        ok(any(not is_final(b) or b["close"] or b["framing"] == "close"
               for x in reqs for b in x["script"]), "failed for no reason",
           *info)
        c.label("failed")
        return
    # which answer is it?
    ok(xid is not None, "no response", *info)
    j, k = [int(x) for x in xid.split(b".")]
    ok(j in heads, "the response to another request", *info)
    b = reqs[j]["script"][k]
    ok(is_final(b), "a failure was reported as success", *info)
    out, close, status, expect = answer(
        dict(reqs[j], method=r["method"]), j, k)
    eq(req.status, status, "status", *info)
    eq(req.response.reason, "S%i" % j, "reason", *info)
    eq(body, expect, "body", *info)
    ok("to" not in b, "redirect not followed", *info)
    eq(req.response.get_header("X-Info"), None, "headers of an "
       "informational response", *info)
    ok(req.finals.count(status) >= 1 and req.finals[-1] == status,
       "finished", req.finals, *info)
    ok(all(s >= 200 for s in req.finals), "finished() before the final "
       "response", req.finals, *info)
    c.label("ok")


def check_requests(server, reqs, case):
    for i, q, method, headers, body in server.requests:
        r = reqs[q]
        eq(method, r["method"], "method", i, q, case)
        eq(body, r.get("body") or b"", "request body", i, q, case)
    for q, r in enumerate(reqs):
        if r["method"] != "POST":
            continue
        seen = [i for i, qq in server.heads if qq == q]
        eq(len(seen), len(set(seen)), "a POST was sent more than once",
           seen, case)


PROPS = [
    Prop("history", scripts(), check_history, quick=8000,
         rule="more than one request"),
]
