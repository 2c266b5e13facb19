"""C28: HTTP messages are framed and decoded without loss.

Sending is judged by an independent reader of HTTP/1.x messages, receiving
by feeding messages written by an independent writer (or by the sender)
in generated fragments.
"""
import gzip
import io
import zlib

from hypothesis import strategies as st

from vlib import Prop, Discard, eq, ok, fail

import pyslet.rfc2396 as uri
from pyslet.http import messages, params

REFUSED = (messages.HTTPException, ValueError)


# ------------------------------------------------------------------ streams

class Source(io.RawIOBase):
    """A non-seekable stream with short reads that blocks now and then"""

    def __init__(self, data, plan):
        self.data = data
        self.plan = plan
        self.i = 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def tell(self):
        raise io.UnsupportedOperation("tell")

    def readinto(self, b):
        n = self.plan[self.i % len(self.plan)] if self.plan else len(b)
        self.i += 1
        if n == 0:
            return None
        n = min(n, len(b), len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


class Sink(io.RawIOBase):
    """A stream that accepts part of what is written and blocks"""

    def __init__(self, plan):
        self.data = b""
        self.plan = plan
        self.i = 0

    def writable(self):
        return True

    def write(self, b):
        n = self.plan[self.i % len(self.plan)]
        self.i += 1
        if n == 0:
            return None
        self.data += bytes(b[:n])
        return min(n, len(b))


class WSGIStream(object):
    """A wsgi.input with short reads"""

    def __init__(self, data, limit, plan):
        self.f = io.BytesIO(data)
        self.limit = limit
        self.plan = plan
        self.i = 0

    def read(self, n):
        ok(n >= 0, "unlimited read from wsgi.input")
        ok(self.limit is None or self.f.tell() + n <= self.limit,
           "read past the content length", self.f.tell(), n, self.limit)
        k = self.plan[self.i % len(self.plan)] or 1
        self.i += 1
        return self.f.read(min(n, k))

    def readline(self):
        return self.f.readline()


# ------------------------------------------------------------- reference

def ref_read(wire, head, request_method=None):
    """An independent reader

    Returns (start line, [(name, value)], raw body, rest, framing)"""
    pos = wire.index(b"\r\n\r\n")
    lines = wire[:pos].split(b"\r\n")
    start = lines[0]
    headers = []
    for line in lines[1:]:
        n, _, v = line.partition(b":")
        headers.append((n.lower(), v.strip()))
    wire = wire[pos + 4:]
    fields = {}
    for n, v in headers:
        fields[n] = fields[n] + b", " + v if n in fields else v
    te = [t.strip().lower() for t in
          fields.get(b"transfer-encoding", b"").split(b",") if t.strip()]
    cl = fields.get(b"content-length")
    if head == "response":
        status = int(start.split(b" ")[1])
        if status // 100 == 1 or status in (204, 304) or \
                request_method == "HEAD":
            return start, headers, b"", wire, "none"
    ok(not (te and cl is not None), "both Content-Length and "
       "Transfer-Encoding", headers)
    chunked = te and te[-1] == b"chunked"
    if chunked:
        te.pop()
        body = b""
        while True:
            size, _, wire = wire.partition(b"\r\n")
            n = int(size.split(b";")[0], 16)
            if n == 0:
                ok(wire.startswith(b"\r\n"), "last chunk", wire)
                wire = wire[2:]
                break
            ok(len(wire) >= n + 2 and wire[n:n + 2] == b"\r\n",
               "chunk", n, wire)
            body += wire[:n]
            wire = wire[n + 2:]
        framing = "chunked"
    elif cl is not None:
        n = int(cl)
        ok(len(wire) >= n, "message shorter than its length", n, len(wire))
        body, wire = wire[:n], wire[n:]
        framing = "length"
    elif head == "request":
        ok(not te, "transfer encoded request without chunks", headers)
        body = b""
        framing = "none"
    else:
        body, wire = wire, b""
        framing = "close"
    for t in reversed(te):
        if t == b"gzip":
            body = gzip.decompress(body)
        elif t != b"identity":
            fail("unexpected transfer encoding", t)
    return start, headers, body, wire, framing


# ------------------------------------------------------------ generators

tokens = st.text("abXYZ-1", min_size=1, max_size=6)
header_names = st.one_of(
    tokens.map(lambda t: "X-" + t),
    st.sampled_from(["Accept", "User-Agent", "Cookie", "Set-Cookie", "Via"]))
header_values = st.one_of(
    st.sampled_from([b"", b"a", b"a b", b'"q, r"', b"a:b", b"caf\xe9"]),
    st.lists(st.one_of(st.sampled_from(list(b" ,;=:\"\t")),
                       st.integers(0x21, 0x7E), st.integers(0x80, 0xFF)),
             max_size=8).map(lambda l: bytes(l).strip()))
headers = st.lists(st.tuples(header_names, header_values), max_size=4)
plans = st.lists(st.integers(0, 7), min_size=1, max_size=4).filter(any)
bodies = st.one_of(
    st.sampled_from([b"", b"0\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n",
                     b"\r\n", b"\0\xff"]),
    st.binary(max_size=40),
    st.tuples(st.binary(min_size=1, max_size=3), st.integers(1, 9000)).map(
        lambda t: (t[0] * t[1])[:9000]))
small = st.one_of(st.binary(max_size=30), st.sampled_from(
    [b"", b"\r\n", b"abc" * 20]))
protocols = st.sampled_from(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"])
methods = st.sampled_from(["GET", "HEAD", "DELETE", "POST", "POST", "PUT",
                           "OPTIONS", "PATCH"])
statuses = st.sampled_from([200, 200, 200, 201, 100, 204, 304, 404, 500])
uris = st.sampled_from(["/", "/a/b?c=d", "*", "http://example.com/x",
                        "/%20;p"])
reasons = st.sampled_from([None, "OK", "", "Not so bad", u"Caf\xe9"])


@st.composite
def sent_messages(draw):
    m = dict(kind=draw(st.sampled_from(["request", "response"])),
             method=draw(methods), uri=draw(uris), status=draw(statuses),
             reason=draw(reasons), protocol=draw(protocols),
             target=draw(protocols), headers=draw(headers))
    m["body"] = draw(st.one_of(st.none(), bodies))
    m["how"] = draw(st.sampled_from(["bytes", "bytes", "file", "stream"]))
    m["offset"] = draw(st.integers(0, 3))
    m["plan"] = draw(plans)
    m["te"] = draw(st.sampled_from(
        [None, None, None, "chunked", "gzip, chunked",
         "gzip, gzip, chunked"] + (
             ["gzip"] if m["kind"] == "response" else [])))
    m["cl"] = draw(st.sampled_from([None, None, None, 0, 0, 1, -1]))
    return m


def make_message(m):
    kwargs = {}
    body = m["body"]
    if body is not None:
        if m["how"] == "bytes":
            kwargs["entity_body"] = body
        elif m["how"] == "file":
            kwargs["entity_body"] = io.BytesIO(b"\r\n0"[:m["offset"]] + body)
            kwargs["entity_body"].seek(m["offset"])
        else:
            kwargs["entity_body"] = Source(body, m["plan"])
    if m["kind"] == "request":
        msg = messages.Request(protocol=params.HTTPVersion.from_str(
            m["protocol"]), **kwargs)
        msg.set_method(m["method"])
        msg.set_request_uri(m["uri"])
    else:
        req = messages.Request()
        req.set_method(m["method"])
        req.set_request_uri(m["uri"])
        req.set_protocol(m["target"])
        msg = messages.Response(req, protocol=params.HTTPVersion.from_str(
            m["protocol"]), **kwargs)
        msg.set_status(m["status"], m["reason"])
    for n, v in m["headers"]:
        msg.set_header(n, v, True)
    if m["te"]:
        msg.set_transfer_encoding(m["te"])
    cl = wanted_length(m)
    if cl is not None:
        msg.set_content_length(cl)
    return msg


def wanted_length(m):
    if m["cl"] is None or m["body"] is None:
        return None
    n = len(m["body"]) + m["cl"]
    if n < 0 or (m["how"] != "bytes" and m["cl"] > 0):
        return None
    return n


def expect_body(m):
    """The body expected to be sent or None if it must be refused"""
    body, cl = m["body"], wanted_length(m)
    old = m["target"] == "HTTP/1.0" or (
        m["kind"] == "response" and m["protocol"] == "HTTP/1.0")
    if m["kind"] == "response" and (
            m["status"] // 100 == 1 or m["status"] in (204, 304) or
            m["method"] == "HEAD"):
        if body is not None and not (m["how"] == "bytes" and not body):
            return None
        return b""
    te = m["te"] if not old else None
    if m["kind"] == "response" and body is None:
        return b""
    if te:
        if cl is not None:
            return None
    elif cl is not None:
        if m["how"] == "bytes" and cl != len(body):
            return None
        body = body[:cl]
    if m["kind"] == "request" and m["method"] in ("GET", "HEAD", "DELETE"):
        if te or (body is not None and (
                body or (cl is None and m["how"] != "bytes"))):
            return None
    return body or b""


def send(msg, target):
    msg.start_sending(params.HTTPVersion.from_str(target))
    out = [msg.send_start(), msg.send_header()]
    blocks = 0
    while True:
        data = msg.send_body()
        if data is None:
            blocks += 1
            ok(blocks < 50000, "blocked for ever")
            continue
        ok(isinstance(data, bytes), "not binary data", data)
        if not data:
            break
        out.append(data)
    eq(msg.send_body(), b"", "data after the end")
    return b"".join(out)


def check_send(case, c):
    m, fragments, sink, extra = case
    msg = make_message(m)
    expect = expect_body(m)
    # a body which isn't sent at all isn't judged
    if m["te"] and m["body"] is None:
        raise Discard
    try:
        wire = send(msg, m["target"])
    except messages.HTTPException as e:
        # blocked streams can't be buffered to find their length
        ok(expect is None or (
            m["kind"] == "request" and m["target"] == "HTTP/1.0" and
            m["how"] == "stream" and 0 in m["plan"]), "refused", e, m)
        c.label("refused")
        return
    ok(expect is not None, "must be refused", wire, m)
    start, hs, body, rest, framing = ref_read(
        wire, m["kind"], m["method"])
    eq(rest, b"", "data after the message", wire[:200], m)
    c.label("%s %s" % (m["kind"], framing))
    if m["kind"] == "request":
        eq(start, ("%s %s %s" % (m["method"], m["uri"], m["protocol"])
                   ).encode(), "start line", m)
    else:
        ok(start.startswith(("%s %i " % (m["protocol"], m["status"])
                             ).encode()), "start line", start, m)
        if m["reason"] is not None:
            eq(start.split(b" ", 2)[2], m["reason"].encode("latin-1"),
               "reason", m)
    eq(body, expect, "body", wire[:200], m)
    for n, v in set((n.lower(), v) for n, v in m["headers"]):
        eq([x for y, x in hs if y == n.encode()],
           [x for y, x in m["headers"] if y.lower() == n], "header", n, m)
    names = [n for n, v in hs]
    if m["target"] == "HTTP/1.0" and framing != "none":
        ok(b"transfer-encoding" not in names, "transfer encoding sent to "
           "an HTTP/1.0 recipient", hs, m)
    close = (b"connection", b"close") in hs
    if framing == "close":
        ok(close or m["protocol"] == "HTTP/1.0", "the connection isn't "
           "closed", hs, m)
        ok(not msg.keep_alive, "keep_alive", m)
    eq(close, not msg.keep_alive, "Connection: close", hs, m)
    # again, as when requests are retried
    if msg.body_start is not None or not msg.body_started:
        eq(send(msg, m["target"]), wire, "sent again", m)
    elif body:
        try:
            send(msg, m["target"])
            fail("a stream was sent twice", m)
        except messages.HTTPException:
            pass
    # and received
    if framing == "close":
        extra = b""
    got, rest, chunks = receive(m, wire + extra, fragments, sink)
    check_received(got, m, start, hs, expect, chunks)
    eq(rest, extra, "bytes after the message", wire[-50:], m)
    c.nontrivial(bool(body))


# -------------------------------------------------------------- receiving

class Stuck(Exception):
    pass


def receive(m, wire, fragments, sink=None):
    kwargs = {}
    if sink is not None:
        kwargs["entity_body"] = Sink(sink)
    if m["kind"] == "request":
        msg = messages.Request(**kwargs)
    else:
        req = messages.Request()
        req.set_method(m["method"])
        msg = messages.Response(req, **kwargs)
    done = []
    msg.handle_message = lambda: done.append(1)
    msg.start_receiving()
    i = blocks = 0
    eof = False
    while True:
        mode = msg.recv_mode()
        if mode is None:
            break
        if mode == msg.RECV_LINE:
            if b"\r\n" not in wire:
                raise Stuck
            line, _, wire = wire.partition(b"\r\n")
            msg.recv(line + b"\r\n")
        elif mode == msg.RECV_HEADERS:
            lines = []
            while True:
                if b"\r\n" not in wire:
                    raise Stuck
                line, _, wire = wire.partition(b"\r\n")
                lines.append(line + b"\r\n")
                if not line:
                    break
            msg.recv(lines)
        elif mode == 0:
            blocks += 1
            ok(blocks < 100000, "blocked for ever")
            msg.recv(None)
        else:
            n = fragments[i % len(fragments)] or 10000
            i += 1
            if mode > 0:
                n = min(mode, n)
                if not wire:
                    raise Stuck
            elif not wire:
                if eof:
                    fail("not finished by the end of the stream")
                eof = True
            data, wire = wire[:n], wire[n:]
            msg.recv(data)
    eq(len(done), 1, "handle_message calls")
    body = msg.entity_body
    body = body.data if sink is not None else body.getvalue()
    return msg, wire, body


def check_received(msg, m, start, hs, expect, body):
    if m["kind"] == "request":
        eq("%s %s %s" % (msg.method, msg.request_uri, msg.protocol),
           start.decode("latin-1"), "start line received", m)
        eq(msg.get_start(), start, "start line", m)
    else:
        eq("%s %s %s" % (msg.protocol, msg.status, msg.reason),
           start.decode("latin-1"), "start line received", m)
    fields = {}
    for n, v in hs:
        fields.setdefault(n, []).append(v)
    eq(msg.get_headerlist(), sorted(fields), "header names", m)
    for n, v in fields.items():
        eq(msg.get_header(n, True), v, "header", n, m)
        eq(msg.get_header(n.decode().upper()), b", ".join(v), "header", m)
    eq(body, expect, "body received", m)
    if m.get("framing") == "boundary":
        # not supported by pyslet, always closes the connection
        return
    eq(msg.keep_alive, not (str(msg.protocol) == "HTTP/1.0" or any(
        b"close" in [t.strip().lower() for t in v.split(b",")]
        for n, v in hs if n == b"connection")), "keep alive", hs, m)


ext = st.sampled_from([b"", b"", b"", b";a=b", b" ; a = b", b';a="b;\\"c"',
                       b";a=1;b=2", b";novalue", b"; x ;y=1"])


@st.composite
def wire_messages(draw):
    """Valid messages in all sorts of spellings"""
    kind = draw(st.sampled_from(["request", "response"]))
    m = dict(kind=kind, method=draw(methods), protocol=draw(protocols))
    out = []
    if kind == "request":
        start = ("%s %s %s" % (m["method"], draw(uris),
                               m["protocol"])).encode()
        out.append(b"\r\n" * draw(st.sampled_from([0, 0, 0, 1, 2])))
    else:
        status = draw(statuses)
        start = b"%s %i %s" % (
            m["protocol"].encode(), status,
            (draw(reasons) or "").encode("latin-1"))
    out += [start, b"\r\n"]
    body = draw(bodies)
    empty = kind == "response" and (
        status // 100 == 1 or status in (204, 304) or m["method"] == "HEAD")
    framing = draw(st.sampled_from(
        ["length", "chunked", "none"] + (
            ["close", "boundary"] if kind == "response" else [])))
    hs = [(n, v) for n, v in draw(headers)]
    te = []
    raw = body
    if framing in ("chunked", "close"):
        te = draw(st.sampled_from([[], [], ["gzip"], ["gzip", "gzip"],
                                   ["identity"]]))
        for t in te:
            if t == "gzip":
                raw = gzip.compress(raw, draw(st.sampled_from([0, 6])))
    if draw(st.integers(0, 3)) == 0:
        hs.append(("Connection", draw(st.sampled_from(
            [b"close", b"keep-alive", b"Close, x", b"x"]))))
    if framing == "length":
        hs.append(("Content-Length", b"%i" % len(raw)))
    elif framing == "chunked":
        te = te + ["chunked"]
        if draw(st.integers(0, 5)) == 0:
            # must be ignored
            hs.append(("Content-Length", b"7"))
    elif framing == "boundary":
        hs.append(("Content-Type", b"multipart/byteranges; boundary=b-1"))
        raw = body = b"--b-1\r\n\r\n" + body.replace(
            b"\r\n--b-1--", b"") + draw(st.sampled_from(
                [b"", b"\r\n--b-1-", b"\r\n\r\n--b-\r\n--b-1", b"\r",
                 b"\r\n", b"\r\n-"])) + b"\r\n--b-1--"
    elif framing == "none":
        body = raw = b""
        if kind == "response" and not empty:
            hs.append(("Content-Length", b"0"))
    if te:
        sep = draw(st.sampled_from([b", ", b",", b" , ,"]))
        v = sep.join(draw(st.sampled_from([t, t.upper(), t.capitalize()])
                          ).encode() for t in te)
        hs.append(("Transfer-Encoding", v))
    if draw(st.booleans()):
        hs = draw(st.permutations(hs))
    expect = []
    for n, v in hs:
        n = draw(st.sampled_from([n, n.upper(), n.lower()])).encode()
        pre = draw(st.sampled_from([b" ", b" ", b"", b"\t ", b"  "]))
        post = draw(st.sampled_from([b"", b"", b" "]))
        sent = v
        if b" " in v and draw(st.integers(0, 2)) == 0:
            i = v.index(b" ")
            fold = draw(st.sampled_from([b"\r\n ", b"\r\n\t", b" \r\n  "]))
            sent = v[:i] + fold + v[i + 1:]
        out.append(n + b":" + pre + sent + post + b"\r\n")
        expect.append((n.lower(), v))
    out.append(b"\r\n")
    if not empty:
        if framing == "chunked":
            while raw:
                n = draw(st.one_of(st.integers(1, 5), st.integers(1, 9000)))
                chunk, raw = raw[:n], raw[n:]
                fmt = draw(st.sampled_from([b"%X", b"%x", b"0%X", b"000%x"]))
                out.append(fmt % len(chunk) + draw(ext) + b"\r\n" + chunk +
                           b"\r\n")
            out.append(draw(st.sampled_from([b"0", b"000"])) + draw(ext) +
                       b"\r\n")
            for i in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
                v = b"t%i" % i
                out.append(b"X-Trailer: " + v + b"\r\n")
                expect.append((b"x-trailer", v))
            out.append(b"\r\n")
        else:
            out.append(raw)
    else:
        body = b""
    m["framing"] = "none" if empty else framing
    m["wire"] = b"".join(out)
    return m, start, expect, body


def unfold(v):
    return b" ".join(v.split())


def check_receive(case, c):
    (m, start, hs, body), fragments, sink, extra = case
    framing = m["framing"]
    c.label("%s %s" % (m["kind"], framing))
    if framing == "close":
        extra = b""
    wire = m["wire"]
    if framing == "boundary":
        # everything in the same read goes with the message
        fragments = [1]
    got, rest, data = receive(m, wire + extra, fragments, sink)
    # white space in folded lines isn't judged
    for n in got.get_headerlist():
        got.headers[n][1:] = [unfold(v) for v in got.headers[n][1:]]
    check_received(got, m, start, [(n, unfold(v)) for n, v in hs], body,
                   data)
    eq(rest, extra, "bytes after the message", wire[-50:])
    c.nontrivial(bool(body))


@st.composite
def bad_messages(draw):
    kind = draw(st.sampled_from(["request", "response"]))
    method = draw(st.sampled_from(["POST", "GET"]))
    m = dict(kind=kind, method=method)
    start = b"POST / HTTP/1.1" if kind == "request" else b"HTTP/1.1 200 OK"
    hs = []
    rest = b"data" * 3
    what = draw(st.sampled_from(
        ["start", "header", "length", "coding", "size", "end", "type",
         "gzip", "cut"]))
    if what == "start":
        if kind == "request":
            start = draw(st.sampled_from(
                [b"POST /", b"POST / x HTTP/1.1", b"POST / HTTP/1",
                 b"POST / HTP/1.1", b"P(ST / HTTP/1.1", b"POST", b" ",
                 b"POST / HTTP/1.1x", b"\xff / HTTP/1.1",
                 b"POST / HTTP/x.y", b"POST / HTTP/1.1 "]))
            if start.endswith(b"1.1 "):
                what = "ok"
        else:
            start = draw(st.sampled_from(
                [b"HTTP 200 OK", b"HTP/1.1 200 OK", b"200 OK", b"", b" ",
                 b"HTTP/x.1 200 OK", b"HTTP/1 200 OK"]))
            if not start:
                what = "cut"
    elif what == "header":
        hs.append(draw(st.sampled_from([b"nocolon", b"no colon", b"=",
                                        b"\xff"])))
    elif what == "length":
        hs.append(b"Content-Length: " + draw(st.sampled_from(
            [b"-1", b"x", b"1x", b"0x10", b"", b"5 6", b"1.0", b"+5"])))
        if hs[0].endswith(b": "):
            hs = [b"Content-Length: 5", b"Content-Length: 6"]
    elif what == "coding":
        hs.append(b"Transfer-Encoding: " + draw(st.sampled_from(
            [b"chunked, chunked", b"chunked, gzip", b"(chunked)",
             b"chunked;", b"gzip, chunked, gzip"])))
    elif what == "size":
        hs.append(b"Transfer-Encoding: chunked")
        rest = draw(st.sampled_from([b"", b"3\r\nabc\r\n"])) + draw(
            st.sampled_from([b"x\r\n", b"-3\r\n", b"\r\n", b"0x3\r\n",
                             b"3 3\r\n", b"+3\r\n", b";a=b\r\n",
                             b"3;\"a\"\r\n", b"3\xff\r\n"])) + \
            b"abc\r\n0\r\n\r\n"
    elif what == "end":
        hs.append(b"Transfer-Encoding: chunked")
        rest = b"3\r\nabc" + draw(st.sampled_from(
            [b"d\r\n", b"\n\r\n", b"\r\r\n", b"0\r\n"])) + b"0\r\n\r\n"
    elif what == "type":
        hs += [b"Content-Type: " + draw(st.sampled_from(
            [b"multipart/mixed", b"multipart/byteranges", b"text"])),
            b"Content-Length: 2"]
    elif what == "gzip":
        hs.append(b"Transfer-Encoding: gzip, chunked")
        z = draw(st.sampled_from([
            b"junk data, not gzip", b"\x1f\x8b\x08junk" * 4,
            gzip.compress(b"hello")[:-9] + b"x" * 20]))
        rest = b"%x\r\n%s\r\n0\r\n\r\n" % (len(z), z)
    else:
        # truncated, never complete
        hs.append(b"Content-Length: 12")
        n = len(b"\r\n".join([start] + hs)) + 4
        m["cut"] = draw(st.integers(0, n + 11))
    m["what"] = what
    m["wire"] = b"\r\n".join([start] + hs) + b"\r\n\r\n" + rest
    return m, draw(plans)


def check_bad(case, c):
    m, fragments = case
    wire = m["wire"]
    c.label(m["what"])
    if "cut" in m:
        wire = wire[:m["cut"]]
    try:
        receive(m, wire, fragments)
        ok(m["what"] == "ok", "accepted", wire, m)
    except REFUSED:
        ok(m["what"] not in ("ok", "cut"), "refused", wire, m)
    except Stuck:
        # waiting for the rest
        ok(m["what"] == "cut", "accepted", wire, m)
    c.nontrivial()


@st.composite
def mutated(draw):
    m, start, hs, body = draw(wire_messages())
    wire = m["wire"]
    for i in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, min(len(wire), 400)))
        j = draw(st.sampled_from([0, 0, 1, 1, 2, 5]))
        wire = wire[:i] + draw(st.one_of(
            st.sampled_from([b"", b"\r\n", b":", b" ", b";", b",", b"\r",
                             b"0", b"Content-Length: 3\r\n"]),
            st.binary(min_size=1, max_size=2))) + wire[i + j:]
    return dict(m, wire=wire), draw(plans)


def check_mutated(case, c):
    m, fragments = case
    try:
        receive(m, m["wire"], fragments)
        c.label("accepted")
        c.nontrivial()
    except REFUSED:
        c.label("refused")
        c.nontrivial()
    except NotImplementedError:
        c.label("not implemented")
    except Stuck:
        c.label("incomplete")


# ----------------------------------------------------------- gzip streams

def check_gzip(case, c):
    data, src, plan, sinkplan, level = case
    f = messages.GzipEncoder(Source(data, src) if src else io.BytesIO(data))
    out = []
    i = blocks = 0
    while True:
        n = plan[i % len(plan)]
        i += 1
        s = f.read(n or -1) if n != 7 else f.read(20000)
        if s is None:
            blocks += 1
            ok(blocks < 100000, "blocked for ever")
            continue
        if not s:
            break
        out.append(s)
    z = b"".join(out)
    eq(gzip.decompress(z), data, "encoded", plan)
    z = gzip.compress(data, level)
    for dst in (Sink(sinkplan), io.BytesIO()):
        d = messages.GzipDecoder(dst)
        rest = z
        i = 0
        while rest:
            n = plan[i % len(plan)] or 10000
            i += 1
            k = d.write(rest[:n])
            ok(k is None or 0 <= k <= n, "write", k, n)
            rest = rest[k or 0:]
            ok(i < 100000, "blocked for ever")
        for j in range(100000):
            try:
                d.flush()
                break
            except IOError:
                pass
        eq(dst.data if isinstance(dst, Sink) else dst.getvalue(), data,
           "decoded", plan)
    c.nontrivial(len(data) > 20)


# ------------------------------------------------------------- WSGI input

lines = st.lists(st.sampled_from([b"\n", b"a", b"bc", b"\r\n", b"d\n",
                                  b"\xff", b"0" * 20]),
                 max_size=12).map(b"".join)
wsgi_ops = st.lists(st.one_of(
    st.tuples(st.just("read"), st.integers(0, 12)),
    st.tuples(st.just("readline"), st.integers(-1, 5)),
    st.tuples(st.just("readinto"), st.integers(0, 8)),
    st.tuples(st.just("seek"), st.integers(0, 40), st.integers(0, 2)),
    st.tuples(st.sampled_from(["readall", "read_all", "readlines", "iter",
                               "tell"])),
    st.tuples(st.just("readlines"), st.integers(0, 20))), max_size=10)


def short(f, data, n, model):
    """reads may be short but never empty before the end"""
    ok(len(data) <= n, "too much data", n, data)
    m = model.read(len(data))
    eq(data, m, "read", n)
    if n and not data:
        eq(model.read(1), b"", "empty read before the end")


def check_wsgi(case, c):
    data, extra, chunk, seek_size, plan, ops = case
    env = {}
    if chunk:
        raw, rest, i = [], data, 0
        while rest:
            n = chunk[i % len(chunk)] or 1
            i += 1
            raw.append(b"%x\r\n%s\r\n" % (len(rest[:n]), rest[:n]))
            rest = rest[n:]
        raw.append(b"0\r\n" + (b"T: 1\r\n" if extra else b"") + b"\r\n")
        env["HTTP_TRANSFER_ENCODING"] = "chunked"
        env["wsgi.input"] = WSGIStream(b"".join(raw) + extra, None, plan)
    else:
        env["CONTENT_LENGTH"] = str(len(data))
        env["wsgi.input"] = WSGIStream(data + extra, len(data), plan)
    f = messages.WSGIInputWrapper(env, seek_size)
    model = io.BytesIO(data)
    for op in ops:
        name, args = op[0], op[1:]
        c.label(name)
        pos = model.tell()
        if name == "read":
            short(f, f.read(*args), args[0], model)
        elif name == "readinto":
            b = bytearray(args[0])
            n = f.readinto(b)
            short(f, bytes(b[:n]), args[0], model)
        elif name == "readline":
            eq(f.readline(*args), model.readline(*args), "readline", args,
               pos, case)
        elif name == "readlines":
            if args:
                total, expect = 0, []
                for line in model:
                    expect.append(line)
                    total += len(line)
                    if total > args[0]:
                        break
                model.seek(pos + total)
            else:
                expect = model.readlines()
            eq(f.readlines(*args), expect, "readlines", args, pos, case)
        elif name == "iter":
            eq(list(f), list(model), "lines", pos, case)
        elif name == "readall":
            eq(f.readall(), model.read(), "readall", pos, case)
        elif name == "read_all":
            eq(f.read(), model.read(), "read()", pos, case)
        elif name == "seek":
            offset, whence = args
            if whence == 1:
                offset -= 20
            elif whence == 2:
                offset = -offset
            target = offset + (0, pos, len(data))[whence]
            seekable = f.seekable()
            try:
                f.seek(offset, whence)
            except IOError:
                ok(target < 0 or not seekable or (whence == 2 and chunk) or
                   pos > seek_size, "seek refused", op, pos, case)
            else:
                ok(target >= 0, "seek before the start", op, pos, case)
                model.seek(target)
        eq(f.tell(), model.tell(), "position after", op, case)
        if model.tell() <= min(seek_size, len(data)):
            ok(f.seekable(), "not seekable", case)
    c.nontrivial(len(data) > 0 and len(ops) > 1)


def check_wsgibad(case, c):
    """Truncated and malformed chunked request bodies"""
    data, chunk, cut, put, plan, seek_size = case
    raw, rest, i = [], data, 0
    while rest:
        n = chunk[i % len(chunk)] or 1
        i += 1
        raw.append(b"%x\r\n%s\r\n" % (len(rest[:n]), rest[:n]))
        rest = rest[n:]
    raw = b"".join(raw) + b"0\r\n\r\n"
    cut = cut % len(raw)
    if put is None:
        raw = raw[:cut]
    else:
        i = raw.index(b"\r\n") if put != b"X" else raw.rindex(b"0\r")
        raw = raw[:i] + put + raw[i:]
    env = {"HTTP_TRANSFER_ENCODING": "chunked",
           "wsgi.input": WSGIStream(raw, None, plan)}
    try:
        got = messages.WSGIInputWrapper(env, seek_size).read()
    except REFUSED:
        c.label("refused")
    else:
        fail("accepted", raw, got)
    c.nontrivial(bool(data))


# --------------------------------------------------------- authorities

@st.composite
def targets(draw):
    host = draw(st.sampled_from([None, "example.com", "Example.com:8080",
                                 "127.0.0.1"]))
    path = draw(st.sampled_from(["/", "/a/b", "/a;p", "/%20", ""]))
    query = draw(st.sampled_from([None, "", "a=b"]))
    header = draw(st.sampled_from([None, "other.com", "other.com:81"]))
    scheme = draw(st.sampled_from(["http", "https", "HTTP"]))
    port = draw(st.sampled_from(["", ":80", ":443", ":8080"]))
    if host and ":" in host:
        port = ""
    return host, path, query, header, scheme, port


def check_target(case, c):
    host, path, query, header, scheme, port = case
    if host is None and not path:
        raise Discard
    r = messages.Request()
    r.set_method("GET")
    u = path + ("?" + query if query is not None else "")
    r.set_request_uri(u if host is None else
                      "%s://%s%s%s" % (scheme, host, port, u))
    if header:
        r.set_host(header)
    got = r.extract_authority()
    if isinstance(got, bytes):
        got = got.decode()
    if host is None:
        eq(got, header, "authority", case)
    else:
        p = port or (host[host.index(":"):] if ":" in host else "")
        if p == (":443" if scheme == "https" else ":80"):
            p = ""
        eq(got.lower(), host.split(":")[0].lower() + p, "authority", case)
        eq(r.get_host().decode(), got, "host", case)
        c.nontrivial()
    eq(r.request_uri, (path or "/") + (
        "?" + query if query is not None else ""), "request uri", case)


PROPS = [
    Prop("send", st.tuples(sent_messages(), plans, st.one_of(
        st.none(), plans), small), check_send, quick=4000,
        rule="a message with a body was sent"),
    Prop("receive", st.tuples(wire_messages(), plans, st.one_of(
        st.none(), plans), small), check_receive, quick=4000,
        rule="a message with a body"),
    Prop("bad", bad_messages(), check_bad, quick=1500, rule="all"),
    Prop("mutated", mutated(), check_mutated, quick=4000,
         rule="accepted or refused (not incomplete)"),
    Prop("gzip", st.tuples(bodies, st.one_of(st.none(), plans), plans,
                           plans, st.sampled_from([0, 6])), check_gzip,
         quick=1500, rule="more than 20 bytes"),
    Prop("wsgi", st.tuples(lines, small, st.one_of(st.none(), plans),
                           st.sampled_from([0, 1, 5, 20, 8192]), plans,
                           wsgi_ops), check_wsgi, quick=4000,
         rule="some data and more than one operation"),
    Prop("wsgibad", st.tuples(
        lines, plans, st.integers(0, 200),
        st.sampled_from([None, None, None, b"x", b" 3", b"-", b"X"]),
        plans, st.sampled_from([0, 5, 8192])), check_wsgibad, quick=800,
        rule="a truncated or malformed body with some data"),
    Prop("target", targets(), check_target, quick=600,
         rule="an absolute URL"),
]
