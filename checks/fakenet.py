"""pyslet's HTTP client over sockets that exist only in this process.

A Server object plays the other end of every connection: its connection()
method returns a peer with feed(data) -> None, called with the bytes sent, and
the attributes out (a bytearray of bytes to deliver) and eof (True when the
peer has hung up).  Nothing blocks, no thread is started and time only passes
when the client waits for it.
"""
import errno
import random

from pyslet.http import client as http

from vlib import fail


class Clock(object):
    """stands in for the time module in pyslet.http.client"""

    def __init__(self):
        self.now = 1000000.0

    def time(self):
        self.now += 1e-4
        return self.now

    def sleep(self, t):
        self.now += max(t, 0)


class FakeSocket(object):

    def __init__(self, net, host, port):
        self.net = net
        self.peer = net.server.connection(host, port)
        self.closed = False

    def setblocking(self, flag):
        pass

    def fileno(self):
        return -1

    def send(self, data):
        if self.closed:
            raise IOError(errno.EBADF, "closed")
        if getattr(self.peer, "reset", False):
            raise IOError(errno.ECONNRESET, "reset by peer")
        if self.peer.eof:
            raise IOError(errno.EPIPE, "broken pipe")
        n = self.net.size(len(data))
        if n is None:
            raise BlockingIOError(errno.EAGAIN, "would block")
        data = bytes(data[:n])
        self.peer.feed(data)
        return len(data)

    def recv(self, nbytes):
        if self.closed:
            raise IOError(errno.EBADF, "closed")
        if self.peer.out:
            n = self.net.size(min(nbytes, len(self.peer.out)))
            if n is None:
                raise BlockingIOError(errno.EAGAIN, "would block")
            data = bytes(self.peer.out[:n])
            del self.peer.out[:n]
            return data
        if getattr(self.peer, "reset", False):
            raise IOError(errno.ECONNRESET, "reset by peer")
        if self.peer.eof:
            return b""
        raise BlockingIOError(errno.EAGAIN, "would block")

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True
        hangup = getattr(self.peer, "hangup", None)
        if hangup:
            hangup()


class Net(object):
    """frag: 0 whole blocks; n > 0 a seed for splitting up the traffic"""

    def __init__(self, server, frag=0):
        self.server = server
        self.rnd = random.Random(frag) if frag else None
        self.frag = frag
        self.clock = Clock()
        self.stalls = 0
        self.sockets = []

    def size(self, n):
        if not self.rnd or n == 0:
            return n
        r = self.rnd.random()
        if r < 0.1:
            return None
        if r < 0.5:
            return self.rnd.randint(1, min(n, 3))
        return self.rnd.randint(1, n)

    def select(self, r, w, x, timeout=None):
        for s in list(r) + list(w):
            if s in w and not s.closed:
                self.stalls = 0
                return r, w, []
            if s.peer.out or s.peer.eof or getattr(s.peer, "reset", False):
                self.stalls = 0
                return r, w, []
        # nothing will happen until the time limit
        tick = getattr(self.server, "tick", None)
        if tick is not None and tick():
            return r, w, []
        self.stalls += 1
        if self.stalls > 50:
            fail("the client waits for data that the server will never send")
        self.clock.sleep(timeout if timeout is not None else 60)
        return [], [], []

    def client(self, base=http.Client, **kwargs):
        net = self

        class Conn(base.ConnectionClass):

            def new_socket(self):
                with self.lock:
                    if self.closed:
                        raise http.messages.HTTPException("Connection closed")
                    self.socket = FakeSocket(net, self.host, self.port)
                    net.sockets.append(self.socket)
                    self.socket_file = self.socket
                    self.socketSelect = net.select

        cls = type("FakeClient", (base,), {"ConnectionClass": Conn,
                                           "SecureConnectionClass": Conn})
        kwargs.setdefault("max_inactive", None)
        c = cls(**kwargs)
        c.socketSelect = net.select
        http.time = self.clock
        return c


def parse_head(buf):
    """(start line, [(name, value)], length of head) or None"""
    i = buf.find(b"\r\n\r\n")
    if i < 0:
        return None
    lines = bytes(buf[:i]).decode("latin-1").split("\r\n")
    headers = []
    for line in lines[1:]:
        n, _, v = line.partition(":")
        headers.append((n.strip().lower(), v.strip()))
    return lines[0], headers, i + 4


def parse_chunked(buf):
    """(data, bytes used) or None if incomplete"""
    pos, data = 0, b""
    while True:
        i = buf.find(b"\r\n", pos)
        if i < 0:
            return None
        n = int(bytes(buf[pos:i]).split(b";")[0], 16)
        pos = i + 2
        if n == 0:
            while True:
                i = buf.find(b"\r\n", pos)
                if i < 0:
                    return None
                if i == pos:
                    return data, pos + 2
                pos = i + 2
        if len(buf) < pos + n + 2:
            return None
        data += bytes(buf[pos:pos + n])
        if bytes(buf[pos + n:pos + n + 2]) != b"\r\n":
            fail("chunk not followed by CRLF", bytes(buf))
        pos += n + 2


class Peer(object):
    """reads whole requests and calls server.handle(peer, method, target,
    headers, body) for each"""

    def __init__(self, server):
        self.server = server
        self.buf = bytearray()
        self.out = bytearray()
        self.eof = False

    def feed(self, data):
        self.buf += data
        while not self.eof:
            h = parse_head(self.buf)
            if h is None:
                return
            start, headers, pos = h
            d = dict(headers)
            if "chunked" in d.get("transfer-encoding", "").lower():
                r = parse_chunked(self.buf[pos:])
                if r is None:
                    return
                body, n = r
            else:
                n = int(d.get("content-length", "0"))
                if len(self.buf) < pos + n:
                    return
                body = bytes(self.buf[pos:pos + n])
            del self.buf[:pos + n]
            parts = start.split(" ")
            if len(parts) != 3:
                fail("bad request line", start)
            self.server.handle(self, parts[0], parts[1], headers, body)
