"""C33: stream wrappers deliver bytes unchanged and in order."""
import errno
import io
import types

from hypothesis import strategies as st

from pyslet import streams

from vlib import Prop, eq, ok, fail
from . import sched

PROPERTY = "C33"


# -- one thread: the pipe against a model -----------------------------------

blobs = st.binary(max_size=12)
text = st.lists(st.sampled_from([b"a", b"b", b"\r", b"\n", b"\r\n", b"--"]),
                max_size=6).map(b"".join)
data = st.one_of(blobs, text, text)
sizes = st.integers(0, 14)
pipe_ops = st.one_of(
    st.tuples(st.just("write"), data, st.sampled_from(
        ["bytes", "bytes", "bytearray", "memoryview"])),
    st.tuples(st.just("write"), data, st.sampled_from(
        ["bytes", "bytes", "bytearray", "memoryview"])),
    st.tuples(st.just("write"), data, st.just("bytes")),
    st.tuples(st.just("read"), sizes),
    st.tuples(st.just("readinto"), sizes),
    st.tuples(st.just("readmatch"), st.sampled_from(
        [b"\r\n", b"\n", b"a", b"--", b"ab"])),
    st.tuples(st.just("eof")),
    st.tuples(st.just("close")),
    st.tuples(st.just("flush")),
    st.tuples(st.just("readall")),
    st.tuples(st.just("waits")),
    st.tuples(st.just("mode"), st.booleans(), st.booleans()),
    st.tuples(st.just("rflag")),
)
pipe_cases = st.tuples(
    st.integers(1, 16), st.booleans(), st.booleans(),
    st.lists(pipe_ops, min_size=1, max_size=14))


class Flag(object):
    """what the pipe does with its reader flag"""

    def __init__(self):
        self.on = None

    def set(self):
        self.on = True

    def clear(self):
        self.on = False


def error_of(f, *args):
    """(result, errno)"""
    try:
        return f(*args), None
    except IOError as e:
        if isinstance(e, io.UnsupportedOperation):
            raise
        return None, e.errno


def check_pipe(case, c):
    size, rb, wb, ops = case
    p = streams.Pipe(size, rblocking=rb, wblocking=wb, timeout=0)
    real_time = streams.time
    ticks = [0.0]

    def tick():
        ticks[0] += 1.0
        return ticks[0]
    streams.time = types.SimpleNamespace(time=tick)
    try:
        pipe_history(p, size, rb, wb, ops, c)
    finally:
        streams.time = real_time


def pipe_history(p, size, rb, wb, ops, c):
    buff = b""
    eof = closed = False
    flag = None
    for j, op in enumerate(ops):
        msg = (size, rb, wb, j, ops[:j + 1])
        name = op[0]
        if flag is not None:
            flag.on = None
        room = max(0, size - len(buff))
        if name == "write":
            b = op[1]
            x = {"bytes": bytes, "bytearray": bytearray,
                 "memoryview": memoryview}[op[2]](b)
            n, err = error_of(p.write, x)
            if closed or eof:
                eq(err, errno.EPIPE, "write after the end", *msg)
            elif not room:
                if wb:
                    eq(err, errno.ETIMEDOUT, "write to a full pipe", *msg)
                else:
                    eq((n, err), (None, None), "write to a full pipe", *msg)
            else:
                eq(err, None, "error of write", *msg)
                ok(type(n) is int and 0 <= n <= len(b), "bytes written", n,
                   *msg)
                ok(n >= min(room, len(b)), "write accepts what canwrite "
                   "announced", n, *msg)
                if op[2] == "bytearray":
                    ok(n <= room, "copied data does not exceed the buffer",
                       n, *msg)
                else:
                    eq(n, len(b), "immutable data is accepted whole", *msg)
                buff += b[:n]
                if op[2] == "bytearray":
                    # the data was copied
                    x[:] = b"\xff" * len(x)
        elif name in ("read", "readinto"):
            n = op[1]
            if n == 0 and not buff:
                continue
            if name == "read":
                got, err = error_of(p.read, n)
            else:
                b = bytearray(b"\xee" * n)
                k, err = error_of(p.readinto, b)
                got = None if k is None else bytes(b[:k])
                if k is not None:
                    eq(bytes(b[k:]), b"\xee" * (n - k),
                       "readinto leaves the rest alone", *msg)
            if closed:
                # nothing more to read
                ok(err is not None or got == b"", "read from a closed pipe",
                   got, *msg)
                continue
            if not buff:
                if eof:
                    eq((got, err), (b"", None), "read at the end", *msg)
                elif rb:
                    eq(err, errno.ETIMEDOUT, "read from an empty pipe", *msg)
                else:
                    eq((got, err), (None, None), "read from an empty pipe",
                       *msg)
            else:
                eq(err, None, "error of read", *msg)
                eq(got, buff[:len(got)], "data read", *msg)
                ok(len(got) <= n and (got or not n), "size of data read",
                   got, *msg)
                if got:
                    c.nontrivial()
                    if flag is not None:
                        eq(flag.on, True, "reader flag after a read", *msg)
                buff = buff[len(got):]
        elif name == "readmatch":
            got, err = error_of(p.readmatch, op[1])
            if closed:
                ok(err is not None or got == b"", "readmatch on closed pipe",
                   got, *msg)
                continue
            i = buff.find(op[1])
            if i >= 0:
                i += len(op[1])
                eq((got, err), (buff[:i], None), "readmatch", *msg)
                buff = buff[i:]
                c.nontrivial()
            elif eof:
                eq((got, err), (b"", None), "readmatch at the end", *msg)
            elif not room:
                eq(err, errno.ENOBUFS, "readmatch with a full buffer", *msg)
            elif rb:
                eq(err, errno.ETIMEDOUT, "readmatch without a match", *msg)
            else:
                eq((got, err), (None, None), "readmatch without a match",
                   *msg)
        elif name == "eof":
            p.write_eof()
            eof = True
        elif name == "close":
            p.close()
            closed = eof = True
            buff = b""
            if flag is not None:
                eq(flag.on, True, "reader flag after close", *msg)
        elif name == "flush":
            if closed:
                continue
            got, err = error_of(p.flush)
            if not buff:
                eq((got, err), (None, None), "flush of an empty pipe", *msg)
            elif wb:
                eq(err, errno.ETIMEDOUT, "flush of an idle pipe", *msg)
            else:
                eq(err, errno.EWOULDBLOCK, "flush of a non-blocking pipe",
                   *msg)
        elif name == "readall":
            if closed:
                continue
            got, err = error_of(p.readall)
            if eof:
                eq((got, err), (buff, None), "readall", *msg)
                buff = b""
            else:
                # nobody writes: what was read is lost
                eq(err, errno.ETIMEDOUT, "readall without an end", *msg)
                buff = b""
        elif name == "waits":
            for f, when in ((p.read_wait, buff or eof),
                            (p.flush_wait, not buff),
                            (p.write_wait, room)):
                got, err = error_of(f, 0)
                if f == p.flush_wait or not closed and (
                        f == p.read_wait or not eof):
                    eq(err, None if when else errno.ETIMEDOUT,
                       "error of %s" % f.__name__, *msg)
                else:
                    eq(err, errno.EPIPE, "error of %s" % f.__name__, *msg)
        elif name == "mode":
            rb, wb = op[1:]
            p.set_readblocking(rb)
            p.set_writeblocking(wb)
        elif name == "rflag":
            flag = Flag()
            p.set_rflag(flag)
            eq(flag.on, True if closed else None, "reader flag set", *msg)
        c.label(name)
        eq((p.readblocking(), p.writeblocking()), (rb, wb), "modes", *msg)
        eq(p.empty(), not buff, "empty", *msg)
        eq(p.buffered(), len(buff), "buffered", *msg)
        got, err = error_of(p.canread)
        if closed:
            eq(err, errno.EPIPE, "canread when closed", *msg)
        else:
            eq((got, err), (bool(buff or eof), None), "canread", *msg)
        got, err = error_of(p.canwrite)
        if closed or eof:
            eq(err, errno.EPIPE, "canwrite after the end", *msg)
        else:
            eq((got, err), (max(0, size - len(buff)), None), "canwrite",
               *msg)


# -- threads --------------------------------------------------------------------

write_ops = st.one_of(
    st.tuples(st.just("write"), st.integers(0, 9),
              st.sampled_from(["bytes", "bytearray"])),
    st.tuples(st.just("write"), st.integers(0, 9), st.just("bytes")),
    st.tuples(st.just("flush")), st.tuples(st.just("write_wait")),
    st.tuples(st.just("flush_wait")), st.tuples(st.just("pause")))
read_ops = st.one_of(
    st.tuples(st.just("read"), st.integers(1, 9)),
    st.tuples(st.just("readinto"), st.integers(1, 9)),
    st.tuples(st.just("readmatch")), st.tuples(st.just("read_wait")),
    st.tuples(st.just("pause")))
thread_cases = st.tuples(
    st.integers(1, 10), st.booleans(), st.booleans(),
    st.lists(st.lists(write_ops, min_size=1, max_size=6), min_size=1,
             max_size=2),
    st.lists(read_ops, max_size=8), st.sampled_from(["read", "readall"]),
    st.lists(st.integers(0, 5), max_size=60),
    st.one_of(st.none(), st.none(), st.none(), st.tuples(
        st.sampled_from(["eof", "close"]), st.integers(0, 12))))


def check_threads(case, c):
    size, rb, wb, writers, reads, rest, choices, end = case
    s = sched.Sched(choices)
    saved = streams.time, streams.threading
    streams.time = types.SimpleNamespace(time=s.time, sleep=s.sleep)
    streams.threading = s
    try:
        threads(s, case, c)
    except sched.Deadlock as e:
        fail("threads can't go on", str(e), case)
    finally:
        streams.time, streams.threading = saved


def threads(s, case, c):
    size, rb, wb, writers, reads, rest, choices, end = case
    p = streams.Pipe(size, rblocking=rb, wblocking=wb)
    rflag = s.Event()
    p.set_rflag(rflag)
    written = [[] for w in writers]
    state = {"open": len(writers), "ended": False}
    got = []

    def try_write(i, b):
        try:
            write(i, b)
            return True
        except IOError as e:
            ok(end is not None and e.errno == errno.EPIPE, "error of write",
               e, case)

    def write(i, b):
        while b:
            before = state["ended"]
            n = p.write(b)
            ok(not before, "write after the end", n, case)
            if n is None:
                ok(not wb, "write blocks", case)
                # the flag is set when there is a reader
                if not p.canwrite() and not rflag.wait(1000):
                    fail("no reader noticed", case)
                continue
            ok(n > 0, "progress of write", case)
            ok(n <= len(b), "size of write", case)
            written[i].append(bytes(b[:n]))
            b = b[n:]

    def writer(i, ops):
        n = 0
        for op in ops:
            if op[0].startswith("flush") and rb and ("readmatch",) in reads:
                # the reader may be waiting for a match
                continue
            if op[0] == "write":
                # bytes that tell where they come from, some line ends
                b = bytes((i * 100 + 32 + (n + k) % 60) if (n + k) % 7 else 10
                          for k in range(op[1]))
                n += op[1]
                if not try_write(
                        i, bytearray(b) if op[2] == "bytearray" else b):
                    break
            elif op[0] == "flush":
                try:
                    p.flush()
                    ok(wb or p.empty() or len(writers) > 1, "flushed", case)
                except io.BlockingIOError:
                    ok(not wb, "flush blocks", case)
            elif op[0] == "write_wait":
                try:
                    p.write_wait(5000)
                except IOError as e:
                    ok(end is not None and e.errno == errno.EPIPE,
                       "error of write_wait", e, case)
            elif op[0] == "flush_wait":
                p.flush_wait(5000)
            else:
                s.sleep(1)
        with p.lock:
            state["open"] -= 1
            if not state["open"]:
                p.write_eof()

    def ender():
        for i in range(end[1]):
            s.switch()
        if end[0] == "eof":
            p.write_eof()
        else:
            p.close()
        state["ended"] = True

    def reader():
        try:
            read_all()
        except (IOError, ValueError) as e:
            # "read of closed file" is a ValueError
            ok(end is not None and end[0] == "close", "error of read", e,
               case)

    def read_all():
        todo = list(reads)
        while True:
            op = todo.pop(0) if todo else (rest, 5)
            if op[0] == "pause":
                s.sleep(1)
                continue
            if op[0] == "read_wait":
                p.read_wait(5000)
                ok(p.canread(), "readable after the wait", case)
                continue
            if op[0] == "read":
                b = p.read(op[1])
            elif op[0] == "readinto":
                b = bytearray(op[1])
                n = p.readinto(b)
                b = None if n is None else bytes(b[:n])
            elif op[0] == "readall":
                b = p.readall()
                got.append(b)
                eq(p.readblocking(), rb, "mode after readall", case)
                eq(p.read(3), b"", "read after the end", case)
                return
            else:
                try:
                    b = p.readmatch(b"\n")
                except IOError as e:
                    eq(e.errno, errno.ENOBUFS, "error of readmatch", case)
                    continue
                if b == b"":
                    continue
                if b is not None:
                    eq(b.find(b"\n"), len(b) - 1, "match", b, case)
            if b is None:
                ok(not rb, "read blocks", case)
                p.read_wait(5000)
                if op[0] == "readmatch":
                    # there may be data without a match
                    todo.insert(0, ("read", 5))
                continue
            if not b:
                return
            got.append(b)

    for i, ops in enumerate(writers):
        s.add("writer %i" % i, lambda i=i, ops=ops: writer(i, ops))
    s.add("reader", reader)
    if end:
        s.add("end", ender)
    s.run()
    for t in s.tasks:
        if t.error is not None:
            raise t.error
    got = b"".join(got)
    if s.switches > 2 and got:
        c.nontrivial()
    c.label("%i writers" % len(writers), "rb" if rb else "rnb",
            "wb" if wb else "wnb")
    if end and end[0] == "close":
        if len(writers) == 1:
            ok(b"".join(written[0]).startswith(got), "data read", got,
               written, case)
        return
    eq(len(got), sum(len(b) for w in written for b in w), "bytes read", got,
       written, case)
    if len(writers) == 1:
        eq(got, b"".join(written[0]), "data read", case)
    else:
        # an interleaving of the two, apart from the line ends
        for i in (0, 1):
            eq(bytes(b for b in got if b >= 32 and b // 132 == i),
               bytes(b for b in b"".join(written[i]) if b >= 32),
               "data of writer %i" % i, got, case)


# -- the buffered wrapper ---------------------------------------------------------

class Source(io.RawIOBase):
    """delivers data in pieces, None where it blocks"""

    def __init__(self, pieces):
        self.todo = list(pieces)
        self.blocks = 0

    def read(self, n=-1):
        if not self.todo:
            return b""
        x = self.todo.pop(0)
        if x is None:
            self.blocks += 1
            return None
        if n >= 0 and len(x) > n:
            self.todo.insert(0, x[n:])
            x = x[:n]
        return x


pieces = st.lists(st.one_of(st.binary(min_size=1, max_size=9),
                            st.lists(st.sampled_from([b"a", b"\n", b"b\n"]),
                                     min_size=1, max_size=5).map(b"".join)),
                  max_size=6)
wrap_ops = st.one_of(
    st.tuples(st.just("read"), st.integers(0, 12)),
    st.tuples(st.just("read"), st.integers(0, 12)),
    st.tuples(st.just("readinto"), st.integers(0, 12)),
    st.tuples(st.just("peek"), st.integers(0, 12)),
    st.tuples(st.just("peek"), st.integers(0, 12)),
    st.tuples(st.just("readline"), st.integers(-1, 8)),
    st.tuples(st.just("readall")),
    st.tuples(st.just("seek"), st.integers(-6, 30), st.integers(0, 2)),
    st.tuples(st.just("seek"), st.integers(-6, 6), st.integers(1, 2)),
    st.tuples(st.just("tell")))
wrap_cases = st.tuples(
    pieces, st.lists(st.integers(0, 6), max_size=2), st.integers(1, 40),
    st.lists(wrap_ops, min_size=1, max_size=10))


def check_wrapper(case, c):
    pieces, blocks, size, ops = case
    src = list(pieces)
    for i in sorted(blocks, reverse=True):
        src.insert(min(i, len(src)), None)
    data = b"".join(pieces)
    source = Source(src)
    w = streams.BufferedStreamWrapper(source, size)
    whole = len(data) < size and not any(x is None for x in src)
    eq(w.seekable(), whole, "seekable", *case)
    eq(w.length, len(data) if whole else None, "length", *case)
    eq((w.readable(), w.writable()), (True, False), "modes", *case)
    pos = 0
    for j, op in enumerate(ops):
        msg = (pieces, blocks, size, j, ops[:j + 1])
        rest = data[pos:]
        before = source.blocks
        name = op[0]
        if name == "seek":
            new = op[1] + (0, pos, len(data))[op[2]]
            if not whole:
                try:
                    w.seek(op[1], op[2])
                    fail("seek in a stream that is not seekable", *msg)
                except io.UnsupportedOperation:
                    pass
                continue
            try:
                got = w.seek(op[1], op[2])
                ok(new >= 0, "seek before the start", *msg)
                eq(got, new, "result of seek", *msg)
                pos = new
                c.nontrivial()
            except (ValueError, IOError):
                ok(new < 0, "seek refused", *msg)
        elif name == "tell":
            pass
        elif name == "peek":
            got = w.peek(op[1])
            ok(len(got) <= op[1], "size of peek", got, *msg)
            eq(got, rest[:len(got)], "peek", *msg)
            if whole:
                eq(got, rest[:op[1]], "peek", *msg)
            elif pos < size and not any(x is None for x in src):
                ok(got or not rest or not op[1],
                   "peek at buffered data", *msg)
        else:
            if name == "read":
                n = op[1]
                got = w.read(n)
            elif name == "readinto":
                n = op[1]
                b = bytearray(b"\xee" * n)
                got = w.readinto(b)
                if got is not None:
                    eq(bytes(b[got:]), b"\xee" * (n - got),
                       "readinto leaves the rest alone", *msg)
                    got = bytes(b[:got])
            elif name == "readall":
                n = len(data) + 1
                got = w.read()
            else:
                n = op[1] if op[1] >= 0 else len(data) + 1
                n = min(n, (rest.find(b"\n") + 1) or n)
                try:
                    got = w.readline(op[1])
                except (TypeError, IOError):
                    # a limitation of the io classes
                    ok(source.blocks > before, "readline", *msg)
                    return
            if source.blocks > before:
                c.label("blocked")
                if got is None:
                    continue
                # may be shorter than it should
            elif n and rest:
                c.nontrivial()
                ok(got, "data is not at its end", *msg)
                if whole or name in ("readall", "readline"):
                    eq(got, rest[:n], name, *msg)
            eq(got, rest[:len(got)], name, *msg)
            ok(len(got) <= n, "size of %s" % name, got, *msg)
            pos += len(got)
        c.label(name)
        if whole:
            eq(w.tell(), pos, "tell", *msg)
        else:
            try:
                w.tell()
                fail("tell in a stream that is not seekable", *msg)
            except io.UnsupportedOperation:
                pass


PROPS = [
    Prop("pipe", pipe_cases, check_pipe, quick=16000,
         rule="data was read from the pipe"),
    Prop("threads", thread_cases, check_threads, quick=6000,
         rule="data was read, the schedule changed threads more than twice"),
    Prop("wrapper", wrap_cases, check_wrapper, quick=12000,
         rule="data was read or a position was set"),
]
