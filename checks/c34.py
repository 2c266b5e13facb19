"""C34: block-backed streams behave like files of bytes."""
import hashlib
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from pyslet import blockstore
from pyslet.vfs import OSFilePath

from vlib import Prop, eq, ok, fail
from . import odm

PROPERTY = "C34"

NN = {"Nullable": "false"}


def text(n):
    return dict(NN, MaxLength=str(n), Unicode="false")


SPEC = dict(
    types={
        "B": dict(props=[("hash", "String", text(64)),
                         ("data", "Binary", dict(NN, MaxLength="65536"))],
                  keys=["hash"]),
        "L": dict(props=[("hash", "String", text(64)),
                         ("owner", "String", text(32)),
                         ("created", "DateTime", dict(
                             NN, Precision="3", ConcurrencyMode="Fixed"))],
                  keys=["hash"]),
        "S": dict(props=[("streamID", "Int32", NN),
                         ("mimetype", "String", text(64)),
                         ("created", "DateTime", dict(NN, Precision="3")),
                         ("modified", "DateTime", dict(NN, Precision="3")),
                         ("size", "Int64", NN),
                         ("md5", "Binary", {"MaxLength": "16",
                                            "FixedLength": "true"})],
                  keys=["streamID"]),
        "K": dict(props=[("blockID", "Int64", NN), ("num", "Int32", NN),
                         ("hash", "String", text(64))], keys=["blockID"])},
    complex={}, sets={"Blocks": "B", "Locks": "L", "Streams": "S",
                      "BlockLists": "K"},
    assocs=[{"name": "A", "ends": [("Streams", "0..1", "S1", "Blocks"),
                                   ("BlockLists", "*", "K1", "Stream")]}])

KINDS = ["file", "mem", "sql"]
blob = st.one_of(st.binary(max_size=3),
                 st.lists(st.sampled_from([b"a", b"b", b"ab", b"\0", b"aaaa",
                                           b"abab"]), max_size=7).map(
                                               b"".join))
io_ops = st.one_of(
    st.tuples(st.just("write"), blob), st.tuples(st.just("write"), blob),
    st.tuples(st.just("write"), blob),
    st.tuples(st.just("read"), st.integers(0, 12)),
    st.tuples(st.just("readall")),
    st.tuples(st.just("seek"), st.integers(-10, 26), st.integers(0, 2)),
    st.tuples(st.just("seek"), st.integers(-5, 5), st.integers(1, 2)),
    st.tuples(st.just("seek"), st.integers(0, 20), st.just(0)),
    st.tuples(st.just("flush")))
ops = st.one_of(
    st.tuples(st.just("new"), st.sampled_from(
        ["text/plain", "application/octet-stream",
         "text/plain; charset=utf-8"])),
    st.tuples(st.just("open"), st.integers(0, 3), st.sampled_from(
        ["r", "r+", "r+", "w", "w+", "a"]),
        st.lists(io_ops, max_size=8)),
    st.tuples(st.just("open"), st.integers(0, 3), st.sampled_from(
        ["r+", "w", "w+"]), st.lists(io_ops, min_size=1, max_size=8)),
    st.tuples(st.just("delete"), st.integers(0, 3)))


def cases(kind):
    return st.tuples(st.just(kind), st.integers(1, 8), st.integers(0, 2),
                     st.lists(ops, min_size=1, max_size=7))


def check(case, c):
    kind, size, buffered, history = case
    scratch = tempfile.mkdtemp(prefix="verif-c34")
    try:
        with odm.Store(SPEC, "sql" if kind == "sql" else "mem") as store:
            es = store.container
            if kind == "file":
                bs = blockstore.FileBlockStore(
                    dpath=OSFilePath(scratch), max_block_size=size)
            else:
                bs = blockstore.EDMBlockStore(
                    entity_set=es["Blocks"], max_block_size=size)
            ls = blockstore.LockStore(entity_set=es["Locks"])
            ss = blockstore.StreamStore(bs=bs, ls=ls,
                                        entity_set=es["Streams"])
            World(case, c, es, bs, ss, scratch).run()
    finally:
        shutil.rmtree(scratch)


class World(object):

    def __init__(self, case, c, es, bs, ss, scratch):
        self.kind, self.size, self.buffered, self.history = case
        self.c = c
        self.es = es
        self.bs = bs
        self.ss = ss
        self.scratch = scratch
        # {stream key: bytes} in order of creation
        self.model = {}
        self.mime = {}

    def run(self):
        for mime in ("text/plain", "image/png"):
            self.do_new(mime)
        for j, op in enumerate(self.history):
            self.msg = (self.kind, self.size, self.buffered, j,
                        self.history[:j + 1])
            if op[0] == "new":
                self.do_new(op[1])
            else:
                keys = list(self.model)
                if not keys:
                    continue
                k = keys[op[1] % len(keys)]
                if op[0] == "delete":
                    self.ss.delete_stream(self.ss.get_stream(k))
                    if self.model[k]:
                        self.c.label("delete")
                    del self.model[k]
                    try:
                        self.ss.get_stream(k)
                        fail("a deleted stream is still there", *self.msg)
                    except KeyError:
                        pass
                else:
                    self.do_open(k, op[2], op[3])
            self.verify()

    def do_new(self, mime):
        s = self.ss.new_stream(mime)
        ok(s.key() not in self.model, "key of the new stream")
        self.model[s.key()] = b""
        self.mime[s.key()] = mime

    def do_open(self, k, mode, todo):
        # buffered: use the wrappers in the io module
        buffered = self.buffered == 1
        f = self.ss.open_stream(self.ss.get_stream(k), mode)
        msg = self.msg + (mode,)
        eq(f.readable(), mode[0] == "r" or "+" in mode, "readable", *msg)
        eq(f.writable(), mode != "r", "writable", *msg)
        ok(f.seekable(), "seekable", *msg)
        ref = io.BytesIO(self.model[k])
        if mode[0] == "w":
            ref = io.BytesIO()
        if mode == "a":
            ref.seek(0, 2)
        raw = f
        if buffered and mode != "a":
            if mode == "r":
                f = io.BufferedReader(f, 4)
            elif mode == "w":
                f = io.BufferedWriter(f, 4)
            else:
                f = io.BufferedRandom(f, 4)
        eq(f.tell(), ref.tell(), "position when opened", *msg)
        for op in todo:
            msg = self.msg + (mode, op)
            if op[0] == "write":
                data = op[1]
                if mode == "r":
                    try:
                        f.write(data)
                        fail("write to a stream opened for reading", *msg)
                    except IOError:
                        pass
                    continue
                b = data
                while b:
                    n = f.write(b)
                    ok(type(n) is int and 0 < n <= len(b), "bytes written",
                       n, *msg)
                    b = b[n:]
                ref.write(data)
                if data:
                    self.c.nontrivial()
                self.c.label("write")
            elif op[0] in ("read", "readall"):
                if mode in ("w", "a"):
                    if buffered:
                        continue
                    try:
                        f.read(op[1] if op[0] == "read" else -1)
                        fail("read from a stream opened for writing", *msg)
                    except IOError:
                        pass
                    continue
                if op[0] == "readall":
                    eq(f.read(), ref.read(), "readall", *msg)
                    continue
                want = ref.read(op[1])
                got = b""
                while len(got) < op[1]:
                    b = f.read(op[1] - len(got))
                    if not b:
                        break
                    got += b
                eq(got, want, "data read", *msg)
                if got:
                    self.c.label("read")
            elif op[0] == "seek":
                if mode == "a":
                    continue
                pos = ref.tell()
                new = op[1] + (0, pos, len(ref.getvalue()))[op[2]]
                if buffered and new < 0:
                    continue
                try:
                    got = f.seek(op[1], op[2])
                    ok(new >= 0, "position before the start", *msg)
                    eq(got, new, "result of seek", *msg)
                    ref.seek(new)
                    self.c.label("seek")
                except (ValueError, IOError):
                    ok(new < 0, "seek refused", *msg)
            else:
                f.flush()
                raw.flush()
                if mode != "r":
                    self.model[k] = ref.getvalue()
                    self.verify()
            eq(f.tell(), ref.tell(), "position", *msg)
        f.close()
        ok(raw.closed, "closed", *msg)
        for g in (lambda: f.read(1), lambda: f.write(b"x")):
            try:
                g()
                fail("use of a closed stream", *msg)
            except (ValueError, IOError):
                pass
        if mode != "r":
            self.model[k] = ref.getvalue()

    def verify(self):
        msg = self.msg
        used = set()
        with self.es["Streams"].open() as coll:
            eq(sorted(coll), sorted(self.model), "streams", *msg)
        for k, data in self.model.items():
            s = self.ss.get_stream(k)
            eq(s["size"].value, len(data), "size", *msg)
            eq(s["mimetype"].value, self.mime[k], "media type", *msg)
            ok(s["md5"].value in (None, hashlib.md5(data).digest()),
               "MD5 checksum of", s["md5"].value, data, *msg)
            with self.ss.open_stream(s) as f:
                eq(f.read(), data, "content of stream", k, *msg)
            used |= set(hashlib.sha256(data[i:i + self.size]).hexdigest()
                        for i in range(0, len(data), self.size))
        eq(sorted(self.blocks()), sorted(used), "blocks stored", *msg)
        with self.es["Locks"].open() as coll:
            eq(len(coll), 0, "locks left", *msg)

    def blocks(self):
        if self.kind == "file":
            for path, dirs, files in os.walk(self.scratch):
                rel = os.path.relpath(path, self.scratch)
                for name in files:
                    ok(rel != "tmp", "temporary files left", name, *self.msg)
                    yield rel.replace(os.sep, "") + name
        else:
            with self.es["Blocks"].open() as coll:
                for k in coll:
                    yield k


# -- block stores -------------------------------------------------------------

store_ops = st.one_of(
    st.tuples(st.just("store"), st.binary(max_size=10),
              st.sampled_from([bytes, bytearray])),
    st.tuples(st.just("store"), st.sampled_from([b"", b"a", b"b" * 9]),
              st.sampled_from([bytes, bytearray])),
    st.tuples(st.just("retrieve"), st.integers(0, 5)),
    st.tuples(st.just("delete"), st.integers(0, 5)))
store_cases = st.tuples(
    st.sampled_from(KINDS), st.integers(0, 9),
    st.sampled_from(["md5", "sha1", "sha256"]),
    st.lists(store_ops, min_size=1, max_size=10))


def check_store(case, c):
    kind, size, hname, history = case
    hclass = getattr(hashlib, hname)
    scratch = tempfile.mkdtemp(prefix="verif-c34")
    try:
        with odm.Store(SPEC, "sql" if kind == "sql" else "mem") as store:
            if kind == "file":
                def make():
                    return blockstore.FileBlockStore(
                        dpath=OSFilePath(scratch), max_block_size=size,
                        hash_class=hclass)
            else:
                def make():
                    return blockstore.EDMBlockStore(
                        entity_set=store.container["Blocks"],
                        max_block_size=size, hash_class=hclass)
            bs = make()
            model = {}
            seen = [hclass(b"unknown").hexdigest()]
            for j, op in enumerate(history):
                msg = (kind, size, hname, j, history[:j + 1])
                if op[0] == "store":
                    try:
                        key = bs.store(op[2](op[1]))
                        ok(len(op[1]) <= size, "block above the maximum "
                           "size", *msg)
                        eq(key, hclass(op[1]).hexdigest(), "key", *msg)
                        eq(bs.key(op[2](op[1])), key, "key", *msg)
                        model[key] = op[1]
                        seen.append(key)
                    except blockstore.BlockSize:
                        ok(len(op[1]) > size, "block size refused", *msg)
                else:
                    key = seen[op[1] % len(seen)]
                    if op[0] == "delete":
                        bs.delete(key)
                        if model.pop(key, None) is not None:
                            c.nontrivial()
                if j % 3 == 2:
                    # another instance for the same place
                    bs = make()
                for key in seen:
                    try:
                        eq(bs.retrieve(key), model.get(key), "block", *msg)
                    except blockstore.BlockMissing:
                        ok(key not in model, "missing block", *msg)
    finally:
        shutil.rmtree(scratch)


RULE = "data was written to a stream"
PROPS = [Prop("blocks", store_cases, check_store, quick=1200,
              rule="a block was deleted")] + [
    Prop(kind, cases(kind), check, quick=1200 if kind == "sql" else 2500,
         rule=RULE) for kind in KINDS]
