"""C27: virtual file paths and file URLs."""
import os
import posixpath
import re
import shutil
import tempfile

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet import vfs

from vlib import Prop, eq, ok, raises

PROPERTY = "C27"
ASSUMPTIONS = ["POSIX paths (no drives or UNC)"]


class ScratchMem(vfs.MemFilePath):
    """An in-memory file system of its own"""
    fs_name = "scratch.verif"
    _fsdir = {}
    _wd = None


vfs.register_file_system(ScratchMem)


def names():
    return st.one_of(
        st.sampled_from(["a", "b", "c", "dir", "file.txt", "a.b.c", ".hid",
                         "..x", "...", ".a.b", "x.", "a b", "a%20b", "a?b",
                         "a#b", "a;b", "C:", "a&b", "\u00e9", "\u4e2d\u6587",
                         "\U0001d11e", "a+b=c", "~", "-", "[x]", "a\\b",
                         "a\nb", "%2F", "%"]),
        st.text(st.characters(exclude_categories=("Cs",),
                              exclude_characters="\0/"), min_size=1,
                max_size=6)).filter(lambda s: s not in (".", ".."))


def comps():
    return st.lists(st.one_of(names(), names(), st.sampled_from(
        [".", "..", "", "a", "b"])), max_size=6)


def path_text():
    def fix(t):
        lead, segs, trail = t
        p = "/".join(segs)
        if lead:
            p = "/" + p.lstrip("/")
        elif p.startswith("/"):
            p = p.lstrip("/")
        if trail and p:
            p = p.rstrip("/") + "/"
        return p
    return st.tuples(st.booleans(), comps(), st.booleans()).map(fix)


def check_paths(case, c):
    p, more, byt = case
    c.nontrivial("/" in p.strip("/") or ".." in p)
    for fs in (ScratchMem, vfs.OSFilePath):
        x = fs(p.encode("utf-8") if byt else p)
        eq(str(x), p, "text of the path", fs.__name__)
        eq(x.to_bytes(), p.encode("utf-8"), "bytes of the path")
        ok(x == fs(p) and hash(x) == hash(fs(p)) and x == p, "equality", p)
        eq(bool(x), bool(p), "empty paths are false")
        eq(x.is_empty(), not p, "is_empty")
        eq(x.isabs(), p.startswith("/"), "isabs", p)
        eq(x.is_single_component(), "/" not in p, "single component", p)
        eq(x.is_dirlike(), p.endswith("/") or p.endswith("/."), "dirlike", p)
        # normal form
        n = x.normpath()
        eq(str(n), posixpath.normpath(p), "normal form", fs.__name__, p)
        eq(str(n.normpath()), str(n), "normal form is normal", p)
        # split and join are inverse
        h, t = x.split()
        eq(str(t), posixpath.split(p)[1], "last component", p)
        eq(str(h.normpath()), posixpath.normpath(posixpath.split(p)[0]),
           "head", fs.__name__, p)
        eq(str(h.join(t).normpath()), str(n), "join of split", p)
        eq(x.is_root(), p.startswith("/") and not p.strip("/"), "root", p)
        r, e = x.splitext()
        eq((str(r), e), posixpath.splitext(p), "splitext", fs.__name__, p)
        # joins
        exp = posixpath.join(p, *more)
        eq(str(x.join(*more)), exp, "join", fs.__name__, p, more)
        eq(str(fs(p, *more)), exp, "constructed from components",
           fs.__name__, p, more) if p else None
        a = x.abspath()
        eq(str(a), posixpath.normpath(posixpath.join(
            "/" if fs is ScratchMem else os.getcwd(), p)), "abspath", p)
        ok(a.isabs(), "absolute")
        # order is that of the text
        y = fs(exp)
        eq((x < y, x == y, x > y), (p < exp, p == exp, p > exp), "order", p,
           exp)
    ok(raises(TypeError, lambda: ScratchMem(vfs.OSFilePath(p)))
       is not None, "path of another file system accepted")


def check_url(case, c):
    p, fsn = case
    fs = {"os": vfs.OSFilePath, "mem": ScratchMem}[fsn]
    x = fs(p)
    u = uri.URI.from_virtual_path(x)
    ok(isinstance(u, uri.FileURL), "class of a file URL")
    ok(re.match(r"file://[a-z.]*/[!-~]*\Z", str(u)), "text of the URL",
       str(u))
    c.nontrivial(any(ch in p for ch in "%?#;") or not p.isascii())
    back = u.get_virtual_file_path()
    eq(type(back), fs, "file system of the URL", str(u))
    want = str(x.abspath())
    got = str(back)
    if x.is_dirlike() and want != "/":
        want += "/"
    eq(got.rstrip("/") or "/", want.rstrip("/") or "/", "path of the URL", p,
       str(u))
    if want != "/":
        eq(got, want, "directory-like paths stay so", p, str(u))
    # the URL survives as text
    v = uri.URI.from_octets(str(u))
    ok(v == u and str(v) == str(u), "URL parsed again", str(u))
    eq(str(v.get_virtual_file_path()), got, "path of the parsed URL")
    if not u.query is None:
        ok(False, "path characters taken for a query", str(u))
    eq(u.fragment, None, "path characters taken for a fragment", str(u))
    segs = [s for s in want.split("/")]
    if not want.endswith("/"):
        eq(u.get_file_name(), segs[-1], "file name of the URL", str(u))
    if fsn == "os":
        w = uri.URI.from_path(p)
        eq(str(w), str(u), "from_path")
        eq(w.get_pathname(), got, "get_pathname")
        eq(w.get_pathname(True), got.encode("utf-8"), "8-bit pathname")
    else:
        ok(raises(uri.URIException, u.get_pathname) is not None,
           "a virtual path is not a native path")


# -- the in-memory file system against a model ------------------------------

ops = st.one_of(
    st.tuples(st.just("mkdir"), st.integers(0, 9), st.integers(0, 3)),
    st.tuples(st.just("mkdir"), st.integers(0, 9), st.integers(0, 3)),
    st.tuples(st.just("makedirs"), st.integers(0, 9), st.lists(
        st.integers(0, 3), min_size=1, max_size=3)),
    st.tuples(st.just("write"), st.integers(0, 9), st.integers(0, 3),
              st.binary(max_size=20)),
    st.tuples(st.just("write"), st.integers(0, 9), st.integers(0, 3),
              st.binary(max_size=20)),
    st.tuples(st.just("append"), st.integers(0, 9), st.integers(0, 3),
              st.binary(max_size=20)),
    st.tuples(st.just("update"), st.integers(0, 9), st.integers(0, 3),
              st.integers(0, 20), st.binary(max_size=20)),
    st.tuples(st.just("read"), st.integers(0, 9), st.integers(0, 3)),
    st.tuples(st.just("copy"), st.integers(0, 9), st.integers(0, 3),
              st.integers(0, 9), st.integers(0, 4)),
    st.tuples(st.just("remove"), st.integers(0, 9), st.integers(0, 3)),
    st.tuples(st.just("rmtree"), st.integers(0, 9), st.booleans()),
    st.tuples(st.just("chdir"), st.integers(0, 9)),
    st.tuples(st.just("busy"), st.integers(0, 9), st.integers(0, 3)),
)
NAMES = ["a", "b", "a.b", "\u00e9", None]


def model_cases():
    return st.tuples(st.lists(ops, max_size=14), st.integers(0, 3))


class Model(object):

    def __init__(self):
        self.d = {"/": None, "/top": None}

    def dirs(self):
        return sorted(k for k, v in self.d.items() if v is None)

    def kids(self, p):
        return sorted(k[len(p.rstrip("/")) + 1:] for k in self.d
                      if k != "/" and posixpath.dirname(k) == p)


def ref(fs, p, style, cwd):
    """The path p written in one of several ways"""
    if style == 0:
        return fs(p)
    elif style == 1:
        return fs(posixpath.relpath(p, cwd))
    elif style == 2:
        h, t = posixpath.split(p)
        return fs(h.rstrip("/") + "/./zz/../" + t) if t else fs(p)
    return fs(posixpath.dirname(p), posixpath.basename(p)) \
        if p != "/" else fs(p)


def check_model(case, c):
    seq, style = case
    fs = ScratchMem
    fs._fsdir = {}
    fs._wd = None
    m = Model()
    fs("/top").mkdir()
    cwd = "/"
    ERR = (OSError, IOError)
    for op in seq:
        dirs = m.dirs()
        d = dirs[op[1] % len(dirs)]
        kind = op[0]
        if kind in ("mkdir", "write", "append", "read", "remove", "update",
                    "copy", "busy"):
            p = posixpath.join(d, NAMES[op[2]])
            x = ref(fs, p, style, cwd)
            what = m.d.get(p, 0)
        if kind == "mkdir":
            e = raises(ERR, x.mkdir)
            eq(e is None, what == 0, "mkdir succeeds when nothing is there",
               p)
            if what == 0:
                m.d[p] = None
        elif kind == "makedirs":
            p = posixpath.join(d, *[NAMES[i] for i in op[2]])
            parts = []
            q = p
            while q != "/":
                parts.insert(0, q)
                q = posixpath.dirname(q)
            if any(isinstance(m.d.get(q), bytes) for q in parts[:-1]):
                continue
            e = raises(ERR, ref(fs, p, style, cwd).makedirs)
            if isinstance(m.d.get(p), bytes):
                ok(e is not None, "makedirs over a file", p)
            else:
                ok(e is None, "makedirs", p, e)
                for q in parts:
                    m.d[q] = None
        elif kind in ("write", "append", "read", "update"):
            mode = {"write": "wb", "append": "ab", "read": "rb",
                    "update": "r+b"}[kind]
            good = isinstance(what, bytes) or (
                what == 0 and kind in ("write", "append"))
            try:
                f = x.open(mode)
            except ERR as e:
                ok(not good, "open refused", mode, p, e)
                continue
            with f:
                ok(good, "open succeeded", mode, p, what)
                old = what or b""
                if kind == "read":
                    eq(f.read(), old, "contents", p)
                elif kind == "write":
                    f.write(op[3])
                    m.d[p] = op[3]
                elif kind == "append":
                    f.write(op[3])
                    m.d[p] = old + op[3]
                else:
                    pos = min(op[3], len(old))
                    f.seek(pos)
                    f.write(op[4])
                    m.d[p] = old[:pos] + op[4] + old[pos + len(op[4]):]
        elif kind == "copy":
            d2 = dirs[op[3] % len(dirs)]
            name = NAMES[op[4]]
            q = d2 if name is None else posixpath.join(d2, name)
            dst = ref(fs, q, style, cwd)
            if m.d.get(q, 0) is None:
                q2 = posixpath.join(q, posixpath.basename(p))
            else:
                q2 = q
            if q2 == p or m.d.get(q2, 0) is None:
                continue
            e = raises(ERR, x.copy, dst)
            eq(e is None, isinstance(what, bytes), "copy", p, q, e)
            if e is None:
                m.d[q2] = what
        elif kind == "remove":
            e = raises(ERR, x.remove)
            eq(e is None, isinstance(what, bytes), "remove", p, e)
            if e is None:
                del m.d[p]
        elif kind == "busy":
            if not isinstance(what, bytes):
                continue
            with x.open("rb"):
                ok(raises(ERR, x.remove) is not None, "open file removed")
                ok(raises(ERR, fs(d).rmtree) is not None,
                   "tree of an open file removed")
        elif kind == "rmtree":
            if d == "/" or cwd == d or cwd.startswith(d + "/"):
                continue
            ref(fs, d, style, cwd).rmtree(op[2])
            for k in list(m.d):
                if k == d or k.startswith(d + "/"):
                    del m.d[k]
            if d == "/top":
                m.d["/top"] = None
                fs("/top").mkdir()
        elif kind == "chdir":
            ref(fs, d, style, cwd).chdir()
            cwd = d
            eq(str(fs.getcwd().normpath()), d, "working directory")
        c.label(kind)
        # everything visible is as in the model
        for k in list(m.d) + ["/top/zz", "/zz/a"]:
            v = m.d.get(k, 0)
            x = ref(fs, k, style, cwd)
            eq((x.exists(), x.isdir(), x.isfile()),
               (v != 0, v is None, isinstance(v, bytes)),
               "what exists", k, op)
            if v is None:
                eq(sorted(str(t) for t in x.listdir()), m.kids(k),
                   "directory listing", k, op)
            elif v != 0:
                with x.open("rb") as f:
                    eq(f.read(), v, "file contents", k, op)
                ok(raises(ERR, x.listdir) is not None, "listing of a file")
    c.nontrivial(len(m.d) > 3)


# -- native files ------------------------------------------------------------

def os_cases():
    nm = names().filter(lambda s: len(s.encode()) < 60)
    return st.lists(st.tuples(st.sampled_from(
        ["mkdir", "makedirs", "write", "remove", "copy", "move", "append"]),
        st.integers(0, 5), nm, nm, st.binary(max_size=12)), max_size=6)


def check_os(case, c):
    """Operations on native paths do what the os module does, seen through
    the os module.  (The only deleting operation used removes one file,
    named by an absolute path in a scratch directory.)"""
    top = tempfile.mkdtemp()
    try:
        m = {}
        dirs = [""]
        for kind, i, n1, n2, data in case:
            d = dirs[i % len(dirs)]
            rel = posixpath.join(d, n1)
            full = os.path.join(top, rel)
            x = vfs.OSFilePath(top).join(d, n1) if d else \
                vfs.OSFilePath(top, n1)
            have = m.get(rel, 0)
            if kind == "mkdir":
                e = raises(OSError, x.mkdir)
                eq(e is None, have == 0, "mkdir", rel)
                if e is None:
                    m[rel] = None
                    dirs.append(rel)
            elif kind == "makedirs":
                if have != 0:
                    continue
                x.join(n2).makedirs()
                m[rel] = None
                m[rel + "/" + n2] = None
                dirs += [rel, rel + "/" + n2]
            elif kind in ("write", "append"):
                if have is None:
                    continue
                with x.open("wb" if kind == "write" else "ab") as f:
                    f.write(data)
                m[rel] = data if kind == "write" else (have or b"") + data
            elif kind == "remove":
                if isinstance(have, bytes):
                    x.remove()
                    del m[rel]
            else:
                r2 = posixpath.join(d, n2)
                if not isinstance(have, bytes) or m.get(r2, 0) is None or \
                        r2 == rel:
                    continue
                y = vfs.OSFilePath(os.path.join(top, r2))
                if kind == "copy":
                    x.copy(y)
                else:
                    x.move(y)
                    del m[rel]
                m[r2] = have
            c.label(kind)
        c.nontrivial(len(m) > 1)
        seen = {}
        for dp, dn, fn in os.walk(top):
            for n in dn:
                seen[os.path.relpath(os.path.join(dp, n), top)] = None
            for n in fn:
                with open(os.path.join(dp, n), "rb") as f:
                    seen[os.path.relpath(os.path.join(dp, n), top)] = \
                        f.read()
        eq(seen, m, "files on disk")
        # and seen through the virtual paths
        got = {}
        for dp, dn, fn in vfs.OSFilePath(top).walk():
            for n in dn:
                got[os.path.relpath(str(dp.join(n)), top)] = None
            for n in fn:
                p = dp.join(n)
                ok(p.exists() and p.isfile() and not p.isdir(), "isfile")
                with p.open("rb") as f:
                    got[os.path.relpath(str(p), top)] = f.read()
        eq(got, m, "walk")
        for d in dirs:
            p = vfs.OSFilePath(top, d)
            ok(p.exists() and p.isdir() and not p.isfile(), "isdir", d)
            eq(sorted(str(n) for n in p.listdir()), sorted(
                os.listdir(os.path.join(top, d))), "listdir", d)
    finally:
        shutil.rmtree(top, ignore_errors=True)


PROPS = [
    Prop("paths", st.tuples(path_text(), st.lists(path_text(), max_size=3),
                            st.booleans()), check_paths, quick=6000,
         rule="path operations of native and in-memory paths against "
         "posixpath; non-trivial: several components or .."),
    Prop("urls", st.tuples(path_text(), st.sampled_from(["os", "mem"])),
         check_url, quick=6000,
         rule="path to file URL and back; non-trivial: characters which "
         "need escaping"),
    Prop("memory file system", model_cases(), check_model, quick=2500,
         rule="histories of operations on the in-memory file system "
         "against a dictionary model, everything compared after each step; "
         "non-trivial: more than three items"),
    Prop("native file system", os_cases(), check_os, quick=1500,
         rule="operations in a scratch directory, observed with the os "
         "module"),
]
