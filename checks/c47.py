"""C47: WSGI requests reach their handler, are read and answered exactly."""
import html
import io
import json
import logging
import os
import re
import shutil
import tempfile
from urllib.parse import (parse_qs, quote, quote_plus, unquote_to_bytes,
                          urlsplit)

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet import wsgi

from vlib import Prop, eq, fail, ok, raises

PROPERTY = "C47"


class App(wsgi.WSGIApp):

    ContextClass = wsgi.WSGIContext
    settings = {"WSGIApp": {"canonical_root": None}}
    static_files = None

    def init_dispatcher(self):
        pass


def environ(path="/", query="", script="", method="GET", body=b"",
            ctype=None, clen=None, root="http://localhost:8080"):
    scheme, rest = root.split("://")
    host, _, port = rest.partition(":")
    env = {
        "REQUEST_METHOD": method, "SCRIPT_NAME": script, "PATH_INFO": path,
        "QUERY_STRING": query, "SERVER_NAME": host, "HTTP_HOST": "evil.com",
        "SERVER_PORT": port or ("443" if scheme == "https" else "80"),
        "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0),
        "wsgi.url_scheme": scheme, "wsgi.input": io.BytesIO(body),
        "wsgi.errors": io.StringIO(), "wsgi.multithread": False,
        "wsgi.multiprocess": False, "wsgi.run_once": False}
    if method == "POST":
        env["CONTENT_LENGTH"] = str(len(body)) if clen is None else clen
        if ctype is not None:
            env["CONTENT_TYPE"] = ctype
    return env


def call(app, env, what):
    calls = []

    def start(status, headers, exc_info=None):
        calls.append((status, headers))
        return lambda data: None

    logging.disable(logging.CRITICAL)
    try:
        result = app(env, start)
        parts = list(result)
    finally:
        logging.disable(logging.NOTSET)
    for p in parts:
        ok(isinstance(p, bytes), "part of a response is not bytes", what, p)
    eq(len(calls), 1, "calls of start_response for %r" % (what,))
    status, headers = calls[0]
    ok(re.match(r"^[1-5][0-9]{2} \S", status), "status", what, status)
    h = {}
    for n, v in headers:
        ok(isinstance(n, str) and isinstance(v, str), "header", what, n, v)
        ok(n.lower() not in h, "header given twice", what, n)
        h[n.lower()] = v
    body = b"".join(parts)
    eq(h.get("content-length"), str(len(body)),
       "content length for %r" % (what,))
    ok("content-type" in h, "no content type", what)
    return int(status[:3]), h, body


# -- dispatch ----------------------------------------------------------------

NAMES = ["a", "b", "c", "x.png", "\xe9", ""]


def patterns():
    seg = st.sampled_from(["a", "a", "b", "b", "c", "*", "*", "x.png", "\xe9"])

    @st.composite
    def build(draw):
        segs = draw(st.lists(seg, min_size=0, max_size=4))
        end = draw(st.sampled_from(["", "", "/", "/*"]))
        s = "".join("/" + x for x in segs) + end
        return s or "/"
    return build()


def paths():
    seg = st.sampled_from(["a", "a", "b", "b", "c", "x.png", "\xe9", "d",
                           "", "*"])
    return st.tuples(st.lists(seg, max_size=5),
                     st.sampled_from(["", "", "/"])).map(
        lambda t: "".join("/" + s for s in t[0]) + t[1])


@st.composite
def near(draw):
    """Patterns that match the path, or part of it"""
    segs = draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1,
                         max_size=5))
    pats = []
    for i in range(draw(st.integers(1, 6))):
        p = ["*" if draw(st.integers(0, 2)) == 2 else x for x in segs]
        kind = draw(st.sampled_from(["whole", "more", "tail", "twist",
                                     "twist"]))
        k = draw(st.integers(0, len(p) - 1))
        if kind == "more":
            p.append(draw(st.sampled_from(["a", "*", ""])))
        elif kind == "tail":
            p[k + 1:] = ["*"]
        elif kind == "twist":
            p[k] = draw(st.sampled_from(["a", "b", "d"]))
        pats.append("/" + "/".join(p))
    return (pats, "/" + "/".join(segs))


def matches(pattern, path):
    p = pattern.split("/")
    s = path.split("/")
    if p[-1] == "*":
        # any sequence of segments; a missing final slash is ignored
        stem = p[:-1]
        return len(s) >= len(stem) and all(
            x == "*" or x == y for x, y in zip(stem, s))
    return len(p) == len(s) and all(
        x == "*" or x == y for x, y in zip(p, s))


def check_dispatch(case, c):
    pats, path = case
    app = App()
    for i, p in enumerate(pats):
        app.set_method(p, (lambda i: lambda context: page(
            app, context, i))(i))
    last = dict((p, i) for i, p in enumerate(pats))
    which = [p for p in last if matches(p, path)]
    status, h, body = call(app, environ(path), (pats, path))
    if not which:
        c.label("none")
        eq(status, 404, "status of a path with no handler: %r" % (case,))
        return
    eq(status, 200, "status of a path with a handler: %r" % (case,))
    got = pats[int(body)]
    ok(got in which, "handler of another path", case, got)
    eq(int(body), last[got], "an earlier registration was used: %r" % (case,))
    exact = [p for p in which if "*" not in p]
    if path in exact:
        c.label("exact")
        eq(got, path, "named path is not preferred: %r" % (case,))
    else:
        # a whole match segment by segment is preferred to a match of any
        # sequence of segments that is longer than one
        c.label("%i wild" % min(3, len(which)))
        # a handler of everything below /a/b is preferred to one of
        # everything below /a
        tails = [p for p in which if p.endswith("/*")]
        if got in tails and len(tails) == len(which) and \
                "" not in path.split("/")[1:]:
            for p in tails:
                ok("*" in p[:-1] or not p.startswith(got[:-1]) or p == got,
                   "handler further up is preferred", case, got, p)
    c.nontrivial(len(which) > 1 or "*" in got)


def page(app, context, i):
    context.set_status(200)
    return app.text_response(context, str(i))


# -- what the client sent ----------------------------------------------------

ROOTS = ["http://localhost:8080", "https://www.example.com",
         "http://www.example.com", "https://www.example.com:8443"]


def raw_text(alphabet, n):
    return st.text(alphabet, max_size=n)


PATH_CHARS = "ab/._-~ %?#&=+;:@!$'()*,[]{}|\\^\"<>\xe9\xff\u4e00"


def requests():
    name = st.text("ab =&+%;\xe9\u4e00", min_size=1, max_size=4)
    value = st.text("ab =&+%;,\xe9\u4e00\n", max_size=6)
    return st.tuples(
        st.sampled_from(ROOTS), st.sampled_from(["", "/app", "/a b/\xe9",
                                                 "/script.py/", "/"]),
        raw_text(PATH_CHARS, 10).map(lambda s: "/" + s if s else s),
        st.lists(st.tuples(name, value), max_size=5),
        st.lists(st.tuples(name, value), max_size=5),
        st.sampled_from(["none", "url", "url", "multi", "file"]),
        st.booleans())


def wsgi_str(s):
    return s.encode("utf-8").decode("latin-1")


def joined(pairs):
    out = {}
    for n, v in pairs:
        out.setdefault(n, []).append(v)
    return out


def check_request(case, c):
    root, script, path, query, form, kind, canonical = case
    if script == "/" and path[:1] == "/":
        path = path[1:]
    qs = "&".join("%s=%s" % (quote_plus(n), quote_plus(v)) for n, v in query)
    ctype = None
    body = b""
    if kind == "url":
        ctype = "application/x-www-form-urlencoded"
        body = "&".join("%s=%s" % (quote_plus(n), quote_plus(v))
                        for n, v in form).encode("ascii")
    elif kind in ("multi", "file"):
        # names in headers are plain
        form = [("n%i" % (len(n) % 3), v.replace("\n", " ")) for n, v in form]
        if not form:
            form = [("n0", "x")]
        ctype = "multipart/form-data; boundary=XyZ"
        for i, (n, v) in enumerate(form):
            extra = "; filename=\"f\"\r\nContent-Type: text/plain; " \
                "charset=utf-8" if kind == "file" and i % 2 else ""
            body += ("--XyZ\r\nContent-Disposition: form-data; name=\"%s\"%s"
                     "\r\n\r\n%s\r\n" % (n, extra, v)).encode("utf-8")
        body += b"--XyZ--\r\n"
    env = environ(wsgi_str(path), qs, wsgi_str(script),
                  "GET" if kind == "none" else "POST", body, ctype, root=(
                      "http://internal:99" if canonical else root))
    before = dict(env)
    ctx = wsgi.WSGIContext(env, None, root if canonical else None)
    url = ctx.get_url()
    ok(isinstance(url, uri.URI), "url is not a URI", case)
    s = str(url)
    ok(s.startswith(root + "/") or not (script + path),
       "url does not start with the root", case, s)
    head, _, q = s.partition("?")
    eq(unquote_to_bytes(head[len(root):]), (script + path).encode("utf-8"),
       "path of the url %s" % s)
    eq(q, qs, "query of the url")
    base = str(ctx.get_app_root())
    eq(unquote_to_bytes(base[len(root):]),
       (script if script.endswith("/") else script + "/").encode("utf-8"),
       "root of the application %s" % base)
    ok(base.startswith(root + "/"), "root of the application", case, base)
    want = dict((n, ",".join(vs)) for n, vs in joined(
        (n, v) for n, v in query if v).items())
    eq(ctx.get_query(), want, "query parameters of %s" % qs)
    if kind != "none":
        fields = joined(form)
        for n, vs in sorted(fields.items()):
            eq(ctx.get_form_string(n), ",".join(vs),
               "field %r of a form sent as %r" % (n, body))
        eq(ctx.get_form_string("missing"), "", "missing field")
        ctx2 = wsgi.WSGIContext(dict(before, **{
            "wsgi.input": io.BytesIO(body + b"next")}), None, root)
        eq(ctx2.get_content(), body, "content")
        eq(ctx2.get_content(), body, "content again")
    c.label(kind)
    c.nontrivial(bool(query or form) and len(path) > 1)


def limit_cases():
    return st.tuples(st.integers(0, 300), st.integers(0, 300),
                     st.sampled_from(["url", "multi"]), st.booleans(),
                     st.sampled_from(["12", "-7", "", "x", "1.5", "0", " 3",
                                      "1e3", "99999999999999999999"]))


def check_limits(case, c):
    n, limit, kind, twice, number = case
    v = "v" * n

    def context(fields):
        if kind == "url":
            body = "&".join("%s=%s" % (a, quote_plus(b))
                            for a, b in fields).encode("ascii")
            ctype = "application/x-www-form-urlencoded"
        else:
            ctype = "multipart/form-data; boundary=XyZ"
            body = "".join(
                "--XyZ\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n"
                "%s\r\n" % f for f in fields).encode("ascii") + b"--XyZ--\r\n"
        return wsgi.WSGIContext(
            environ(method="POST", body=body, ctype=ctype), None), body

    ctx, body = context([("f", v)] * (1 + twice) + [("k", number)])
    c.nontrivial(n > 0)
    if kind == "multi" and n > limit:
        ok(raises(wsgi.BadRequest, ctx.get_form_string, "f", limit)
           is not None, "large field accepted", case)
        c.label("limited")
    elif kind == "multi":
        eq(ctx.get_form_string("f", limit), ",".join([v] * (1 + twice)),
           "field within its limit")
    try:
        want = int(number)
    except ValueError:
        want = None
    if want is None:
        ok(raises(wsgi.BadRequest, ctx.get_form_long, "k") is not None,
           "bad integer accepted", number)
    else:
        eq(ctx.get_form_long("k"), want, "integer field")
    ctx, body = context([("f", v)])
    ctx.MAX_CONTENT = limit
    if len(body) > limit:
        ok(raises(wsgi.BadRequest, ctx.get_content) is not None,
           "large content read", case)
    else:
        eq(ctx.get_content(), body, "content within the limit")


# -- responses ---------------------------------------------------------------

def response_cases():
    text = st.text(st.sampled_from("ab<>&\"'\n\r\t\xe9\u4e00\U0001f600 %?/="),
                   max_size=12)
    return st.tuples(
        st.sampled_from(["html", "text", "json", "redirect", "error"]),
        st.one_of(text, text, st.binary(max_size=8)),
        st.sampled_from([200, 404, 400, 301, 302, 307, 403, 500, 299]))


def check_response(case, c):
    kind, data, code = case
    app = App()
    if kind == "redirect":
        if isinstance(data, bytes):
            data = data.decode("latin-1")
        data = "http://localhost/" + quote(data, safe="?/=&'")
        code = code if code // 100 == 3 else 303

    def handler(context):
        if kind == "redirect":
            return app.redirect_page(context, data if len(data) % 2 else
                                     uri.URI.from_octets(data), code)
        if kind == "error":
            return app.error_page(context, code, data or None)
        context.set_status(code)
        return getattr(app, kind + "_response")(context, data)

    app.set_method("/p", handler)
    status, h, body = call(app, environ("/p"), case)
    eq(status, code, "status of %r" % (case,))
    ctype = h["content-type"]
    c.label(kind)
    if kind == "redirect":
        eq(h["location"], data, "location")
        page = body.decode("ascii")
        m = re.findall(r"<a href=(\"[^\"]*\"|'[^']*')>", page)
        eq(len(m), 1, "links in the page %s" % page)
        eq(html.unescape(m[0][1:-1]), data, "link in the page")
        c.nontrivial("?" in data or "&" in data or "'" in data)
        return
    if kind == "error" and not data:
        ok(body.startswith(b"%i " % code), "body of an error page", body)
        return
    if isinstance(data, bytes):
        eq(body, data, "body")
    else:
        charset = "utf-8" if "charset=utf-8" in ctype or kind == "json" \
            else "ascii"
        eq(body.decode(charset), data, "body as %s" % ctype)
        c.nontrivial(not data.isascii())
    eq(ctype.split(";")[0], dict(
        html="text/html", text="text/plain", json="application/json",
        error="text/plain")[kind], "content type")


# -- static files ------------------------------------------------------------

FILES = {
    "index.html": b"<p>index</p>", "logo.png": b"\x89PNG\xff\x00" * 30,
    "favicon.ico": b"ico", "data.txt": b"text \xc3\xa9", "empty.css": b"",
    "noext": b"noext", "a.b.c": b"dots", ".htaccess": b"hidden",
    "sub/page.html": b"sub", "sub/deep/x.js": b"x" * 100,
    "sub/deep/odd.xyzzy": b"odd", "s-p/a-b.txt": b"hyphen",
    "under_score/x.txt": b"under", "un_der.txt": b"under2",
    "zip/a.gz": b"gz"}
OUTSIDE = {"secret.txt": b"SECRET", "static2/secret.txt": b"SECRET2"}

SAFE = re.compile(r"^[A-Za-z0-9]([-A-Za-z0-9]*[A-Za-z0-9])?\Z")


def static_paths():
    known = st.sampled_from(sorted(FILES))
    seg = st.sampled_from(
        ["", "..", ".", "sub", "deep", "index.html", "secret.txt",
         "static2", "static", "page.html", "x.js", "~", "\xe9.txt", "a\x00b",
         "%2e%2e", "..\\", "noext", "s-p", "etc", "passwd", "under_score"])
    mixed = st.lists(seg, min_size=0, max_size=6).map("/".join)

    def twist(t):
        path, i, kind = t
        parts = path.split("/")
        i = i % (len(parts) + 1)
        if kind == "slash":
            parts.insert(i, "")
        elif kind == "dot":
            parts.insert(i, ".")
        elif kind == "up":
            parts[i:i] = ["sub", ".."]
        elif kind == "case":
            return path.upper()
        elif kind == "tail":
            return path + "/"
        elif kind == "extra":
            return path + "/index.html"
        elif kind == "nul":
            return path + "\x00"
        elif kind == "nl":
            return path + "\n"
        return "/".join(parts)
    return st.tuples(
        st.one_of(known.map(lambda p: p), mixed, st.tuples(
            known, st.integers(0, 4), st.sampled_from(
                ["slash", "dot", "up", "case", "tail", "extra", "nul", "nl"])
        ).map(twist)), st.sampled_from([1, 2, 7, 100, 0x10000]))


def check_static(case, c):
    path, chunk = case
    work = tempfile.mkdtemp(prefix="c47")
    try:
        static = os.path.join(work, "static")
        for base, files in ((static, FILES), (work, OUTSIDE)):
            for name, data in files.items():
                p = os.path.join(base, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
        app = App()
        app.static_files = static
        app.MAX_CHUNK = chunk
        app.set_method("/*", app.static_page)
        status, h, body = call(app, environ("/" + path), case)
        parts = [p for i, p in enumerate(path.split("/"))
                 if p or i == path.count("/")]
        data = FILES.get("/".join(parts))
        stem = parts[-1].split(".")
        safe = all(SAFE.match(p) and len(p) < 64 for p in parts[:-1]) and \
            len(stem) == 2 and all(SAFE.match(p) for p in stem)
        if data is not None and safe:
            c.label("served")
            eq(status, 200, "status of a file: %r" % (case,))
            eq(body, data, "content of a file: %r" % (case,))
            ext = stem[1]
            want = dict(html="text/html", png="image/png", txt="text/plain",
                        ico="image/vnd.microsoft.icon", css="text/css",
                        xyzzy="application/octet-stream").get(ext)
            if want:
                eq(h["content-type"], want, "content type of %s" % path)
            c.nontrivial(len(data) > chunk)
        else:
            eq(status, 404, "status of %r" % (case,))
            c.label("refused")
            c.nontrivial(".." in path or "secret" in path)
    finally:
        shutil.rmtree(work)


PROPS = [
    Prop("dispatch", st.one_of(near(), near(), st.tuples(
        st.lists(patterns(), min_size=1, max_size=6), paths())),
        check_dispatch, 6000, 200000,
        rule="more than one registered path matches, or a wildcard does"),
    Prop("requests", requests(), check_request, 3000, 60000,
         rule="parameters or fields, and a path"),
    Prop("limits", limit_cases(), check_limits, 1500, 20000,
         rule="the field isn't empty"),
    Prop("responses", response_cases(), check_response, 3000, 60000,
         rule="characters outside ASCII or a location with markup"),
    Prop("static", static_paths(), check_static, 2500, 40000,
         rule="a file in several chunks, or a path that tries to leave the "
         "directory"),
]
