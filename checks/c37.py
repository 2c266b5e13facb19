"""C37: WSGI sessions keep users apart and resist forgery."""
import html
import io
import logging
import re
import types
from urllib.parse import parse_qs, quote, urlencode, urlsplit

from hypothesis import strategies as st

from pyslet import iso8601, wsgi
from pyslet.http import cookie as http_cookie

from vlib import Prop, eq, fail, ok

PROPERTY = "C37"

START = 1600000000


class Clock(object):
    """Stands in for the time module of pyslet.iso8601 and the cookies"""

    def __init__(self):
        self.now = START

    def time(self):
        return self.now

    def gmtime(self, t=None):
        import time
        return time.gmtime(self.now if t is None else t)

    def __getattr__(self, name):
        import time
        return getattr(time, name)


class BaseApp(wsgi.SessionApp):

    ready = False
    settings_file = None

    def init_dispatcher(self):
        wsgi.SessionApp.init_dispatcher(self)
        self.set_method('/home', self.home)
        self.set_method('/put', self.put)
        self.set_method('/open', self.open)
        self.store = {}
        self.log = []

    def establish_session(self, context):
        old = context.session.sid
        super(BaseApp, self).establish_session(context)
        if old in self.store:
            self.store[context.session.sid] = self.store.pop(old)

    def merge_session(self, context, merge_session):
        data = self.store.pop(merge_session.sid, None)
        if data is not None:
            self.store.setdefault(context.session.sid, data)

    def record(self, page, context):
        s = context.session
        self.log.append((page, s.sid, s.established, self.store.get(s.sid)))

    @wsgi.session_decorator
    def home(self, context):
        self.record("home", context)
        context.set_status(200)
        return self.html_response(context, "home \xe9 " + context.session.sid)

    @wsgi.session_decorator
    def put(self, context):
        self.record("put", context)
        if context.environ["REQUEST_METHOD"] == "POST":
            self.store[context.session.sid] = context.get_form_string("value")
        context.set_status(200)
        return self.text_response(context, "put")

    def open(self, context):
        context.set_status(200)
        self.log.append(("open", None, None, context.get_form_string("value")))
        return self.text_response(context, "open")


def new_app(root, script):
    if not BaseApp.ready:
        # one class level set up in each process
        import optparse
        p = optparse.OptionParser()
        BaseApp.add_options(p)
        options, args = p.parse_args(['--memory'])
        BaseApp.setup(options, args)
        BaseApp.settings["WSGIDataApp"]["secret"] = "not a secret"
        BaseApp.ready = True
    app = BaseApp()
    app.settings = dict(BaseApp.settings)
    app.settings["WSGIApp"] = dict(app.settings["WSGIApp"],
                                   canonical_root=root)
    return app


class Browser(object):

    def __init__(self, n, ua, blocks):
        self.n = n
        self.ua = ua
        self.blocks = blocks
        self.jar = {}


class Reply(object):
    pass


HEADER_VALUE = re.compile(r"^[\x20-\x7e\x80-\xff\t]*$")


class World(object):

    def __init__(self, case):
        root, script, browsers, self.actions = case
        self.root = root
        self.script = script
        self.app_root = root + (script + "/" if script else "/")
        self.app = new_app(root, script)
        self.browsers = [Browser(i, ua, blocks)
                         for i, (ua, blocks) in enumerate(browsers)]
        self.clock = Clock()
        self.issued = {}    # cookie value: (sid, established, last seen)
        self.order = []     # cookie values in order
        self.sids = {}      # every session id seen: issuing browser
        self.data = {}      # session id: data stored
        self.signed = {}    # signature: (s, return, user agent)
        self.pending = []   # (page, params) links that the browsers hold
        self.stats = dict(kept=0, fixation=0, forged=0, csrf=0, expired=0,
                          established=0, merged=0, tampered=0)

    # --- one request

    def send(self, b, method, path, query="", body=b"", ctype=None,
             cookies=None, clen=None):
        self.app.log[:] = []
        scheme, rest = self.root.split("://")
        host, _, port = rest.partition(":")
        env = {
            "REQUEST_METHOD": method, "SCRIPT_NAME": self.script,
            "PATH_INFO": path, "QUERY_STRING": query,
            "SERVER_NAME": host, "SERVER_PORT": port or
            ("443" if scheme == "https" else "80"),
            "SERVER_PROTOCOL": "HTTP/1.1", "HTTP_HOST": "evil.example.com",
            "wsgi.version": (1, 0), "wsgi.url_scheme": scheme,
            "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(),
            "wsgi.multithread": False, "wsgi.multiprocess": False,
            "wsgi.run_once": False,
        }
        if b.ua is not None:
            env["HTTP_USER_AGENT"] = b.ua
        if method == "POST":
            env["CONTENT_LENGTH"] = str(len(body)) if clen is None else clen
            if ctype is not None:
                env["CONTENT_TYPE"] = ctype
        if cookies is None:
            cookies = "; ".join("%s=%s" % i for i in sorted(b.jar.items()))
        if cookies:
            env["HTTP_COOKIE"] = cookies
        calls = []

        def start_response(status, headers, exc_info=None):
            calls.append((status, list(headers)))
            return lambda data: None

        what = "%s %s" % (method, path)
        result = self.app(env, start_response)
        parts = []
        for part in result:
            ok(isinstance(part, bytes), "%s: part of the body %r" %
               (what, part))
            parts.append(part)
        if hasattr(result, "close"):
            result.close()
        eq(len(calls), 1, what + ": calls of start_response")
        r = Reply()
        status, headers = calls[0]
        ok(isinstance(status, str) and re.match(r"^[1-5][0-9][0-9] \S",
                                                status),
           "%s: status %r" % (what, status))
        r.status = int(status[:3])
        r.body = b"".join(parts)
        r.headers = {}
        r.set_cookies = {}
        for name, value in headers:
            ok(isinstance(name, str) and isinstance(value, str) and
               re.match(r"^[-A-Za-z0-9]+$", name) and
               HEADER_VALUE.match(value),
               "%s: header %r: %r" % (what, name, value))
            if name.lower() == "set-cookie":
                first, _, attrs = value.partition(";")
                n, eqs, v = first.partition("=")
                ok(eqs and n.strip(), "%s: cookie %r" % (what, value))
                at = {}
                for a in attrs.split(";"):
                    k, _, x = a.strip().partition("=")
                    at[k.lower()] = x
                r.set_cookies[n.strip()] = (v.strip(), at)
            else:
                ok(name.lower() not in r.headers, "%s: two %s headers" %
                   (what, name))
                r.headers[name.lower()] = value
        eq(r.headers.get("content-length"), str(len(r.body)),
           what + ": content length")
        ok("content-type" in r.headers, what + ": no content type")
        ok(r.status < 500, "%s?%s with cookies %r: %s %r" % (
            what, query, cookies, status, r.body[-200:]))
        if r.status // 100 == 3:
            ok(r.headers.get("location", "").startswith(self.root),
               "%s: redirected to %r" % (what, r.headers.get("location")))
        for n, (v, at) in r.set_cookies.items():
            eq(at.get("path"), urlsplit(self.app_root).path,
               "%s: path of cookie %s" % (what, n))
            if n == "sid":
                ok("httponly" in at, what + ": session cookie seen by scripts")
                eq("secure" in at, scheme == "https",
                   what + ": secure session cookie")
            if not b.blocks:
                if at.get("max-age") == "0":
                    b.jar.pop(n, None)
                else:
                    b.jar[n] = v
        r.log = list(self.app.log)
        r.sent = dict(b.jar) if cookies is None else cookies
        return r

    # --- the model

    def sent(self, b):
        return dict(b.jar)

    def parse_issued(self, value, what):
        parts = value.split("-", 3)
        eq(len(parts), 4, what + ": form of the session cookie")
        from urllib.parse import unquote
        fields = unquote(parts[3]).split("-")
        eq(len(fields), 3, what + ": fields of the session cookie")
        return fields

    def authentic(self, cookies):
        value = cookies.get("sid")
        return self.issued.get(value) if value else None

    def set_session(self, cookies):
        """What set_session does: returns (sid or None if it must be new,
        established, the session ID it came from, data)"""
        rec = self.authentic(cookies) if "ctest" in cookies else None
        if rec is not None:
            sid, established, seen = rec
            age = self.clock.now - seen
            if age > (600 if established else 120):
                self.stats["expired"] += 1
                rec = None
        elif cookies.get("sid") and "ctest" in cookies:
            self.stats["forged"] += 1
        if rec is None:
            return (None, False, None, None)
        if established:
            return (sid, True, sid, self.data.get(sid))
        self.stats["established"] += 1
        return (None, True, sid, self.data.pop(sid, None))

    def adopt(self, b, r, expected, what):
        """Checks the session cookie issued and returns its session ID"""
        want, established, source, data = expected
        ok("sid" in r.set_cookies, what + ": no session cookie issued")
        value = r.set_cookies["sid"][0]
        sid, flag, when = self.parse_issued(value, what)
        eq(flag, "1" if established else "0",
           what + ": session established")
        eq(iso8601.TimePoint.from_str(when).get_unixtime(), self.clock.now,
           what + ": time in the session cookie")
        if want is None:
            ok(sid not in self.sids, what + ": session id %s used again" % sid)
            self.sids[sid] = b.n
            if data is not None:
                self.data[sid] = data
        else:
            eq(sid, want, what + ": session id")
        self.issued[value] = (sid, established, self.clock.now)
        self.order.append(value)
        return sid

    def link(self, page, query, b, what):
        params = dict((k, v[0]) for k, v in parse_qs(
            query, strict_parsing=True).items())
        self.pending.append((page, params))
        return params

    def first_visit(self, b, r, sid, target, what):
        """The redirect that tests the cookies"""
        eq(r.status, 303, what + ": status of a first visit")
        eq(r.log, [], what + ": pages run")
        ok("ctest" in r.set_cookies, what + ": no test cookie")
        head, _, query = r.headers["location"].partition("?")
        eq(head, self.app_root + "ctest", what + ": cookie test page")
        params = self.link("ctest", query, b, what)
        eq(params["return"], target, what + ": return path")
        eq(params["s"].split("-")[:2], [sid, "0"], what + ": session in url")
        self.signed[params["sig"]] = (params["s"], params["return"],
                                      b.ua or "")

    def page(self, b, method, path, query="", token=None, body=b"",
             ctype=None, value=None):
        cookies = self.sent(b)
        what = "%s %s by %i" % (method, path, b.n)
        rec = self.authentic(cookies)
        expected = self.set_session(cookies)
        r = self.send(b, method, path, query, body, ctype)
        sid = self.adopt(b, r, expected, what)
        if method == "POST" and (not token or rec is None or
                                 token != rec[0]):
            self.stats["csrf"] += 1
            eq(r.status, 403, what + ": status of a POST without its token")
            eq(r.log, [], what + ": pages run")
            return r
        if "ctest" not in cookies:
            self.first_visit(b, r, sid, self.app_root[:-1] + path +
                             ("?" + query if query else ""), what)
            return r
        eq(r.status, 200, what + ": status")
        eq(r.log, [(path[1:], sid, expected[1], self.data.get(sid))],
           what + ": page, session id, established and data")
        if self.data.get(sid) is not None and expected[1]:
            self.stats["kept"] += 1
        if method == "POST":
            self.data[sid] = value
        return r

    def refused(self, r, what):
        eq(r.status, 400, what + ": status")
        eq(r.log, [], what + ": pages run")

    def cleared(self, r, what):
        ok("sid" in r.set_cookies, what + ": session cookie not cleared")
        v, at = r.set_cookies["sid"]
        ok(v in ("", '""') and at.get("max-age") == "0",
           "%s: session cookie %r not cleared" % (what, v))

    def signature_ok(self, b, params):
        made = self.signed.get(params["sig"])
        return made == (params["s"], params["return"], b.ua or "")

    def ctest(self, b, params):
        cookies = self.sent(b)
        what = "ctest by %i" % b.n
        query = urlencode(params)
        if not all(params.get(k) for k in ("return", "s", "sig")):
            r = self.send(b, "GET", "/ctest", query)
            self.refused(r, what)
            return r
        if "ctest" not in cookies:
            r = self.send(b, "GET", "/ctest", query)
            eq(r.status, 200, what + ": status without cookies")
            eq(r.set_cookies, {}, what + ": cookies")
            if params.get("framed") == "1":
                ok(b"blocked" in r.body, what + ": failure page")
                return r
            page = r.body.decode("utf-8")
            m = re.findall(r"<a href=(\"[^\"]*\"|'[^']*')\s", page)
            eq(len(m), 1, what + ": links in the test page")
            eq(page.count("<"), 12, "%s: tags in the page %s" % (what, page))
            head, _, q = html.unescape(m[0][1:-1]).partition("?")
            eq(head, self.app_root + "wlaunch", what + ": launch page")
            got = self.link("wlaunch", q, b, what)
            eq(got, dict((k, params[k]) for k in ("return", "s", "sig")),
               what + ": parameters for the new window")
            return r
        valid = self.signature_ok(b, params)
        rec = self.authentic(cookies)
        qsid = params["s"].split("-")[0]
        if valid and rec is not None and not rec[1] and rec[0] == qsid:
            expected = self.set_session(cookies)
            r = self.send(b, "GET", "/ctest", query)
            eq(r.status, 303, what + ": status")
            eq(r.headers["location"], params["return"], what + ": location")
            self.adopt(b, r, expected, what)
            return r
        if not valid:
            self.stats["tampered"] += 1
        elif rec is not None:
            self.stats["fixation"] += 1
        r = self.send(b, "GET", "/ctest", query)
        self.refused(r, what)
        self.cleared(r, what)
        return r

    def wlaunch(self, b, params):
        cookies = self.sent(b)
        what = "wlaunch by %i" % b.n
        query = urlencode(params)
        if not all(params.get(k) for k in ("return", "s", "sig")):
            r = self.send(b, "GET", "/wlaunch", query)
            self.refused(r, what)
            return r
        if not self.signature_ok(b, params):
            self.stats["tampered"] += 1
            r = self.send(b, "GET", "/wlaunch", query)
            self.refused(r, what)
            if "sid" in r.set_cookies:
                self.cleared(r, what)
            return r
        qsid, flag, when = params["s"].split("-")
        if "ctest" not in cookies:
            r = self.send(b, "GET", "/wlaunch", query)
            eq(r.status, 303, what + ": status")
            ok("ctest" in r.set_cookies, what + ": no test cookie")
            value = r.set_cookies["sid"][0]
            eq(self.parse_issued(value, what), [qsid, "0", when],
               what + ": session in the cookie")
            self.issued[value] = (qsid, False, iso8601.TimePoint.from_str(
                when).get_unixtime())
            self.order.append(value)
            head, _, q = r.headers["location"].partition("?")
            eq(head, self.app_root + "ctest", what + ": location")
            got = self.link("ctest", q, b, what)
            want = dict((k, params[k]) for k in ("return", "s", "sig"))
            want["framed"] = "1"
            eq(got, want, what + ": parameters of the second test")
            return r
        expected = self.set_session(cookies)
        r = self.send(b, "GET", "/wlaunch", query)
        eq(r.status, 303, what + ": status")
        eq(r.headers["location"], params["return"], what + ": location")
        sid = self.adopt(b, r, expected, what)
        data = self.data.pop(qsid, None)
        if data is not None:
            self.stats["merged"] += 1
            self.data.setdefault(sid, data)
        return r

    def follow(self, b, page, params):
        return (self.ctest if page == "ctest" else self.wlaunch)(b, params)

    # --- actions

    def run(self):
        for action in self.actions:
            getattr(self, "do_" + action[0])(*action[1:])
            got = dict((k, v) for k, v in self.app.store.items()
                       if v is not None)
            eq(got, self.data, "data held after %r" % (action,))

    def do_time(self, dt):
        self.clock.now += dt

    def do_get(self, n, path, query, hops):
        b = self.browsers[n % len(self.browsers)]
        mark = len(self.pending)
        r = self.page(b, "GET", path, query)
        for i in range(hops):
            if r.status == 200 or r.status >= 400:
                break
            head, _, q = r.headers["location"].partition("?")
            if head == self.app_root + "ctest":
                r = self.follow(b, *self.pending[-1])
            else:
                r = self.page(b, "GET", head[len(self.app_root) - 1:], q)
        else:
            return
        if r.status == 200 and hops > 2 and len(self.pending) > mark and \
                r.log == [] and self.pending[-1][0] == "wlaunch":
            # the test page in a frame: open a new window
            self.follow(b, *self.pending[-1])

    def do_post(self, n, kind, k, value, multipart):
        b = self.browsers[n % len(self.browsers)]
        rec = self.authentic(self.sent(b))
        own = rec[0] if rec else None
        token = None
        if kind == "own":
            token = own
        elif kind == "other":
            others = [r[0] for r in self.issued.values() if r[0] != own]
            token = sorted(others)[k % len(others)] if others else None
        elif kind == "garbage":
            token = "x"
        elif kind == "prefix":
            token = own[:-1] if own else None
        elif kind == "case":
            token = own.lower() if own else None
            if token == own:
                token = None
        elif kind == "empty":
            token = ""
        elif kind == "twice":
            token = "%s,%s" % (own, own) if own else None
        elif kind == "cookie":
            token = self.sent(b).get("sid")
        fields = [("value", value)]
        if kind == "twice" and own:
            fields += [("csrftoken", own)] * 2
        elif token is not None:
            fields.append(("csrftoken", token))
        query = ""
        if kind == "query":
            # the token must be in the form
            query = urlencode({"csrftoken": own or "x"})
            token = None
        if multipart:
            body = b""
            for name, v in fields:
                body += ("--XyZ\r\nContent-Disposition: form-data; name=\"%s\""
                         "\r\n\r\n%s\r\n" % (name, v)).encode("utf-8")
            body += b"--XyZ--\r\n"
            ctype = "multipart/form-data; boundary=XyZ"
        else:
            body = urlencode(fields).encode("ascii")
            ctype = "application/x-www-form-urlencoded"
        self.page(b, "POST", "/put", query, token, body, ctype, value)

    def do_cookie(self, n, kind, k):
        b = self.browsers[n % len(self.browsers)]
        if kind == "forget":
            b.jar.pop("sid", None)
            return
        if kind == "forgettest":
            b.jar.pop("ctest", None)
            return
        if kind == "test":
            b.jar["ctest"] = "0"
            return
        if kind == "garbage":
            b.jar["sid"] = ["x", "1-2-3", "1-00-00-", "-", "0", "a-b-c-d-e",
                            "99999-00-00-x", "0--", "%", "0-zz-zz-x"][k % 10]
            return
        if not self.order:
            return
        value = self.order[k % len(self.order)]
        if kind == "replay":
            b.jar["sid"] = value
            return
        num, salt, mac, msg = value.split("-", 3)
        if kind == "establish":
            msg = msg.replace("-0-", "-1-", 1) if "-0-" in msg else \
                msg.replace("-1-", "-0-", 1)
        elif kind == "refresh":
            sid, flag, when = msg.split("-")
            msg = "-".join([sid, flag, iso8601.TimePoint.from_unix_time(
                self.clock.now + 77).get_calendar_string(basic=True)])
        elif kind == "sid":
            other = self.order[(k // 7) % len(self.order)]
            msg = "-".join([other.split("-", 3)[3].split("-")[0]] +
                           msg.split("-")[1:])
        elif kind == "mac":
            mac = mac[:-1] + ("0" if mac[-1] != "0" else "1")
        elif kind == "salt":
            salt = ("0" if salt[0] != "0" else "1") + salt[1:]
        elif kind == "short":
            mac = mac[:len(mac) // 2]
        elif kind == "nomac":
            mac = ""
        elif kind == "key":
            num = str(int(num) + 1)
        elif kind == "query":
            # a signature made for a link, used as a cookie
            if not self.signed:
                return
            sig = sorted(self.signed)[k % len(self.signed)]
            b.jar["sid"] = sig + "-" + quote("".join(self.signed[sig]),
                                             safe="")
            return
        elif kind == "unsigned":
            b.jar["sid"] = msg
            return
        b.jar["sid"] = "-".join([num, salt, mac, msg])

    def do_link(self, n, k, change):
        """Follows a link that a browser, perhaps another one, was given"""
        b = self.browsers[n % len(self.browsers)]
        if not self.pending:
            return
        page, params = self.pending[k % len(self.pending)]
        params = dict(params)
        if change == "page":
            page = "wlaunch" if page == "ctest" else "ctest"
        elif change == "return":
            params["return"] = "http://evil.example.com/"
        elif change == "return2":
            params["return"] += "x"
        elif change == "s":
            params["s"] = params["s"].replace("-0-", "-1-")
        elif change == "s2":
            other = self.pending[(k // 5) % len(self.pending)][1]
            params["s"] = other["s"]
        elif change == "sig":
            params["sig"] = params["sig"][:-2] + (
                "00" if params["sig"][-2:] != "00" else "11")
        elif change == "sig2":
            params["sig"] = "x"
        elif change in ("nos", "nosig", "noreturn"):
            del params[change[2:]]
        elif change == "framed":
            params["framed"] = "1"
        elif change == "shift":
            # the same signed text, divided differently
            i = 1 + k % 9
            params["s"] += params["return"][:i]
            params["return"] = params["return"][i:]
        elif change == "shift2":
            i = 1 + k % 9
            params["return"] = params["s"][-i:] + params["return"]
            params["s"] = params["s"][:-i]
        elif change == "cookie":
            # a session cookie's signature used for a link
            if not self.order:
                return
            num, salt, mac, msg = self.order[k % len(self.order)].split("-", 3)
            params["sig"] = "-".join([num, salt, mac])
            params["s"] = msg
        elif change == "markup":
            params["return"] = "\"><script x='1'>&amp;\xe9"
        self.follow(b, page, params)

    def do_raw(self, n, path, query, cookies, body):
        """Any request at all: a well formed response, nothing adopted"""
        b = self.browsers[n % len(self.browsers)]
        keep = dict(b.jar)
        before = dict(self.data)
        method = "GET" if body is None else "POST"
        ctype, data, clen = body or (None, b"", None)
        r = self.send(b, method, path, query, data, ctype, cookies, clen)
        for page, sid, established, value in r.log:
            if page != "open":
                ok(sid not in self.sids,
                   "request with cookies %r adopted session %s" %
                   (cookies, sid))
        b.jar.clear()
        b.jar.update(keep)
        eq(dict((k, v) for k, v in self.app.store.items()), before,
           "data changed by a request with cookies %r" % (cookies,))


UA = ["Mozilla/5.0 (X)", "Other", "", None, "20200101T", "\xe9-b"]
PATHS = ["/home", "/home", "/put"]
QUERIES = ["", "", "", "a=1", "a=1&b=%C3%A9", "return=x&s=y"]
RAW_PATHS = ["/home", "/put", "/ctest", "/wlaunch", "/open", "/nothing", "",
             "/", "/home/", "/h\xc3\xa9", "//home", "/home/x"]
RAW_QUERIES = ["", "a=|", "a=\"<>", "%zz", "a=%", "&&&", "=", "s=&sig=&return=",
               "return=x&s=y&sig=z", "return=http%3A%2F%2Flocalhost%2F&s="
               "0-0-0&sig=0-00-00", "s=%FF&sig=%FF&return=%FF", "a=[b]",
               "s=a-0-b&sig=a-b-c&return=%E4%B8%80", "\xe9", "a=b#c", "a b"]
RAW_COOKIES = ["", "sid", "=", ";", "sid=", "sid=; ctest=", "ctest=0",
               "ctest=0; sid=\xe9", "sid=\"x\"; ctest=0", "a=b; sid=x",
               "sid=x; sid=y; ctest=0", "ctest=0; sid=%41-%42-%43-%44",
               "ctest=0,sid=x", "ctest=0; sid=0-00-00-x", "\xff", "a=b,;",
               "ctest=0; sid=1-0-0-", "sid=-1-0-0-; ctest=1", "$Version=1",
               "ctest=0; sid=0-zz-00-00", " ", "ctest=0;;sid=x"]
BODIES = [None, None,
          ("application/x-www-form-urlencoded", b"csrftoken=x&value=y", None),
          ("application/x-www-form-urlencoded", b"\xff=%FF&csrftoken=%E9",
           None),
          ("multipart/form-data", b"--x\r\n", None),
          ("multipart/form-data; boundary=x", b"--x\r\nContent-Disposition: "
           b"form-data; name=\"csrftoken\"; filename=\"f\"\r\nContent-Type: "
           b"text/plain; charset=nonsense\r\n\r\nabc\r\n--x--\r\n", None),
          ("multipart/form-data; boundary=x", b"--x\r\nContent-Disposition: "
           b"form-data; name=\"csrftoken\"; filename=\"f\"\r\n\r\n\xff\r\n"
           b"--x\r\nContent-Disposition: form-data; name=\"csrftoken\"\r\n\r\n"
           b"abc\r\n--x--\r\n", None),
          ("multipart/form-data; boundary=x", b"--x\r\nContent-Disposition: "
           b"form-data; name=\"value\"; filename=\"f\"\r\n\r\n\xff\r\n"
           b"--x--\r\n", None),
          ("multipart/form-data; boundary=x", b"garbage", None),
          ("text/plain", b"csrftoken=x", None),
          (None, b"", None), ("application/json", b"{}", None),
          ("application/x-www-form-urlencoded", b"a=b", "x"),
          ("application/x-www-form-urlencoded", b"a=b", "100"),
          ("multipart/form-data; boundary=x", b"--x\r\nContent-Dis", "5")]


@st.composite
def actions(draw, nb, level):
    kinds = ["get"] * 6 + ["post"] * 5 + ["time"] * 2 + ["link"] * 3
    if level:
        kinds += ["cookie"] * 4 + ["link"] * 2
    out = []
    for i in range(draw(st.integers(3, 16))):
        kind = draw(st.sampled_from(kinds))
        n = draw(st.integers(0, nb - 1))
        k = draw(st.integers(0, 40))
        if kind == "get":
            out.append((kind, n, draw(st.sampled_from(PATHS)),
                        draw(st.sampled_from(QUERIES)),
                        draw(st.sampled_from([4, 4, 4, 0, 1, 2]))))
        elif kind == "post":
            out.append((kind, n, draw(st.sampled_from(
                ["own"] * 6 + ["other", "garbage", "empty", "missing",
                               "prefix", "case", "twice", "cookie",
                               "query"])), k,
                draw(st.sampled_from(["a", "b", "\xe9 &=+", "", "c" * 50])),
                draw(st.booleans())))
            if draw(st.booleans()):
                out.append(("get", n, "/home", "", 4))
        elif kind == "time":
            out.append((kind, draw(st.sampled_from(
                [1, 30, 119, 120, 121, 599, 600, 601, 5000]))))
        elif kind == "link":
            out.append((kind, n, k, draw(st.sampled_from(
                ["none"] * 6 + ["page", "return", "return2", "s", "s2", "sig",
                                "sig2", "nos", "nosig", "noreturn", "framed",
                                "shift", "shift2", "cookie", "markup"]))))
        else:
            out.append((kind, n, draw(st.sampled_from(
                ["replay"] * 4 + [
                    "forget", "forgettest", "test", "test", "garbage",
                    "establish", "refresh", "sid", "mac", "salt", "short",
                    "nomac", "key", "query", "unsigned"])), k))
            if draw(st.booleans()):
                out.append(("get", n, "/home", "", 4))
    return out


@st.composite
def histories(draw):
    nb = draw(st.integers(1, 3))
    level = draw(st.booleans())
    browsers = [(draw(st.sampled_from(UA)),
                 draw(st.integers(0, 7)) == 7) for i in range(nb)]
    return (draw(st.sampled_from(
        ["http://localhost:8080", "https://www.example.com",
         "http://www.example.com"])),
        draw(st.sampled_from(["", "", "/app", "/a/b"])),
        browsers, draw(actions(nb, level)))


@st.composite
def raw_cases(draw):
    base = draw(histories())
    out = list(base[3][:6])
    for i in range(draw(st.integers(1, 4))):
        out.append(("raw", draw(st.integers(0, 2)),
                    draw(st.sampled_from(RAW_PATHS)),
                    draw(st.sampled_from(RAW_QUERIES)),
                    draw(st.sampled_from(RAW_COOKIES)),
                    draw(st.sampled_from(BODIES))))
    return base[:3] + (out,)


def run(case):
    world = World(case)
    saved = iso8601.pytime, wsgi.time, http_cookie.time
    logging.disable(logging.CRITICAL)
    iso8601.pytime = world.clock
    wsgi.time = http_cookie.time = types.SimpleNamespace(
        time=world.clock.time)
    try:
        world.run()
    finally:
        iso8601.pytime, wsgi.time, http_cookie.time = saved
        logging.disable(logging.NOTSET)
    return world


def check_sessions(case, c):
    world = run(case)
    s = world.stats
    for k, v in s.items():
        if v:
            c.label(k)
    c.nontrivial(s["kept"] > 0 and (
        s["fixation"] + s["forged"] + s["csrf"] + s["expired"] +
        s["tampered"] + s["merged"] > 0 or len(world.browsers) > 1))


def check_any(case, c):
    world = run(case)
    c.nontrivial(True)
    c.label("sessions %s" % min(3, len(world.sids)))


PROPS = [
    Prop("sessions", histories(), check_sessions, 2500, 40000,
         rule="stored data was read back by its owner, and there was a second "
         "browser or a forged, expired or mismatched request"),
    Prop("any", raw_cases(), check_any, 1500, 20000, rule="always"),
]
