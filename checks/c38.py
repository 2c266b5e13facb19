"""C38: LTI launches are accepted only when authentic and fresh."""
import base64
import glob
import hashlib
import hmac
import html
import io
import itertools
import logging
import os
import random
import re
import sys
import types
from urllib.parse import parse_qs, quote, urlsplit

from hypothesis import strategies as st

try:
    import oauthlib  # noqa
except ImportError:
    # the repository's own environment has it
    sys.path.extend(sorted(glob.glob(
        "/opt/venv/lib/python3*/site-packages")))
    import oauthlib  # noqa
from oauthlib.oauth1.rfc5849.endpoints import base as oauth_base

from pyslet import imsbltiv1p0 as lti
from pyslet import iso8601, urn, wsgi
from pyslet.http import cookie as http_cookie
from pyslet.rfc2396 import URI

from checks.c37 import Clock, START
from vlib import Prop, eq, fail, ok

PROPERTY = "C38"

SERIAL = itertools.count(1)


class App(lti.ToolProviderApp):

    settings_file = None
    private_files = None

    def resource_page(self, context):
        return self.session_wrapper(context, self.recorded_page)

    def recorded_page(self, context):
        self.load_visit(context)
        text = lambda v: None if v is None else v.value
        user = context.user
        group = context.group
        self.seen = (
            context.consumer.key, context.resource["LinkID"].value,
            text(context.resource["Title"]),
            text(context.resource["Description"]),
            None if user is None else tuple(
                user[n].value for n in ("UserID", "GivenName", "FamilyName",
                                        "FullName", "Email")),
            None if group is None else tuple(
                group[n].value for n in ("ContextID", "Title", "Label",
                                         "Types")),
            context.permissions, self.get_user_display_name(context))
        context.set_status(200)
        return self.text_response(context, "resource")


class PageApp(App):

    def recorded_page(self, context):
        self.load_visit(context)
        return lti.ToolProviderApp.resource_page(self, context)


_setup = []


def setup(root):
    if not _setup:
        import optparse
        p = optparse.OptionParser()
        App.add_options(p)
        options, args = p.parse_args(["--memory", "--create_silo"])
        App.setup(options, args)
        App.settings["WSGIDataApp"]["secret"] = "not a secret"
        with App.container["Silos"].open() as collection:
            _setup.append(collection.values()[0])
    app = App()
    app.settings = dict(App.settings)
    app.settings["WSGIApp"] = dict(App.settings["WSGIApp"],
                                   canonical_root=root)
    return app, _setup[0]


# -- an independent signer ---------------------------------------------------

def pct(s):
    return quote(s, safe="-._~")


def sign(method, url, pairs, secret):
    scheme, rest = url.split("://")
    host, _, path = rest.partition("/")
    if host.endswith((":80" if scheme == "http" else ":443")):
        host = host.rpartition(":")[0]
    norm = "&".join("%s=%s" % p for p in sorted(
        (pct(a), pct(b)) for a, b in pairs))
    text = "&".join([method, pct("%s://%s/%s" % (scheme, host.lower(), path)),
                     pct(norm)])
    return base64.b64encode(hmac.new(
        (pct(secret) + "&").encode("ascii"), text.encode("ascii"),
        hashlib.sha1).digest()).decode("ascii")


# -- the model -----------------------------------------------------------------

class Session(object):

    def __init__(self):
        self.visits = []    # (resource, user, data)


class Browser(object):

    def __init__(self, n):
        self.n = n
        self.jar = {}


class Reply(object):
    pass


def permissions(roles):
    """Instructors read, write and configure; learners read"""
    p = 0
    for r in (roles or "").split(","):
        r = r.strip()
        m = re.match(r"^(?:urn:lti:role:ims/lis/)?(Instructor|Learner)"
                     r"(/[A-Za-z]+)?$", r)
        if m and (r.startswith("urn:") or r in lti.ROLE_HANDLES):
            p |= 7 if m.group(1) == "Instructor" else 1
    return p


def context_types(s):
    out = []
    for t in (s or "").split(","):
        t = t.strip()
        if t in ("CourseTemplate", "CourseOffering", "CourseSection",
                 "Group"):
            t = "urn:lti:context-type:ims/lis/" + t
        if re.match("^[a-z]+:[A-Za-z0-9/:.-]+$", t):
            out.append(t)
    return sorted(out)


class World(object):

    def __init__(self, case):
        self.root, self.script, keys, self.actions = case
        self.app, silo = setup(self.root)
        self.app_root = self.root + self.script + "/"
        self.url = self.root + self.script + "/launch"
        self.clock = Clock()
        self.browsers = [Browser(0), Browser(1)]
        self.cookies = {}       # value: (session, established, seen)
        self.consumers = []     # [key, secret, old secrets, ToolConsumer]
        serial = "%i.%i" % (os.getpid(), next(SERIAL))
        self.cipher = self.app.app_cipher
        with silo["Consumers"].open() as collection:
            for i, (stem, secret) in enumerate(keys):
                key = "%s:%s%i" % (serial, stem, i)
                tc = lti.ToolConsumer.new_from_values(
                    collection.new_entity(), self.cipher, "handle%i" % i,
                    key, secret)
                collection.insert_entity(tc.entity)
                self.consumers.append([key, secret, [], tc])
        self.nonces = {}        # (consumer, nonce): time last accepted
        self.serial = itertools.count(1)
        self.sent = []          # bodies accepted: (url query, body)
        self.contexts = {}
        self.resources = {}
        self.users = {}
        self.paths = {}         # resource: path
        self.stats = dict(launched=0, refused=0, seen=0, denied=0, merged=0,
                          relaunched=0, logout=0, expired=0)

    def send(self, b, method, path, query="", body=b"", ctype=None,
             jar=None):
        """jar: the cookies the browser sends (default, its own)"""
        own = jar is None
        jar = b.jar if own else jar
        scheme, rest = self.root.split("://")
        host, _, port = rest.partition(":")
        env = {
            "REQUEST_METHOD": method, "SCRIPT_NAME": self.script,
            "PATH_INFO": path, "QUERY_STRING": query, "SERVER_NAME": host,
            "SERVER_PORT": port or ("443" if scheme == "https" else "80"),
            "SERVER_PROTOCOL": "HTTP/1.1", "HTTP_HOST": "evil.example.com",
            "HTTP_USER_AGENT": "Browser/%i" % b.n,
            "wsgi.version": (1, 0), "wsgi.url_scheme": scheme,
            "wsgi.input": io.BytesIO(body), "wsgi.errors": io.StringIO(),
            "wsgi.multithread": False, "wsgi.multiprocess": False,
            "wsgi.run_once": False}
        if method == "POST":
            env["CONTENT_LENGTH"] = str(len(body))
            if ctype:
                env["CONTENT_TYPE"] = ctype
        if jar:
            env["HTTP_COOKIE"] = "; ".join("%s=%s" % i
                                           for i in sorted(jar.items()))
        calls = []

        def start_response(status, headers, exc_info=None):
            calls.append((status, headers))
            return lambda data: None

        self.app.seen = None
        parts = list(self.app(env, start_response))
        what = "%s %s" % (method, re.sub("[0-9A-F]{8}", "#", path))
        ok(all(isinstance(p, bytes) for p in parts), what + ": body", parts)
        eq(len(calls), 1, what + ": calls of start_response")
        r = Reply()
        r.status = int(calls[0][0][:3])
        r.body = b"".join(parts)
        r.location = r.sid = None
        for name, value in calls[0][1]:
            ok(isinstance(name, str) and isinstance(value, str),
               what + ": header", name, value)
            if name.lower() == "location":
                r.location = value
            elif name.lower() == "set-cookie":
                n, _, v = value.partition(";")[0].partition("=")
                if n == "sid":
                    r.sid = v
                if own:
                    if "Max-Age=0" in value:
                        jar.pop(n, None)
                    else:
                        jar[n] = v
        r.seen = self.app.seen
        ok(r.status < 500, "%s: %i %r" % (what, r.status, r.body[-150:]))
        return r

    # --- sessions, see C37

    def set_session(self, jar):
        rec = self.cookies.get(jar.get("sid")) if "ctest" in jar else None
        if rec is not None:
            session, established, seen = rec
            if self.clock.now - seen > (600 if established else 120):
                self.stats["expired"] += 1
                rec = None
        if rec is None:
            return Session(), False
        return session, True

    def issued(self, r, session, established):
        ok(r.sid, "no session cookie issued")
        self.cookies[r.sid] = (session, established, self.clock.now)

    # --- what a launch means

    def launched(self, ci, params, session):
        p = dict((n, v) for n, v in params if v)

        def update(old, new):
            return [b or a for a, b in zip(old, new)]

        group = p.get("context_id")
        if group:
            types = " ".join(context_types(p.get("context_type"))) or None
            new = [p.get("context_title"), p.get("context_label"), types]
            self.contexts[ci, group] = update(
                self.contexts.get((ci, group), [None] * 3), new)
        link = (ci, p["resource_link_id"])
        first = link not in self.resources
        title = [p.get("resource_link_title"),
                 p.get("resource_link_description")]
        if first:
            self.resources[link] = title + [group]
        else:
            self.stats["relaunched"] += 1
            self.resources[link][:2] = update(self.resources[link][:2], title)
        user = p.get("user_id")
        if user:
            new = [p.get("lis_person_name_given"),
                   p.get("lis_person_name_family"),
                   p.get("lis_person_name_full"),
                   p.get("lis_person_contact_email_primary")]
            self.users[ci, user] = update(
                self.users.get((ci, user), [None] * 4), new)
        visit = (link, user, permissions(p.get("roles")))
        self.add_visit(session, visit)

    def add_visit(self, session, visit):
        keep = []
        for v in session.visits:
            if v[0] == visit[0]:
                continue
            if v[0][0] == visit[0][0] and v[1] != visit[1]:
                self.stats["logout"] += 1
                continue
            keep.append(v)
        session.visits = keep + [visit]

    # --- actions

    def run(self):
        for action in self.actions:
            getattr(self, "do_" + action[0])(*action[1:])

    def do_time(self, dt):
        self.clock.now += dt

    def do_secret(self, ci, secret):
        c = self.consumers[ci % len(self.consumers)]
        with self.app.container["Consumers"].open() as collection:
            tc = lti.ToolConsumer(collection[c[3].entity.key()], self.cipher)
            eq((tc.key, tc.secret), (c[0], c[1]), "stored consumer")
        tc.update_from_values("new handle", secret)
        eq(tc.secret, secret, "secret of a consumer")
        c[2].append(c[1])
        c[1] = secret

    def build(self, ci, params, dt, nonce, secret=None, drop=(), query=""):
        key = self.consumers[ci][0]
        pairs = list(params) + [
            ("oauth_consumer_key", key), ("oauth_nonce", nonce),
            ("oauth_timestamp", str(self.clock.now + dt)),
            ("oauth_signature_method", "HMAC-SHA1"),
            ("oauth_version", "1.0"), ("oauth_callback", "about:blank")]
        pairs = [p for p in pairs if p[0] not in drop]
        extra = [(a, v) for a, vs in parse_qs(
            query, keep_blank_values=True).items() for v in vs]
        sig = sign("POST", self.url, pairs + extra,
                   self.consumers[ci][1] if secret is None else secret)
        return pairs + [("oauth_signature", sig)]

    def encode(self, pairs, style):
        if style == 1:
            # percent encoded in full, in another order
            return "&".join("%s=%s" % (pct(a), pct(b).replace("%2", "%2"))
                            for a, b in reversed(pairs)).encode("ascii")
        plus = lambda s: pct(s).replace("%20", "+")
        return "&".join("%s=%s" % (plus(a), plus(b))
                        for a, b in pairs).encode("ascii")

    def do_launch(self, n, ci, params, kind, k, style, frame, delay):
        b = self.browsers[n]
        ci = ci % len(self.consumers)
        consumer = self.consumers[ci]
        params = [("lti_message_type", "basic-lti-launch-request"),
                  ("lti_version", "LTI-1p0")] + list(params)
        nonce = "n%i" % next(self.serial)
        dt = 0
        query = ""
        status = 200
        body = None
        ctype = "application/x-www-form-urlencoded"
        method = "POST"
        if kind in ("good", "query"):
            dt = [0, 0, 0, 600, -600, 599][k % 6]
            if kind == "query":
                query = ["x=1", "x=1%202&y=", "user_id=u9", "a=b&a=a"][k % 4]
            if k % 7 == 6:
                # a form with its character set
                ctype += "; charset=utf-8"
            pairs = self.build(ci, params, dt, nonce, query=query)
        elif kind == "oauthquery":
            # signed in the query
            pairs = self.build(ci, params, dt, nonce)
            query = "&".join("%s=%s" % (a, pct(v)) for a, v in pairs
                             if a.startswith("oauth_"))
            pairs = [p for p in pairs if not p[0].startswith("oauth_")]
        elif kind == "nonce":
            used = sorted(self.nonces)
            if not used:
                return
            c0, nonce = used[k % len(used)]
            # perhaps when it is just about to be forgotten
            self.clock.now = max(self.clock.now, self.nonces[c0, nonce] + [
                0, 0, 5400, 5401, 5401, 3000][k // 3 % 6])
            seen = self.nonces.get((ci, nonce))
            if seen is not None and self.clock.now - seen <= 5400:
                status = 403
            pairs = self.build(ci, params, dt, nonce)
        elif kind == "replay":
            if not self.sent:
                return
            query, body, ctype, when = self.sent[k % len(self.sent)]
            if self.clock.now - when > 600:
                # refused anyway
                pass
            status = 403
        elif kind == "stale":
            dt = [601, -601, -5400, 100000, -1000000][k % 5]
            pairs = self.build(ci, params, dt, nonce)
            status = 403
        elif kind == "secret":
            bad = (consumer[2] + ["", "x", consumer[1] + "x",
                                  consumer[1].upper() + "y",
                                  self.consumers[ci - 1][1], "secret"])
            bad = bad[k % len(bad)]
            if bad == consumer[1]:
                return
            pairs = self.build(ci, params, dt, nonce, secret=bad)
            status = 403
        elif kind == "unknown":
            save = consumer[0]
            consumer[0] = [save + "x", "x", lti.ToolProvider.dummy_client,
                           save.upper() + "Z"][k % 4]
            pairs = self.build(ci, params, dt, nonce, secret=[
                None, "secret"][k % 2])
            consumer[0] = save
            status = 403
        elif kind == "alter":
            pairs = self.build(ci, params, dt, nonce)
            i = k % len(pairs)
            how = k // 7 % 5
            name, value = pairs[i]
            if how == 0:
                pairs[i] = (name, value + "x" if value != "HMAC-SHA1"
                            else "PLAINTEXT")
            elif how == 1:
                del pairs[i]
                if (name, value) in pairs:
                    return
            elif how == 2:
                pairs.insert(i, ("extra", value))
            elif how == 3:
                pairs.append((name, "y"))
            else:
                other = "Instructor"
                pairs = [(a, other if a == "roles" else v)
                         for a, v in pairs]
                if dict(params).get("roles") == other:
                    return
                if "roles" not in dict(params):
                    pairs.append(("roles", other))
            status = 403
        elif kind == "method":
            pairs = self.build(ci, params, dt, nonce)
            method = "PUT"
            status = 403
        elif kind == "ctype":
            pairs = self.build(ci, params, dt, nonce)
            ctype = [None, "text/plain", "multipart/form-data"][k % 3]
            status = 403
        elif kind == "urlquery":
            # a query that was not signed
            pairs = self.build(ci, params, dt, nonce)
            query = "extra=1"
            status = 403
        elif kind == "protocol":
            i, v = [(0, "basic-lti-launch"), (1, "LTI-2p0"), (0, ""),
                    (1, "")][k % 4]
            params[i] = (params[i][0], v)
            pairs = self.build(ci, params, dt, nonce)
            status = 400
        elif kind == "case":
            # the message type is compared without regard to case
            params[0] = (params[0][0], params[0][1].upper())
            pairs = self.build(ci, params, dt, nonce)
        elif kind == "nolink":
            # (the context may be stored all the same)
            params = [p for p in params if p[0] != "resource_link_id" and
                      not p[0].startswith("context_")]
            pairs = self.build(ci, params, dt, nonce)
            status = 400
        elif kind == "oauth":
            drop = ["oauth_consumer_key", "oauth_nonce", "oauth_timestamp",
                    "oauth_signature_method"][k % 4]
            pairs = self.build(ci, params, dt, nonce, drop=(drop,))
            status = 403
        elif kind == "rsa":
            pairs = self.build(ci, params, dt, nonce)
            pairs = [(a, "RSA-SHA1" if v == "HMAC-SHA1" else v)
                     for a, v in pairs]
            status = 403
        if body is None:
            body = self.encode(pairs, style)
        if status == 400:
            # used up all the same
            self.nonces[ci, nonce] = self.clock.now
        what = "launch (%s)" % kind
        jar = {} if frame else b.jar
        if status != 200:
            before = self.counts()
            keep = dict(b.jar)
            r = self.send(b, method, "/launch", query, body, ctype)
            eq(r.status, status, what + ": status")
            eq(r.seen, None, what + ": page seen")
            eq(self.counts(), before, what + ": data stored")
            b.jar = keep
            self.stats["refused"] += 1
            return
        jar = dict(jar)
        session, established = self.set_session(jar)
        r = self.send(b, method, "/launch", query, body, ctype,
                      {} if frame else None)
        eq(r.status, 303, what + ": status")
        self.nonces[ci, nonce] = self.clock.now
        self.sent.append((query, body, ctype, self.clock.now))
        self.stats["launched"] += 1
        self.issued(r, session, established)
        self.launched(ci, params, session)
        link = (ci, dict(params)["resource_link_id"])
        tested = "ctest" in jar
        if tested:
            target = r.location
        else:
            # the cookie test
            head, _, q = r.location.partition("?")
            eq(head, self.app_root + "ctest", what + ": cookie test")
            target = parse_qs(q)["return"][0]
        ok(target.startswith(self.app_root + "resource/"),
           what + ": redirected to", target)
        path = target[len(self.app_root) - 1:]
        if link in self.paths:
            eq(path, self.paths[link], what + ": path of a known resource")
        else:
            ok(path not in self.paths.values(), "path of another resource",
               path)
            self.paths[link] = path
        if not tested:
            if frame:
                r = self.send(b, "GET", "/ctest", q, jar={})
                eq(r.status, 200, what + ": blocked cookies")
                m = re.findall(r"<a href=(\"[^\"]*\"|'[^']*')",
                               r.body.decode("utf-8"))
                head, _, q = html.unescape(m[0][1:-1]).partition("?")
                eq(head, self.app_root + "wlaunch", what + ": new window")
                self.clock.now += delay
                if "ctest" in b.jar:
                    # an older session may be there
                    older, established = self.set_session(b.jar)
                    r = self.send(b, "GET", "/wlaunch", q)
                    eq(r.status, 303, what + ": status of the new window")
                    eq(r.location, target, what + ": new window leads to")
                    self.issued(r, older, established)
                    if older.visits:
                        self.stats["merged"] += 1
                    for v in session.visits:
                        self.add_visit(older, v)
                    session.visits = []
                    self.do_open(n, link)
                    return
                seen = self.clock.now - delay
                r = self.send(b, "GET", "/wlaunch", q)
                eq(r.status, 303, what + ": status of the new window")
                self.cookies[r.sid] = (session, False, seen)
                head, _, q = r.location.partition("?")
                eq(head, self.app_root + "ctest", what + ": second test")
            elif delay:
                self.clock.now += delay
            session, established = self.set_session(b.jar)
            r = self.send(b, "GET", "/ctest", q)
            eq(r.status, 303, what + ": status of the cookie test")
            eq(r.location, target, what + ": cookie test leads to")
            self.issued(r, session, established)
        self.do_open(n, link)

    def counts(self):
        out = []
        for name in ("Contexts", "Resources", "Users", "Visits"):
            with self.app.container[name].open() as collection:
                out.append(len(collection))
        return out

    def do_open(self, n, link):
        """Opens a resource: a tuple, or a number of a known one"""
        b = self.browsers[n]
        if not isinstance(link, tuple):
            if not self.paths:
                return
            link = sorted(self.paths)[link % len(self.paths)]
        session, established = self.set_session(b.jar)
        has_test = "ctest" in b.jar
        r = self.send(b, "GET", self.paths[link])
        self.issued(r, session, established)
        if not has_test:
            eq(r.status, 303, "status of a resource without cookies")
            return
        visit = [v for v in session.visits if v[0] == link]
        if not visit:
            eq(r.status, 403, "status of a resource that was not launched in "
               "this session")
            eq(r.seen, None, "resource seen without a visit")
            self.stats["denied"] += 1
            return
        eq(r.status, 200, "status of a launched resource")
        _, user, perms = visit[0]
        self.stats["seen"] += 1
        title, description, group = self.resources[link]
        g = None
        if group:
            g = (group,) + tuple(self.contexts[link[0], group])
        u = None
        display = ""
        if user:
            given, family, full, email = self.users[link[0], user]
            u = (user, given, family, full, email)
            display = full or (given and family and
                               "%s %s" % (given, family)) or given or \
                email or ""
        got = r.seen
        blank = lambda t: t and tuple(x or None for x in t)
        eq(got[0], self.consumers[link[0]][0], "consumer of a visit")
        eq(got[1:2] + blank(got[2:4]), (link[1], title, description),
           "resource of a visit")
        eq(blank(got[4]), blank(u), "user of a visit")
        eq(blank(got[5]), blank(g), "context of a visit")
        eq(got[6], perms, "permissions of a visit")
        eq(got[7], display, "display name of the user")


USERS = ["u1", "u2", "u'3 &=", None]
LINKS = ["r1", "r2", "r 3'%"]
ROLES = [None, "Learner", "Instructor", "urn:lti:role:ims/lis/Learner",
         "Learner/NonCreditLearner", "urn:lti:role:ims/lis/Instructor/Lecturer",
         "Mentor", "urn:lti:sysrole:ims/lis/SysAdmin", "Learner,Instructor",
         "Mentor, Learner", "http://example.com/role", "Unknown", "",
         "Unknown,Instructor", "urn:lti:instrole:ims/lis/Instructor",
         "urn:lti:role:ims/lis/Learner/Instructor", "not a role|",
         "Instructor/Nothing", "learner",
         "urn:lti:role:ims/lis/TeachingAssistant", "urn:lti:role:x"]
TYPES = [None, "CourseSection", "Group,CourseOffering", "", "Unknown",
         "urn:lti:context-type:ims/lis/Group", "Unknown,Group",
         "http://example.com/type", "bad type|"]
TEXT = [None, "Title", "T\xeftle <b>&amp;", "\u4e00 'x'", "", "a=b&c d+e"]


@st.composite
def launch_params(draw):
    p = [("resource_link_id", draw(st.sampled_from(LINKS)))]

    def add(name, pool):
        v = draw(st.sampled_from(pool))
        if v is not None:
            p.append((name, v))

    add("user_id", USERS)
    add("roles", ROLES)
    if draw(st.booleans()):
        add("context_id", ["c1", "c2", "", "c 3"])
        add("context_type", TYPES)
        add("context_title", TEXT)
        add("context_label", TEXT)
    if draw(st.booleans()):
        add("resource_link_title", TEXT)
        add("resource_link_description", TEXT)
    if draw(st.booleans()):
        for n in ("name_given", "name_family", "name_full",
                  "contact_email_primary"):
            add("lis_person_" + n, TEXT)
    if draw(st.integers(0, 3)) == 3:
        p += [("custom_x", "1"), ("custom x&", "\xe9 ~*!'()"), ("custom_y",
                                                               "")]
    return draw(st.permutations(p)) if draw(st.booleans()) else p


KINDS = ["nonce", "nonce", "nonce", "nonce", "replay", "stale", "secret", "unknown", "alter", "alter",
         "method", "ctype", "urlquery", "protocol", "case", "nolink", "oauth",
         "rsa", "query", "oauthquery"]


@st.composite
def histories(draw):
    level = draw(st.booleans())
    keys = draw(st.lists(st.tuples(
        st.sampled_from(["k", "key ", "K+&"]),
        st.sampled_from(["secret", "s\xe9cret &", "a", "\u4e00%20+", "S" * 30])
    ), min_size=1, max_size=2))
    out = []
    for i in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(
            ["launch"] * 6 + ["open"] * 3 + ["time"] * 2 + ["secret"]))
        if kind == "launch":
            how = "good"
            if level and draw(st.booleans()):
                how = draw(st.sampled_from(KINDS))
            out.append((kind, draw(st.integers(0, 1)),
                        draw(st.integers(0, 1)), draw(launch_params()), how,
                        draw(st.integers(0, 60)), draw(st.integers(0, 1)),
                        draw(st.integers(0, 3)) == 3,
                        draw(st.sampled_from([0, 0, 0, 0, 100, 121]))))
        elif kind == "open":
            out.append((kind, draw(st.integers(0, 1)),
                        draw(st.integers(0, 5))))
        elif kind == "time":
            out.append((kind, draw(st.sampled_from(
                [1, 60, 600, 601, 4000, 5401]))))
        else:
            out.append((kind, draw(st.integers(0, 1)), draw(st.sampled_from(
                ["new", "n\xe9w", "secret", "x y"]))))
    return (draw(st.sampled_from(
        ["http://localhost:8080", "https://www.example.com",
         "http://www.example.com"])), draw(st.sampled_from(["", "/app"])),
        keys, out)


def check_history(case, c):
    saved = (iso8601.pytime, wsgi.time, http_cookie.time, lti.time,
             oauth_base.time)
    clock = Clock()
    logging.disable(logging.CRITICAL)
    try:
        # the data store makes keys at random and outlives the case
        random.seed(os.urandom(8))
        world = World(case)
        iso8601.pytime = world.clock
        wsgi.time = http_cookie.time = lti.time = oauth_base.time = \
            types.SimpleNamespace(time=world.clock.time)
        world.run()
    finally:
        (iso8601.pytime, wsgi.time, http_cookie.time, lti.time,
         oauth_base.time) = saved
        logging.disable(logging.NOTSET)
    s = world.stats
    for k, v in s.items():
        if v:
            c.label(k)
    c.nontrivial(s["seen"] > 0 and s["launched"] + s["refused"] > 1)


PROPS = [
    Prop("launches", histories(), check_history, 800, 15000,
         rule="several launches, accepted or refused, and a resource seen"),
]
