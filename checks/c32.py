"""C32: HTTP credentials are sent only within their protection space.

Grammar round trips of challenges and credentials, and histories of
requests over simulated servers judged by a reference model of who may be
told which password.
"""
import base64

from hypothesis import strategies as st

from vlib import Prop, eq, ok, fail, Discard

import pyslet.rfc2396 as uri
from pyslet.http import auth, client as http, messages

from checks import fakenet


# ------------------------------------------------------ basic credentials

latin = st.text(st.characters(min_codepoint=0, max_codepoint=255),
                max_size=12)
users = st.one_of(latin, st.text("ab ", max_size=3)).map(
    lambda s: s.replace(":", ";"))
passwords = st.one_of(latin, st.text("ab: ", max_size=4))


def check_basic(case, c):
    user, password, scheme, sp, bad = case
    b64 = base64.b64encode(
        ("%s:%s" % (user, password)).encode("iso-8859-1"))
    cr = auth.BasicCredentials()
    cr.userid, cr.password = user, password
    eq(cr.to_bytes(), b"Basic " + b64, "formatted", case)
    req = messages.Request()
    req.set_authorization(cr)
    eq(req.get_header("Authorization"), b"Basic " + b64, "header", case)
    req.set_header("Authorization", scheme + sp + b64)
    got = req.get_authorization()
    ok(isinstance(got, auth.BasicCredentials), "type", got)
    eq((got.scheme, got.userid, got.password), ("Basic", user, password),
       "parsed", case)
    req.set_authorization(None)
    eq(req.get_authorization(), None, "removed", req.headers)
    ok(not req.has_header("Authorization"), "removed", req.headers)
    c.nontrivial(bool(user and password))
    if bad is not None:
        where, what = bad
        i = where % (len(b64) + 1)
        text = scheme + sp + (b64[:i] + what + b64[i:] if what else b64[:i])
        try:
            raw = base64.b64decode(text[len(scheme + sp):].replace(
                b" ", b"").replace(b"\t", b""), validate=True)
        except ValueError:
            raw = b""
        try:
            got = auth.Credentials.from_str(text)
        except ValueError:
            ok(b":" not in raw, "refused", text)
            c.label("refused")
        else:
            ok(b":" in raw, "accepted", text, got.userid, got.password)
            eq((got.userid, got.password),
               tuple(raw.decode("iso-8859-1").split(":", 1)), "parsed", text)


# -------------------------------------------------------------- challenges

tokens = st.one_of(st.text("abXY1", min_size=1, max_size=5),
                   st.sampled_from(["realm", "nonce", "a-b", "!#$%&'*+.^_`|"]))
texts = st.lists(st.one_of(
    st.sampled_from(list(b" \",\\=ab:/()")),
    st.integers(0x20, 0x7E), st.integers(0x80, 0xFF)),
    max_size=8).map(bytes)
schemes = st.sampled_from(["Basic", "basic", "Digest", "Negotiate",
                           "X-Other", "BASIC"])


@st.composite
def challenges(draw):
    out = []
    for i in range(draw(st.integers(1, 3))):
        ps, names = [], set()
        for j in range(draw(st.integers(0, 3))):
            n = draw(tokens)
            if n.lower() in names:
                continue
            names.add(n.lower())
            ps.append((n, draw(st.one_of(texts, tokens.map(
                lambda s: s.encode()))), draw(st.booleans())))
        out.append((draw(schemes), ps))
    return out


TOKEN = set(b"!#$%&'*+-.^_`|~0123456789"
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")


def spell(ch, rnd):
    """One spelling of a list of challenges"""
    items = []
    for scheme, ps in ch:
        out = scheme.encode()
        for i, (n, v, q) in enumerate(ps):
            out += b" " * rnd.randint(1, 2) if i == 0 else rnd.choice(
                [b",", b", ", b" ,", b" , ,\t"])
            eqs = rnd.choice([b"=", b"=", b" = ", b"= "])
            if v and set(v) <= TOKEN and not q:
                out += n.encode() + eqs + v
            else:
                out += n.encode() + eqs + b'"' + b"".join(
                    (b"\\" if x in b'"\\' or (x < 128 and rnd.random() < .1) else
                     b"") +
                    bytes([x]) for x in v) + b'"'
        items.append(out)
    return rnd.choice([b", ", b",", b" ,", b",,"]).join(items)


def same(got, expect, what, *info):
    scheme, ps = expect
    eq(got.scheme.lower(), scheme.lower(), what + " scheme", *info)
    eq(isinstance(got, auth.BasicChallenge), scheme.lower() == "basic",
       "BasicChallenge", *info)
    pairs = [(n, v) for n, v, q in ps]
    if not any(n.lower() == "realm" for n, v in pairs):
        pairs.append(("realm", b"Default"))
    eq([(n, v) for n, v, q in got], pairs, what, *info)
    for n, v in pairs:
        eq(got[n], v, what + " by name", n, *info)
        eq(got[n.upper()], v, what + " by name", n, *info)
        ok(n.lower() in got, "in", n, *info)


def check_challenge(case, c):
    ch, rnd, cut = case
    made = [auth.Challenge(s, *ps) if s != "Basic" else
            auth.BasicChallenge(*ps) for s, ps in ch]
    for a, (scheme, ps) in zip(made, ch):
        if (scheme.lower() == "basic") == isinstance(
                a, auth.BasicChallenge):
            same(a, (scheme, ps), "constructed", case)
    # a single challenge
    same(auth.Challenge.from_str(made[0].to_bytes()), ch[0], "reparsed",
         made[0].to_bytes())
    r = messages.Response(messages.Request())
    r.set_www_authenticate(made)
    got = r.get_www_authenticate()
    eq(len(got), len(ch), "number of challenges", r.headers)
    for g, e in zip(got, ch):
        same(g, e, "formatted and parsed", r.headers)
    text = spell(ch, rnd)
    r.set_www_authenticate(None)
    eq(r.get_www_authenticate(), [], "removed", r.headers)
    r.set_header("WWW-Authenticate", text)
    got = r.get_www_authenticate()
    eq(len(got), len(ch), "number of challenges", text)
    for g, e in zip(got, ch):
        same(g, e, "parsed", text)
    # truncated text is refused or means something else, never crashes
    try:
        auth.Challenge.list_from_str(text[:cut])
    except ValueError:
        c.label("refused")
    c.nontrivial(len(ch) > 1)


# ------------------------------------------------------------------- paths

segments = st.sampled_from(["", "a", "b", "ab", "c", ".", "..", "%61"])
paths = st.lists(segments, min_size=1, max_size=5)


def normal(segs):
    """RFC 3986 remove_dot_segments; None if above the root"""
    out = []
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == ".":
            if last:
                out.append("")
        elif s == "..":
            if not out:
                return None
            out.pop()
            if last:
                out.append("")
        else:
            out.append(s)
    return out


def prefix(path):
    """The directory of a path"""
    segs = normal(path.split("/")[1:-1] + [""])
    return None if segs is None else "/" + "/".join(segs)


def within(dirs, path):
    return any(path.startswith(d) for d in dirs)


def check_paths(case, c):
    success, test = case
    cr = auth.BasicCredentials()
    cr.protectionSpace = uri.URI.from_octets("http://x.com")
    dirs = []
    for p in success:
        p = "/" + "/".join(p)
        d = prefix(p)
        if d is None or normal(p.split("/")[1:]) is None:
            raise Discard
        cr.add_success_path(p)
        dirs.append(d)
        for t in test:
            n = normal(t)
            if n is None:
                continue
            expect = within(dirs, "/" + "/".join(n))
            t = "/" + "/".join(t)
            eq(cr.test_path(t), expect, "path", t, dirs)
            if not t.startswith("//"):
                eq(cr.test_url(uri.URI.from_octets(
                    "HTTP://X.com:80" + t + "?a=/b")), expect, "url", t,
                    dirs)
                for other in ("https://x.com", "http://x.com:81",
                              "http://y.x.com", "http://x.co"):
                    ok(not cr.test_url(uri.URI.from_octets(other + t)),
                       "another server", other + t)
            c.label("inside" if expect else "outside")
            c.nontrivial(len(set(dirs)) > 1)


# ----------------------------------------------------------------- matches

ROOTS = ["http://a.com", "https://a.com", "http://a.com:8080",
         "http://b.com"]
REALMS = [None, "R1", "R2", "r1", ""]


@st.composite
def matches(draw):
    creds = draw(st.lists(st.tuples(
        st.integers(0, 3), st.sampled_from(REALMS)), max_size=5))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("find"), st.integers(0, 3),
                  st.sampled_from(REALMS),
                  st.sampled_from(["Basic", "Basic", "Basic", "Digest"])),
        st.tuples(st.just("remove"), st.integers(0, 4)),
        st.tuples(st.just("add"), st.integers(0, 4))), max_size=8))
    return creds, ops


def check_match(case, c):
    creds, ops = case
    cl = http.Client()
    objs = []
    for root, realm in creds:
        cr = auth.BasicCredentials()
        cr.protectionSpace = uri.URI.from_octets(ROOTS[root])
        cr.realm = realm
        cr.userid, cr.password = "u%i" % len(objs), "p"
        cl.add_credentials(cr)
        objs.append(cr)
    model = list(objs)
    for op in ops:
        if op[0] == "find":
            params = [] if op[2] is None else [
                ("realm", op[2].encode(), True)]
            ch = auth.BasicChallenge(*params) if op[3] == "Basic" else \
                auth.Challenge(op[3], *params)
            ch.protectionSpace = uri.URI.from_octets(
                ROOTS[op[1]] + "/x").get_canonical_root()
            realm = "Default" if op[2] is None else op[2]
            expect = None
            for cr in model:
                root, r = creds[objs.index(cr)]
                fits = op[3] == "Basic" and root == op[1] and (
                    r is None or r == realm)
                eq(cr.match_challenge(ch), fits, "match_challenge", op,
                   root, r)
                eq(cr.match(ch), fits, "match", op, root, r)
                if fits and expect is None:
                    expect = cr
            ok(cl.find_credentials(ch) is expect, "found", op, creds)
            c.label("found" if expect else "none")
            c.nontrivial(len(model) > 1)
        elif objs:
            cr = objs[op[1] % len(objs)]
            if op[0] == "remove":
                cl.remove_credentials(cr)
                model = [x for x in model if x is not cr]
            elif not any(x is cr for x in model):
                cl.add_credentials(cr)
                model.append(cr)
    cl.close()


# --------------------------------------------------------------- histories

PATHS = ["/", "/x", "/a/", "/a/x", "/a/b/x", "/a/b/c", "/ab/x", "/a"]
RESOURCES = [(r, p) for r in range(4) for p in range(len(PATHS))]


@st.composite
def histories(draw):
    """rules: resource -> what is there"""
    rules = {}
    focus = draw(st.integers(0, 3))
    roots = st.sampled_from(draw(st.sampled_from(
        [[focus], [focus, focus, focus, 0, 1, 2, 3]])))
    resources = st.tuples(roots, st.integers(0, len(PATHS) - 1)).map(
        RESOURCES.index)
    for i in draw(st.lists(resources, min_size=1, max_size=10,
                           unique=True)):
        kind = draw(st.sampled_from(["auth", "auth", "auth", "redirect",
                                     "missing"]))
        if kind == "auth":
            rules[i] = (kind, draw(st.lists(st.tuples(
                st.sampled_from(["R1", "R2"]),
                st.sampled_from(["Basic", "Basic", "Digest"])),
                min_size=1, max_size=2)),
                draw(st.one_of(st.just([0, 1, 2, 3]),
                               st.lists(st.integers(0, 3), max_size=3))),
                draw(st.sampled_from([200, 200, 404])))
        elif kind == "redirect":
            rules[i] = (kind, draw(resources),
                        draw(st.sampled_from([301, 302, 303, 307])),
                        draw(st.booleans()))
        else:
            rules[i] = (kind,)
    creds = draw(st.lists(st.tuples(
        roots, st.sampled_from([None, None, "R1", "R2"])),
        min_size=1, max_size=4))
    used = sorted(rules)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("get"), st.sampled_from(used),
                  st.sampled_from([None, None, None, None, "me"])),
        st.tuples(st.just("get"), resources, st.none()),
        st.tuples(st.just("get"), resources, st.none()),
        st.tuples(st.sampled_from(["remove", "add"]), st.integers(0, 3))),
        min_size=2, max_size=8))
    return rules, creds, ops, draw(st.integers(0, 3))


def user_of(header):
    if header is None:
        return None
    ok(header.startswith("Basic "), "Authorization header", header)
    return base64.b64decode(header[6:]).decode().split(":")[0]


class Server(object):

    def __init__(self, rules):
        self.rules = rules
        self.log = []

    def connection(self, host, port):
        p = fakenet.Peer(self)
        p.root = ROOTS.index({
            ("a.com", 80): "http://a.com", ("a.com", 443): "https://a.com",
            ("a.com", 8080): "http://a.com:8080",
            ("b.com", 80): "http://b.com"}[(host, port)])
        return p

    def handle(self, peer, method, target, headers, body):
        hs = [v for n, v in headers if n == "authorization"]
        ok(len(hs) < 2, "Authorization headers", headers)
        user = user_of(hs[0] if hs else None)
        res = RESOURCES.index((peer.root, PATHS.index(target)))
        self.log.append((res, user))
        ok(len(self.log) < 200, "endless requests", self.log[-20:])
        status, hs = respond(self.rules, res, user)
        peer.out += ("HTTP/1.1 %i X\r\nContent-Length: 0\r\n%s\r\n" % (
            status, "".join("%s: %s\r\n" % x for x in hs))).encode()


def url_of(res):
    r, p = RESOURCES[res]
    return ROOTS[r] + PATHS[p]


def respond(rules, res, user):
    rule = rules.get(res, ("open",))
    if rule[0] == "auth":
        if user is not None and user in ["u%i" % i for i in rule[2]]:
            return rule[3], []
        return 401, [("WWW-Authenticate", ", ".join(
            '%s realm="%s"' % (s, r) for r, s in rule[1]))]
    elif rule[0] == "redirect" and rule[1] > res:
        loc = url_of(rule[1])
        if rule[3] and RESOURCES[rule[1]][0] == RESOURCES[res][0]:
            loc = PATHS[RESOURCES[rule[1]][1]]
        return rule[2], [("Location", loc)]
    return 404 if rule[0] == "missing" else 200, []


class Model(object):

    def __init__(self, rules, creds):
        self.rules = rules
        self.creds = creds
        self.active = list(range(len(creds)))
        self.dirs = [[] for cr in creds]
        self.log = []

    def get(self, res, user):
        tried = None
        while True:
            root, path = RESOURCES[res]
            path = PATHS[path]
            if user is None:
                for i in self.active:
                    if self.creds[i][0] == root and within(
                            self.dirs[i], path):
                        user = "u%i" % i
                        break
            self.log.append((res, user))
            status, hs = respond(self.rules, res, user)
            if tried is not None:
                if status == 401:
                    if tried in self.active:
                        self.active.remove(tried)
                else:
                    self.dirs[tried].append(prefix(path))
                tried = None
            if 300 <= status < 400:
                nxt = self.rules[res][1]
                if RESOURCES[nxt][0] != root:
                    user = None
                res = nxt
            elif status == 401:
                for realm, scheme in self.rules[res][1]:
                    for i in self.active:
                        r, rr = self.creds[i]
                        if scheme == "Basic" and r == root and (
                                rr is None or rr == realm):
                            tried = i
                            break
                    if tried is not None:
                        break
                if tried is None:
                    return status
                user = "u%i" % tried
            else:
                return status


def check_history(case, c):
    rules, creds, ops, frag = case
    server = Server(rules)
    cl = fakenet.Net(server, frag).client()
    objs = []
    for root, realm in creds:
        cr = auth.BasicCredentials()
        cr.protectionSpace = uri.URI.from_octets(ROOTS[root])
        cr.realm = realm
        cr.userid, cr.password = "u%i" % len(objs), "p"
        cl.add_credentials(cr)
        objs.append(cr)
    model = Model(rules, creds)
    for op in ops:
        n = len(server.log)
        if op[0] == "get":
            req = http.ClientRequest(url_of(op[1]))
            if op[2]:
                cr = auth.BasicCredentials()
                cr.userid, cr.password = op[2], "p"
                req.set_authorization(cr)
            cl.process_request(req)
            status = model.get(op[1], op[2])
            got, expect = server.log[n:], model.log[n:]
            # what matters most
            for res, user in got:
                if user is None:
                    continue
                root = RESOURCES[res][0]
                if user == op[2]:
                    eq(root, RESOURCES[op[1]][0], "the user's header was "
                       "sent to another server", got, case)
                else:
                    eq(root, creds[int(user[1:])][0], "credentials sent to "
                       "another server", got, case)
            eq(got, expect, "requests", [url_of(r) for r, u in got], op,
               case)
            eq(req.status, status, "status", op, case)
            c.label("%i requests" % min(len(got), 4))
            if any(u for r, u in got):
                c.nontrivial()
        elif op[1] < len(objs):
            if op[0] == "remove":
                cl.remove_credentials(objs[op[1]])
                if op[1] in model.active:
                    model.active.remove(op[1])
            elif op[1] not in model.active:
                cl.add_credentials(objs[op[1]])
                model.active.append(op[1])


PROPS = [
    Prop("basic", st.tuples(
        users, passwords, st.sampled_from([b"Basic", b"basic", b"BASIC"]),
        st.sampled_from([b" ", b"  "]),
        st.one_of(st.none(), st.tuples(st.integers(0, 40), st.sampled_from(
            [b"", b"!", b"=", b"a", b"-", b"\xe9"])))),
        check_basic, quick=2000, rule="user and password not empty"),
    Prop("challenge", st.tuples(
        challenges(), st.randoms(use_true_random=False),
        st.integers(0, 60)), check_challenge, quick=2000,
        rule="more than one challenge"),
    Prop("paths", st.tuples(st.lists(paths, min_size=1, max_size=4),
                            st.lists(paths, min_size=1, max_size=6)),
         check_paths, quick=2500, rule="two different success paths"),
    Prop("match", matches(), check_match, quick=1500,
         rule="two or more credentials"),
    Prop("history", histories(), check_history, quick=2500,
         rule="credentials were sent"),
]
