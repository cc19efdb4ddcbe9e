"""names, versions, file names and URLs (devpi_common), credentials in URLs"""
import itertools
import logging
import random
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, mem
from contracts import app
from contracts.mocks import Obj

# ------------------------------------------------------------------ URL


@contract(["C02", "A05"], "devpi_common.url:URL.replace", cross=200,
          assumed=["urllib.parse.urlparse splits a URL into its parts, urlunsplit puts them together"])
def url_replace(c):
    """only what is asked for is changed; everything else is kept"""
    import devpi_common.url as m
    parts = dict(
        username=c.opt("username", lambda n: c.str(n, ["u", "x"])),
        password=c.opt("password", lambda n: c.str(n, ["p"])),
        hostname=c.str("hostname", ["h", "h.example", "::1", "fe80::2"]),
        port=c.opt("port", lambda n: c.int(n, 1, 65535)))
    c.assume(And(Not(Eq(parts["hostname"], "")), Not(mem("[", parts["hostname"])), Not(mem("]", parts["hostname"]))))
    if parts["username"] is not None:
        c.assume(Not(Eq(parts["username"], "")))
    if parts["password"] is not None:
        c.assume(Not(Eq(parts["password"], "")))
    other = {f: c.str(f, ["", "x", "/a"]) for f in ("scheme", "path", "query", "fragment")}

    def host(h):
        return "[" + h + "]" if mem(":", h) else h

    def join(username, password, hostname, port):
        n = ""
        if username is not None:
            n = n + username
        if password is not None:
            n = n + ":" + password
        if username is not None or password is not None:
            n = n + "@"
        n = n + host(hostname)
        if port is not None:
            n = n + ":%s" % (port,)
        return n
    netloc = join(**parts)
    u = c.blank(m.URL, url="x")
    u.__dict__["_parsed"] = Obj(netloc=netloc, **other)
    for k, v in parts.items():
        u.__dict__[k] = v
    u.__dict__["netloc"] = netloc
    out = []
    c.patch(m, "urlunsplit", lambda t: out.append(tuple(t)) or "URL")
    kw = c.dict()
    what = c.pick("what", ["username", "password", "both", "hostname", "port", "none"])
    want = dict(parts)
    if what in ("username", "both"):
        want["username"] = kw["username"] = c.opt("new username", lambda n: c.str(n, ["n"]))
    if what in ("password", "both"):
        want["password"] = kw["password"] = c.opt("new password", lambda n: c.str(n, ["q"]))
    for k in ("username", "password"):
        if kw.get(k) is not None:
            c.assume(Not(Eq(kw[k], "")))
    if what == "hostname":
        want["hostname"] = kw["hostname"] = c.str("new host", ["g"])
        c.assume(And(Not(Eq(kw["hostname"], "")), Not(mem(":", kw["hostname"]))))
    if what == "port":
        want["port"] = kw["port"] = c.opt("new port", lambda n: c.int(n, 1, 65535))
    fields = c.pick("fields", [(), ("path",), ("fragment",), ("path", "fragment"), ("query",)])
    for f in fields:
        kw[f] = c.str("new " + f, ["", "/b", "q=1"])
    c.patch(m, "urlencode", lambda v: c.stop() if not isinstance(v, str) else (_ for _ in ()).throw(TypeError()))
    r = c.call(u.replace, **dict(kw))
    c.ensures("no exception", r.ok, r)
    c.ensures("one URL is put together", len(out) == 1)
    scheme, nl, path, query, fragment = out[0]
    c.ensures("host, port and credentials: exactly the named ones change", Eq(nl, join(**want)))
    for f, v in (("scheme", scheme), ("path", path), ("query", query), ("fragment", fragment)):
        c.ensures("exactly the named parts change: " + f, Eq(v, kw.get(f, other[f])))


@contract("A05", "devpi_common.url:URL.__repr__", cross=40, covers=["secret", "plain"],
          assumed=["URL.replace changes exactly the named parts (contract url_replace)"])
def url_repr(c):
    """what is printed is the URL with user name and password replaced"""
    import devpi_common.url as m
    user = c.opt("username", lambda n: c.str(n, ["", "u"]))
    pw = c.opt("password", lambda n: c.str(n, ["", "p"]))

    class Enc:
        def __init__(self, tag):
            self.tag = tag

        def encode(self):
            return self

        def __repr__(self):
            return "b'%s'" % (self.tag,)

    class U(m.URL):
        def __init__(self, user, pw):
            self.__dict__.update(username=user, password=pw, url=Enc("clean" if ok(user) and ok(pw) else "SECRET"))

        def replace(self, **kw):
            d = dict(username=self.username, password=self.password)
            d.update(kw)
            return U(d["username"], d["password"])

    def ok(x):
        return x is None or (isinstance(x, str) and type(x) is str and x == "****") or bool(Eq(x, ""))
    u = U(user, pw)
    r = c.call(u.__repr__)
    c.ensures("no exception", r.ok, r)
    c.ensures("neither user name nor password is shown", "SECRET" not in r.value)
    c.cover("plain" if ok(user) and ok(pw) else "secret")


HOSTS = ["h", "pypi.example.org", "h:8080", "[::1]", "[::1]:8080", "10.0.0.1:1"]
PWS = ["s3cr3t", "s@cr:t", "%20s%40", "s/cr#t".replace("/", "%2F").replace("#", "%23"), ":s:"]
PATHS = ["", "/", "/simple", "/simple/", "/a/b/c", "/a b/c", "/+simple/", "/a/../b"]


@contract(["C02", "A05"], ["devpi_common.url:URL.replace", "devpi_common.url:URL.__repr__", "devpi_common.url:URL.joinpath",
                           "devpi_common.url:URL.addpath", "devpi_common.url:URL.asdir", "devpi_common.url:URL.asfile",
                           "devpi_common.url:URL.torelpath", "devpi_common.url:URL.fromrelpath", "devpi_common.url:URL.hash_spec"],
          mode="concrete", cross=600, strict=True, bound="generated URLs with and without credentials, ports, IPv6 hosts, queries, fragments")
def url_real(c):
    from devpi_common.url import URL
    from urllib.parse import urlsplit
    scheme = c.pick("scheme", ["http", "https"])
    host = c.pick("host", HOSTS)
    user, pw = c.pick("user", ["", "u", "t0ken"]), c.pick("password", ["", *PWS])
    path = c.pick("path", PATHS)
    query = c.pick("query", ["", "a=1", "a=1&b=x%2F"])
    frag = c.pick("fragment", ["", "sha256=" + "a" * 64, "md5=" + "b" * 32, "egg=foo"])
    cred = user + (":" + pw if pw else "") + "@" if user or pw else ""
    s = "%s://%s%s%s%s%s" % (scheme, cred, host, path, "?" + query if query else "", "#" + frag if frag else "")
    u = URL(s)
    c.ensures("a URL is its text", str(u) == s and u == URL(u))
    rep = repr(u)
    if pw:
        c.ensures("the password is not printed", pw not in rep.replace("****", ""), rep)
    if user:
        c.ensures("the user name is not printed", "/%s:" % user not in rep and "/%s@" % user not in rep, rep)
    p0 = urlsplit(s)

    def same(v, but=()):
        p = urlsplit(v.url)
        return all(getattr(p, f) == getattr(p0, f) for f in
                   ("scheme", "username", "password", "hostname", "port", "path", "query", "fragment") if f not in but)
    n = u.replace(username=None, password=None)
    c.ensures("removing credentials keeps the rest", same(n, ("username", "password")), n.url)
    c.ensures("and removes them", not urlsplit(n.url).username and not urlsplit(n.url).password, n.url)
    if user or pw:
        back = n.replace(username=u.username, password=u.password)
        c.ensures("credentials put back give the same URL", same(back), back.url)
    c.ensures("changing the path keeps the rest", same(u.replace(path="/x/y"), ("path",)) and u.replace(path="/x/y").path == "/x/y")
    c.ensures("removing the fragment keeps the rest", same(u.geturl_nofragment(), ("fragment",)) and URL(u.url_nofrag).fragment == "")
    c.ensures("changing the port keeps the rest", same(u.replace(port=99), ("port",)) and u.replace(port=99).port == 99)
    d = u.asdir()
    c.ensures("as directory", same(d, ("path",)) and d.path == (path if path.endswith("/") else path + "/"))
    f = u.asfile()
    c.ensures("as file", same(f, ("path",)) and f.path == path.rstrip("/"))
    if frag.startswith(("sha256", "md5")):
        t, _, v = frag.partition("=")
        c.ensures("the checksum of a URL", u.hash_type == t and u.hash_value == v and u.hash_spec == frag)
        c.ensures("and only of its kind", (u.sha256 == v) == (t == "sha256") and (u.md5 == v) == (t == "md5"))
    else:
        c.ensures("no checksum", not u.hash_spec and not u.hash_type)
    name = c.pick("name", ["pkg", "pkg-1.0.tar.gz", "a+b"])
    a = u.addpath(name)
    c.ensures("a path is added below", same(a, ("path", "fragment")) and a.path == (d.path + name if d.path != "" else "/" + name)
              or "/.." in path, a.url)
    a = u.addpath(name, asdir=True)
    c.ensures("a directory is added below", "/.." in path or a.path == d.path + name + "/", a.url)
    if path and not frag and not query:
        c.ensures("the relative file path stands for the URL", URL.fromrelpath(u.torelpath()) == u)
    tgt = c.pick("target", ["/simple/x", "/a/b/c/d", "/simple/", "/z"])
    if path.count("/") >= 1 and tgt.count("/") >= path.count("/") and " " not in path and ".." not in path:
        from urllib.parse import urljoin
        rel = u.relpath(tgt)
        c.ensures("a relative path leads to its target", urljoin("http://h" + path, rel) == "http://h" + tgt, (path, tgt, rel))


# ---------------------------------------------------- names and versions

ALPHA = ["a", "B", "1", "-", "_", ".", " ", "/"]


def norm_spec(s):
    """alphanumeric runs in lower case, one dash for everything in between"""
    out, sep = [], False
    for ch in s:
        if ch.isascii() and ch.isalnum():
            out.append(ch.lower())
            sep = False
        elif not sep:
            out.append("-")
            sep = True
    return "".join(out)


@contract("C02", "devpi_common.validation:normalize_name", mode="concrete", cross=1, strict=True,
          bound="all names up to 5 characters over %r" % "".join(ALPHA))
def normalize(c):
    from devpi_common.validation import normalize_name as nn
    c.flag("x")
    for n in range(6):
        for t in itertools.product(ALPHA, repeat=n):
            s = "".join(t)
            r = nn(s)
            if r != norm_spec(s) or nn(r) != r:
                c.ensures("names are identified exactly up to case and runs of separators", False, (s, r))
    c.ensures("all names", True)
    for s in ("Zope.Interface", "ruamel_yaml", "a" * 300, "\u00e4-b", "A__.--B", "x\n", "\U0001f600"):
        c.ensures("other names", nn(s) == norm_spec(s) and nn(nn(s)) == nn(s), s)


@contract("C02", "devpi_common.validation:validate_metadata", mode="concrete", cross=400, strict=True,
          bound="generated names and versions")
def metadata_names(c):
    from devpi_common.validation import validate_metadata
    r = random.Random(c.int("seed", 0, 10 ** 9))
    name = "".join(r.choice("abZ19-_. /<%#\u00e4:\n") if r.random() < .25 else r.choice("abcX1") for _ in range(r.randint(0, 6)))
    version = r.choice(["1.0", "", "1.0<", "..", ".", "1%2", "2#1", "1.0.dev1", 'a"b'])
    legal = (name != "" and all(ch.isascii() and (ch.isalnum() or ch in "._-") for ch in name) and
             name[0].isalnum() and name[-1].isalnum())
    ok = legal and version not in ("", ".", "..") and not any(ch in version for ch in '<>%#"')
    try:
        validate_metadata(dict(name=name, version=version))
        got = True
    except ValueError:
        got = False
    if name.endswith("\n") and got and not ok:
        # "$" also matches in front of a final newline
        c.ensures("names end with a letter or digit", not name[-1].isspace(), (name, version))
    c.ensures("exactly legal names and versions are accepted", got == ok, (name, version))


NAMES = ["pkg", "py-lib", "Zope_X", "a1", "x-2to3", "foo-bar-baz", "pkg2"]
VERS = ["1.0", "0", "2.0.1", "1.0a1", "1.0rc2", "1.0.post1", "1.0.dev3", "1!2.0", "1.0+local.1", "2024.1", "1.0b2.post1.dev4"]
EXTS = [".tar.gz", ".zip", ".tgz", ".tar.bz2", ".doc.zip", "-py2.py3-none-any.whl", "-cp39-cp39-linux_x86_64.whl",
        "-py2.7.egg", ".win32-py2.7.exe", ".linux-x86_64.tar.gz", ".ZIP", "-1.src.rpm", "-py27-none-any.whl",
        "-pp39-pypy39_pp73-manylinux_2_17_x86_64.whl", ".win-amd64-py3.6.exe", ".macosx-10.9-x86_64.tar.gz"]


@contract("C02", ["devpi_common.metadata:splitbasename", "devpi_common.metadata:splitext_archive",
                  "devpi_common.metadata:BasenameMeta", "devpi_common.metadata:get_pyversion_filetype"],
          mode="concrete", cross=400, strict=True, bound="generated file names")
def split_names(c):
    from devpi_common.metadata import BasenameMeta, get_pyversion_filetype, splitbasename, splitext_archive
    from devpi_common.validation import normalize_name
    if c.flag("wild"):
        r = random.Random(c.int("seed", 0, 10 ** 9))
        s = "".join(r.choice(["a", "1", "-", ".", "_", "py", "1.0", "-2", ".tar", "x", "+", "!", "-py3"]) for _ in range(r.randint(0, 8))) \
            + r.choice(EXTS + ["", ".foo", ".whl"])
        n, v, e = splitbasename(s, checkarch=False)
        whole = n + ("-" + v if v or s.startswith(n + "-" + e) and e and not v and s != n + e else "") + e
        if s.endswith(".whl") and s != whole:
            # a wheel may have a build tag between version and python tag
            ok = s.startswith(n + "-" + v + "-") and s.endswith(e) and len(s) > len(whole) and \
                s[len(n + "-" + v) + 1:len(s) - len(e)][:1].isdigit()
            c.ensures("the parts of a wheel name", ok, (s, n, v, e))
        else:
            c.ensures("the parts put together give the name", whole == s or n + "-" + v + e == s, (s, n, v, e))
        return
    name, ver, ext = c.pick("name", NAMES), c.pick("version", VERS), c.pick("ext", EXTS)
    if ext.endswith(".whl"):
        name = name.replace("-", "_")
        ver = ver.replace("-", "_")
    build = c.pick("build", ["", "-1", "-2abc"]) if ext.endswith(".whl") else ""
    s = name + "-" + ver + build + ext
    n, v, e = splitbasename(s)
    c.ensures("a file name is split into project, version and suffix", (n, v) == (name, ver), (s, n, v, e))
    c.ensures("nothing is lost", e == ext, (s, e))
    base, ext2 = splitext_archive(s)
    c.ensures("the archive suffix", base + ext2 == s and ext2.lower() in (
        ".tar.gz", ".zip", ".tgz", ".tar.bz2", ".doc.zip", ".egg", ".whl", ".exe", ".msi", ".rpm"), (s, ext2))
    bm = BasenameMeta(s)
    c.ensures("the parsed name", normalize_name(bm.name) == normalize_name(name) and bm.version == ver)
    if ext.lower() not in (".win-amd64-py3.6.exe",):
        pv, ft = get_pyversion_filetype(s)
        want = {".whl": "bdist_wheel", ".egg": "bdist_egg"}.get(ext2)
        if ext in (".tar.gz", ".zip", ".tgz"):
            want = "sdist"
        if want and not (ext == ".egg"):
            c.ensures("the kind of distribution", ft == want, (s, ft))


@contract("C02", ["devpi_common.metadata:get_latest_version", "devpi_common.metadata:get_sorted_versions"],
          mode="concrete", cross=500, strict=True, bound="up to 7 generated versions")
def latest(c):
    from devpi_common.metadata import get_latest_version, get_sorted_versions
    from packaging.version import Version
    pool = VERS + ["1.0.0", "1.0a2", "0.9", "10.0", "9.0", "1.1.dev1", "3.0rc1", "2.0", "1.0.post2"]
    vs = [c.pick("v", pool) for i in range(c.int("n", 0, 7))]
    stable = c.flag("stable")
    cand = [v for v in vs if not stable or not Version(v).is_prerelease]
    r = get_latest_version(iter(vs), stable=stable)
    if not cand:
        c.ensures("no version, none reported", r is None, (vs, r))
    else:
        c.ensures("the latest is one of them", r in cand, (vs, r))
        c.ensures("and none is newer", all(Version(v) <= Version(r) for v in cand), (vs, r))
    srt = get_sorted_versions(vs, stable=stable)
    c.ensures("sorting neither adds nor loses versions", sorted(srt) == sorted(cand), (vs, srt))
    c.ensures("newest first", all(Version(a) >= Version(b) for a, b in zip(srt, srt[1:])), srt)
    up = get_sorted_versions(vs, reverse=False, stable=stable)
    c.ensures("or last", all(Version(a) <= Version(b) for a, b in zip(up, up[1:])) and sorted(up) == sorted(cand))
