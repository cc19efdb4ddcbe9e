"""every operation of the web interface needs its permission (views.py, main.py)"""
import json
import webtest
from pyvc.ctx import contract
from contracts import app, real

USERS = [None, "root", "joe", "ann", "ext", "wrong", "old"]
GROUPS = {"ext": ["dev"]}
ACLS = [[], ["joe"], ["ann"], ["root"], [":dev"], [":ANONYMOUS:"], [":AUTHENTICATED:"], ["ann", ":dev"], ["nobody"]]


class Plugin:
    """an authentication plugin with one user, and plugins restricting access"""

    def __init__(self):
        self.denials = set()
        from devpi_server.config import hookimpl

        @hookimpl
        def devpiserver_auth_request(request, userdict, username, password):
            if username == "ext":
                return dict(status="ok", groups=["dev"]) if password == "pw" else dict(status="reject")

        @hookimpl
        def devpiserver_auth_denials(request, acl, user, stage):
            return set(self.denials)

        @hookimpl
        def devpiserver_stage_get_principals_for_pkg_read(ixconfig):
            d = ixconfig.get("custom_data")
            return list(d["read"]) if d else None
        self.devpiserver_auth_request = devpiserver_auth_request
        self.devpiserver_auth_denials = devpiserver_auth_denials
        self.devpiserver_stage_get_principals_for_pkg_read = devpiserver_stage_get_principals_for_pkg_read


def resolve(names):
    return {{":ANONYMOUS:": "system.Everyone", ":AUTHENTICATED:": "system.Authenticated"}.get(n, n) for n in names}


class World:
    """what the documentation says about who may do what"""

    def __init__(self, xom, plugin, restrict):
        self.xom, self.plugin, self.restrict = xom, plugin, restrict
        self.users, self.indexes = {"root"}, {}

    def load(self):
        with self.xom.keyfs.read_transaction():
            self.users = {u.name for u in self.xom.model.get_userlist()}
            self.indexes = {}
            for u in self.xom.model.get_userlist():
                for i, cfg in u.get().get("indexes", {}).items():
                    self.indexes[u.name + "/" + i] = cfg

    def principals(self, who):
        """None if the credentials do not authenticate"""
        ps = {"system.Everyone"}
        if who is None or who == "wrong" or (who in ("joe", "ann", "old") and who not in self.users):
            return ps
        ps |= {"system.Authenticated", who}
        ps |= {":" + g for g in GROUPS.get(who, [])}
        return ps

    def allowed(self, who, perm, target):
        ps = self.principals(who)
        if any(p in ps and perm == q for p, q in self.plugin.denials):
            return False
        r = self.restrict
        if perm == "user_create":
            return bool(ps & set(r)) if r is not None else True
        if perm in ("user_modify", "index_create"):
            return bool(ps & (set(r) if r is not None else {"root", target.split("/")[0]}))
        if perm == "user_delete":
            if r is not None:
                return bool(ps & (set(r) - {target}))
            return target != "root" and bool(ps & {"root", target})
        cfg = self.indexes.get(target)
        if cfg is None:
            return False
        owner = target.split("/")[0]
        admins = set(r) if r is not None else {"root", owner}
        up = resolve(cfg.get("acl_upload", []))
        if perm == "pkg_read":
            d = cfg.get("custom_data")
            names = resolve(d["read"]) if d else {"system.Everyone"}
            return bool(ps & (names | {"+replica"} | (set(r) if r is not None else {"root"})))
        if perm == "upload":
            return bool(ps & up)
        if perm == "toxresult_upload":
            return bool(ps & resolve(cfg.get("acl_toxresult_upload", [":ANONYMOUS:"])))
        if perm in ("index_delete", "index_modify"):
            return bool(ps & admins)
        if perm in ("del_entry", "del_project", "del_verdata"):
            return bool(ps & (up | admins))
        raise LookupError(perm)


def state(xom):
    """everything stored: keys with their values, and files"""
    with xom.keyfs.read_transaction() as tx:
        serial = tx.at_serial
        out = {}
        for s in range(serial + 1):
            with xom.keyfs.get_connection() as conn:
                ch = conn.get_changes(s)
            for rel, (name, back, val) in ch.items():
                out[rel] = repr(val)
    files = {k: v for k, v in app.walk_files(str(xom.config.server_path)).items() if "+files" in k}
    return serial, out, files


def setup(c, cl, plugin):
    cl.user("joe")
    cl.user("ann")
    cl.user("old")
    for name in ("joe/dev", "ann/tgt"):
        cfg = dict(bases="", volatile=True, acl_upload=c.pick("acl", ACLS),
                   acl_toxresult_upload=c.pick("tox", ACLS))
        if c.flag("read restricted"):
            cfg["custom_data"] = {"read": c.pick("read", ACLS)}
        r = cl.req("PUT", "/" + name, "admin", json=cfg)
        assert r.status_code == 200, r.text
    cfg = dict(type="mirror", mirror_url="http://up.example/simple/", volatile=True, mirror_cache_expiry=0)
    if c.flag("read restricted"):
        cfg["custom_data"] = {"read": c.pick("read", ACLS)}
    r = cl.req("PUT", "/joe/mir", "admin", json=cfg)
    assert r.status_code == 200, r.text


def fill(xom, name):
    """a release with a test result and documentation, written by the server itself"""
    with xom.keyfs.write_transaction():
        stage = xom.model.getstage(name)
        if stage is None:
            return None
        if not stage.has_version_perstage("pkg", "1.0") if hasattr(stage, "has_version_perstage") else True:
            stage.set_versiondata({"name": "pkg", "version": "1.0"})
        link = stage.store_releasefile("pkg", "1.0", "pkg-1.0.tar.gz", b"content of " + name.encode())
        tl = stage.store_toxresult(link, json.dumps({"testenvs": {}}).encode())
        stage.store_doczip("pkg", "1.0", content_or_file=real_zip())
        return link.entrypath, tl.entrypath


_zip = []


def real_zip():
    if not _zip:
        import io
        import zipfile
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            z.writestr("index.html", "<html/>")
        _zip.append(b.getvalue())
    return _zip[0]


OPS = ["user_create", "user_modify", "user_delete", "index_create", "index_modify", "index_delete",
       "file_upload", "submit", "doc_upload", "toxresult", "del_entry", "del_project", "del_version",
       "push", "get", "get_tox", "get_mirror", "self_modify", "index_modify_list", "push_mirror"]


def operation(c, cl, op, who, paths, k):
    """returns (response, [(permission, target)], secret content)"""
    slash = c.pick("slash", ["", "/"])
    req = lambda *a, **kw: cl.req(*a, **kw)  # noqa: E731
    u = c.pick("user", ["joe", "ann", "root", "old", "newbie"])
    ix = c.pick("index", ["joe/dev", "ann/tgt"])
    other = {"joe/dev": "ann/tgt", "ann/tgt": "joe/dev"}[ix]
    if op == "user_create":
        return req("PUT", "/new%d%s" % (k, slash), who, json={"password": "x"}), [("user_create", "new%d" % k)], None
    if op == "user_modify":
        return req("PATCH", "/%s%s" % (u, slash), who, json={"email": "x%d@y" % k}), [("user_modify", u)], None
    if op == "self_modify":
        return req("PATCH", "/%s%s" % (u, slash), who, json={"title": "t%d" % k}), [("user_modify", u)], None
    if op == "user_delete":
        return req("DELETE", "/%s%s" % (u, slash), who), [("user_delete", u)], None
    if op == "index_create":
        return req("PUT", "/%s/n%d%s" % (u, k, slash), who, json={}), [("index_create", u)], None
    if op == "index_modify":
        return req("PATCH", "/%s%s" % (ix, slash), who, json={"title": "x%d" % k}), [("index_modify", ix)], None
    if op == "index_modify_list":
        return req("PATCH", "/%s%s" % (ix, slash), who, json=["title=x%d" % k]), [("index_modify", ix)], None
    if op == "index_delete":
        return req("DELETE", "/%s%s" % (ix, slash), who), [("index_delete", ix)], None
    if op == "file_upload":
        p = {":action": "file_upload", "name": "pkg", "version": "2.%d" % k}
        return req("POST", "/%s/" % ix, who, params=p,
                   upload_files=[("content", "pkg-2.%d.tar.gz" % k, b"new")]), [("upload", ix)], None
    if op == "submit":
        return req("POST", "/%s/" % ix, who, params={":action": "submit", "name": "pkg", "version": "3.%d" % k}), \
            [("upload", ix)], None
    if op == "doc_upload":
        p = {":action": "doc_upload", "name": "pkg", "version": "1.0"}
        return req("POST", "/%s/" % ix, who, params=p,
                   upload_files=[("content", "pkg.zip", real_zip() + b"")]), [("upload", ix)], None
    if op == "toxresult":
        return req("POST", "/" + paths[ix][0], who, json={"testenvs": {"k": {"k": k}}}), [("toxresult_upload", ix)], None
    if op == "del_entry":
        return req("DELETE", "/" + c.pick("entry", paths[ix]), who), [("del_entry", ix)], None
    if op == "del_project":
        return req("DELETE", "/%s/pkg" % ix, who), [("del_project", ix)], None
    if op == "del_version":
        return req("DELETE", "/%s/pkg/1.0" % ix, who), [("del_verdata", ix)], None
    if op == "push":
        m = c.pick("method", ["POST", "PUSH"])
        body = json.dumps(dict(name="pkg", version="1.0", targetindex=other)).encode()
        return cl.app.request("/%s%s" % (ix, slash), method=m, body=body, expect_errors=True,
                              headers={"Accept": "application/json", **cl.headers(who)}), \
            [("pkg_read", ix), ("upload", other)], None
    if op == "push_mirror":
        return req("POST", "/joe/mir", who, json=dict(name="pkg", version="1.0", targetindex=ix)), \
            [("pkg_read", "joe/mir"), ("upload", ix)], None
    if op == "get":
        return cl.app.request("/" + paths[ix][0], headers=cl.headers(who), expect_errors=True,
                              method=c.pick("method", ["GET"])), [("pkg_read", ix)], b"content of "
    if op == "get_tox":
        return cl.app.request("/" + paths[ix][1], headers=cl.headers(who), expect_errors=True), \
            [("pkg_read", ix)], b"testenvs"
    if op == "get_mirror":
        return cl.app.request("/" + paths["joe/mir"], headers=cl.headers(who), expect_errors=True), \
            [("pkg_read", "joe/mir")], b"mirrored"
    raise LookupError(op)


def cleanup_admin(restrict):
    return "root" if restrict is None else restrict[0]


@contract(["A04", "A03"], ["devpi_server.views:PyPIView", "devpi_server.view_auth:RootFactory.__acl__",
                           "devpi_server.view_auth:DevpiSecurityPolicy.permits"],
          mode="concrete", cross=40, strict=True, bound="random access lists, requesters and operations on the real server")
def web_permissions(c):
    """random configurations of the real server: every operation is executed exactly
    when the documented permission is held, and otherwise changes nothing"""
    plugin = Plugin()
    restrict = c.pick("restrict", [None, None, ["root"], ["root", "ann"], ["root", ":dev"]])
    opts = [] if restrict is None else ["--restrict-modify", ",".join(restrict)]
    with app.server(opts, extra_plugins=[plugin]) as xom:
        cl = app.Client(xom)
        cl.passwords["admin"] = ""
        cl.tokens.clear()
        cl.passwords.update(joe="pw", ann="pw", ext="pw", wrong="no", old="pw")
        # direct setup as root
        cl.tokens["admin"] = None
        headers = cl.headers

        def hdr(who):
            if who == "admin":
                return headers("root")
            if who == "wrong":
                return app.auth_header("joe", "bad")
            return headers(who)
        cl.headers = hdr
        xom.upstream.table["http://up.example/simple/pkg/"] = dict(
            text='<a href="../../f/pkg-1.0.tar.gz">pkg-1.0.tar.gz</a>', headers={"X-PYPI-LAST-SERIAL": "1"})
        xom.upstream.table["http://up.example/simple/"] = dict(text='<a href="pkg/">pkg</a>')
        xom.upstream.table["http://up.example/f/pkg-1.0.tar.gz"] = dict(content=b"mirrored", headers={
            "content-length": "8"})
        setup(c, cl, plugin)
        w = World(xom, plugin, restrict)
        hdr("joe"), hdr("ann"), hdr("old"), hdr("ext")
        if c.flag("old gone"):
            r = cl.req("DELETE", "/old", "admin")
            c.ensures("setup", r.status_code == 200, r.text)
        paths = {}
        for name in ("joe/dev", "ann/tgt"):
            paths[name] = fill(xom, name)
        r = cl.req("GET", "/joe/mir/+simple/pkg/", None, headers={"Accept": "application/vnd.pypi.simple.v1+json"})
        paths["joe/mir"] = r.json["files"][0]["url"].split("joe/mir/", 1)[-1]
        paths["joe/mir"] = "joe/mir/" + paths["joe/mir"].replace("../../", "").split("#")[0]
        if c.flag("denial"):
            plugin.denials = {(c.pick("whom", ["joe", "ann", "root", ":dev", "system.Everyone"]),
                               c.pick("what", ["upload", "pkg_read", "user_modify", "user_delete", "del_entry", "index_modify"]))}
        for k in range(12):
            w.load()
            if "joe/dev" not in w.indexes or "ann/tgt" not in w.indexes or "joe/mir" not in w.indexes:
                break
            who = c.pick("who", USERS)
            op = c.pick("op", OPS)
            before = state(xom)
            resp, needs, secret = operation(c, cl, op, who, paths, k)
            after = state(xom)
            ok = all(w.allowed(who, p, t) for p, t in needs)
            what = "%s as %s needs %s: %s" % (op, who, needs, resp.status)
            if not ok:
                c.ensures("an operation without its permission is refused", resp.status_code in (401, 403, 404, 302, 409, 400, 410), what)
                if op not in ("get_mirror", "push_mirror"):
                    c.ensures("and changes nothing", before[1:] == after[1:], what)
                else:
                    c.ensures("and stores nothing", before[2] == after[2], what)
                if secret is not None:
                    c.ensures("and its content is not handed out", secret not in resp.body, what)
            else:
                if resp.status_code in (401, 403) and "non-volatile" not in resp.text:
                    c.ensures("an operation is possible for those holding its permission", False, what + resp.text[:300])
                if secret is not None and resp.status_code == 200:
                    c.ensures("the file is handed out", secret in resp.body, what)
            if op in ("get", "get_tox", "get_mirror"):
                if op != "get_mirror":
                    c.ensures("reading changes nothing", before[1:] == after[1:], what)
            if not fill_ok(xom, paths):
                break


def fill_ok(xom, paths):
    with xom.keyfs.read_transaction():
        for name in ("joe/dev", "ann/tgt"):
            st = xom.model.getstage(name)
            if st is None or not st.has_project_perstage("pkg"):
                return False
    return True


class Fixed:
    def __init__(self, **kw):
        self.kw = kw

    def pick(self, name, options):
        v = self.kw.get(name)
        return v if v in options else options[0]


@contract("A04", ["devpi_server.views:PyPIView"], mode="concrete", cross=4, strict=True,
          params=["nobody", "owner of another index", "uploader"],
          bound="every operation, route variant and target once per run")
def web_matrix(c):
    """every route of every operation, for requesters that lack the permission"""
    plugin = Plugin()
    with app.server([], extra_plugins=[plugin]) as xom:
        cl = app.Client(xom)
        cl.passwords.update(joe="pw", ann="pw", ext="pw", old="pw", admin="")
        orig = cl.headers
        cl.headers = lambda who: orig("root" if who == "admin" else who)
        xom.upstream.table["http://up.example/simple/pkg/"] = dict(
            text='<a href="../../f/pkg-1.0.tar.gz">pkg-1.0.tar.gz</a>')
        xom.upstream.table["http://up.example/simple/"] = dict(text='<a href="pkg/">pkg</a>')
        xom.upstream.table["http://up.example/f/pkg-1.0.tar.gz"] = dict(content=b"mirrored", headers={"content-length": "8"})
        for u in ("joe", "ann", "old"):
            cl.user(u)
        who = {"nobody": "ext", "owner of another index": "ann", "uploader": "old"}[c.param]
        up = ["old"] if c.param == "uploader" else ["joe"]
        closed = dict(bases="", volatile=c.flag("volatile"), acl_upload=up, acl_toxresult_upload=["joe"],
                      custom_data={"read": ["joe"] + (["old"] if c.param == "uploader" else [])})
        for n, cfg in (("joe/dev", closed), ("ann/tgt", dict(bases="", acl_upload=["ann"])),
                       ("joe/mir", dict(type="mirror", mirror_url="http://up.example/simple/", volatile=True, custom_data={"read": ["joe"]}))):
            r = cl.req("PUT", "/" + n, "admin", json=cfg)
            assert r.status_code == 200, r.text
        w = World(xom, plugin, None)
        paths = {n: fill(xom, n) for n in ("joe/dev", "ann/tgt")}
        r = cl.req("GET", "/joe/mir/+simple/pkg/", None, headers={"Accept": "application/vnd.pypi.simple.v1+json"})
        paths["joe/mir"] = "joe/mir/" + r.json["files"][0]["url"].split("joe/mir/", 1)[-1].replace("../../", "").split("#")[0]
        w.load()
        before = state(xom)
        k = 0
        for op in OPS:
            for slash in ("", "/"):
                for user in ("joe", "root", "newbie"):
                    for extra in ("POST", "PUSH"):
                        if op == "push" or extra == "POST":
                            k += 1
                            f = Fixed(slash=slash, user=user, index="joe/dev", method=extra,
                                      entry=paths["joe/dev"][k % 2])
                            needs = dict(push=[("pkg_read", "joe/dev"), ("upload", "ann/tgt")], push_mirror=[("upload", "joe/dev")],
                                         user_create=[("user_create", "x")], user_modify=[("user_modify", user)],
                                         self_modify=[("user_modify", user)], user_delete=[("user_delete", user)],
                                         index_create=[("index_create", user)], index_modify_list=[("index_modify", "joe/dev")],
                                         file_upload=[("upload", "joe/dev")], submit=[("upload", "joe/dev")],
                                         doc_upload=[("upload", "joe/dev")], toxresult=[("toxresult_upload", "joe/dev")],
                                         del_version=[("del_verdata", "joe/dev")], get=[("pkg_read", "joe/dev")],
                                         get_tox=[("pkg_read", "joe/dev")], get_mirror=[("pkg_read", "joe/mir")]).get(
                                             op, [(op, "joe/dev")])
                            if all(w.allowed(who, p, t) for p, t in needs):
                                continue
                            resp, needs, secret = operation(f, cl, op, who, paths, k)
                            what = "%s %s%s as %s: %s" % (op, user, slash, who, resp.status)
                            c.ensures("refused", resp.status_code in (401, 403, 404), what)
                            c.ensures("not handed out", secret is None or secret not in resp.body, what)
                            now = state(xom)
                            if op not in ("get_mirror", "push_mirror"):
                                c.ensures("nothing changed", now[1:] == before[1:], what)
                            before = now
