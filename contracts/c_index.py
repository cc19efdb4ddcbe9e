"""contents of private indexes: uploads, pushes and deletions (model.py, views.py)"""
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem
from pyvc.core import STATE
from contracts.mocks import Obj, NullLog
import hashlib
import re

M = "devpi_server.model:"
V = "devpi_server.views:"


# ------------------------------------------------------------ whole server

def sha(b):
    return hashlib.sha256(b).hexdigest()


def addr(index, content, name):
    h = sha(content)
    return "%s/+f/%s/%s/%s" % (index, h[:3], h[3:16], name)


# the Python requirement sent with every upload of a version
RP = {"1.0": ">=3.6", "1.0.1": None, "2.0": ">=3.7,<4"}


def with_rp(v):
    return dict(requires_python=RP[v]) if RP[v] else {}


class Model:
    """what the users of the server did, in plain dictionaries"""

    def __init__(self):
        self.users = {}

    def index(self, path):
        u, i = path.split("/")
        return self.users.get(u, {}).get(i)

    def indexes(self):
        return ["%s/%s" % (u, i) for u, ixs in self.users.items() for i in ixs]

    def versions(self, path, project):
        return self.index(path)["projects"].setdefault(project, {}).setdefault

    def files(self, path):
        """name -> (address, content, project, version, rel, tox contents)"""
        for p, vs in self.index(path)["projects"].items():
            for v, d in vs.items():
                for name, (content, tox) in d["files"].items():
                    yield p, v, name, content, tox


def observe(c, xom, cl, model):
    """everything the server stores must be exactly what the model says"""
    import io
    from contracts import app
    keyfs = xom.keyfs
    with keyfs.read_transaction() as tx:
        got = {}
        for rk in tx.iter_relpaths_at([k for k in KEYS(keyfs)], tx.at_serial):
            if rk.value is not None:
                got[rk.relpath] = (rk.keyname, rk.value)
        users = set(tx.keyfs.USERLIST.get())
        c.ensures("exactly the existing users", users == set(model.users) | {"root"}, users)
        want_files = {}
        for u, ixs in model.users.items():
            conf = keyfs.USER(user=u).get()
            c.ensures("exactly the indexes of the user", set(conf.get("indexes", {})) == set(ixs), (u, conf))
            for i, ix in ixs.items():
                path = "%s/%s" % (u, i)
                st = xom.model.getstage(path)
                c.ensures("index keeps its volatility", st.ixconfig["volatile"] == ix["volatile"])
                c.ensures("exactly the projects of the index", set(st.list_projects_perstage()) == set(ix["projects"]),
                          (path, st.list_projects_perstage(), ix["projects"]))
                for p, vs in ix["projects"].items():
                    c.ensures("exactly the versions of the project", set(st.list_versions_perstage(p)) == set(vs), (path, p))
                    links = [(x.key, x.href) for x in st.get_simplelinks_perstage(p)]
                    want = [(n, addr(path, content, n) + "#sha256=" + sha(content))
                            for v, d in vs.items() for n, (content, tox) in d["files"].items()]
                    c.ensures("the simple page lists exactly the files", sorted(links) == sorted(want), (path, p, links, want))
                    owner = {(n, addr(path, content, n)): v for v, d in vs.items() for n, (content, tox) in d["files"].items()}
                    for x in st.get_simplelinks_perstage(p):
                        v = owner[x.key, x.href.partition("#")[0]]
                        c.ensures("with the Python requirement of their version", (x.require_python or None) == RP[v], (path, p, x.key, x.require_python))
                    for v, d in vs.items():
                        ls = st.get_linkstore_perstage(p, v)
                        have = {}
                        for x in ls.get_links():
                            c.ensures("each file is linked once", (x.rel, x.entrypath) not in have)
                            e = x.entry
                            c.ensures("a linked file exists", bool(e.meta) and e.file_exists(), x.entrypath)
                            have[x.rel, x.entrypath] = (x.for_entrypath, x._hash_spec, e.file_get_content(), x.basename)
                            c.ensures("a link records the checksum", x._hash_spec == "sha256=" + sha(have[x.rel, x.entrypath][2]))
                            c.ensures("and its project and version", (e.project, e.version) == (p, v))
                            want_files[x.entrypath] = have[x.rel, x.entrypath][2]
                        rel = {(k[1], x[2]) for k, x in have.items() if k[0] == "releasefile"}
                        c.ensures("exactly the release files", rel == {(addr(path, content, n), content) for n, (content, tox) in d["files"].items()},
                                  (path, p, v, rel, d))
                        doc = [(k[1], x[2]) for k, x in have.items() if k[0] == "doczip"]
                        n = "%s-%s.doc.zip" % (p, v)
                        c.ensures("exactly the documentation", doc == ([] if d["doc"] is None else [(addr(path, d["doc"], n), d["doc"])]), doc)
                        tox = sorted((x[0], x[2]) for k, x in have.items() if k[0] == "toxresult")
                        c.ensures("exactly the test results", tox == sorted((addr(path, content, n), t) for n, (content, ts) in d["files"].items() for t in ts),
                                  (tox, d))
                        c.ensures("no other links", {k[0] for k in have} <= {"releasefile", "doczip", "toxresult"})
                        md = st.get_versiondata_perstage(p, v)
                        c.ensures("metadata of the version", md["name"] and md["version"] == v and md.get("summary", "") == d["summary"], (md, d["summary"]))
        left = []
        for rp, (kn, v) in got.items():
            parts = rp.split("/")
            if kn == "STAGEFILE":
                if rp not in want_files:
                    left.append(rp)
            elif kn in ("PROJVERSION", "PROJVERSIONS", "PROJSIMPLELINKS"):
                ix = model.index("/".join(parts[:2]))
                vs = None if ix is None else ix["projects"].get(parts[2])
                if kn == "PROJSIMPLELINKS" and not v.get("links"):
                    continue
                if vs is None or (kn == "PROJVERSION" and parts[3] not in vs):
                    left.append(rp)
            elif kn == "PROJNAMES":
                if model.index("/".join(parts[:2])) is None and v:
                    left.append(rp)
            elif kn == "USER":
                if parts[0] not in model.users and parts[0] != "root":
                    left.append(rp)
        c.ensures("nothing of deleted items is left", not left, left)
    on_disk = app.walk_files(str(xom.config.server_path / "+files"))
    c.ensures("exactly the stored files are on disk", on_disk == want_files,
              (sorted(on_disk), sorted(want_files)))


def KEYS(keyfs):
    return list(keyfs._keys.values())


NAMES = {"pkg": "pkg", "Pkg.Extra": "pkg-extra", "other": "other"}


@contract(["I03", "I05"], [M + "LinkStore", M + "PrivateStage.set_versiondata", M + "PrivateStage.del_project",
                           M + "PrivateStage.del_versiondata", M + "PrivateStage.del_entry", M + "PrivateStage.store_releasefile",
                           M + "PrivateStage.store_doczip", M + "PrivateStage._regen_simplelinks", M + "PrivateStage.delete",
                           M + "User.delete", M + "RootModel.delete_stage", M + "RootModel.delete_user",
                           V + "PyPIView.submit", V + "PyPIView.pushrelease", V + "PyPIView.del_versiondata", V + "PyPIView.del_pkg",
                           V + "PyPIView.del_project", V + "PyPIView.index_delete", V + "PyPIView.user_delete", V + "PyPIView.post_toxresult",
                           "devpi_server.filestore:FileStore.store", "devpi_server.filestore:FileEntry.delete"],
          mode="concrete", cross=40, strict=True, bound="generated histories of 40 requests by two users on five indexes of a real server, complete state compared after each")
def index_history(c):
    import random
    from contracts import app
    rnd = random.Random(c.int("seed", 0, 10 ** 9))
    model = Model()
    with app.server() as xom:
        cl = app.Client(xom)

        def mkuser(u):
            c.ensures("user created", cl.user(u).status_code == 201)
            model.users[u] = {}

        def mkindex(path, volatile):
            r = cl.index(path, volatile=volatile, bases="")
            c.ensures("index created", r.status_code == 200, r.body)
            u, i = path.split("/")
            model.users[u][i] = dict(volatile=volatile, projects={})
        all_indexes = {"joe/v": True, "joe/n": False, "joe/vv": True, "amy/v": True, "amy/n": False}
        only_volatile = rnd.random() < .3
        for u in ("joe", "amy"):
            mkuser(u)
        for p, vol in all_indexes.items():
            mkindex(p, vol or only_volatile)

        def vdata(ix, p, v):
            return model.index(ix)["projects"].setdefault(p, {}).setdefault(v, dict(files={}, doc=None, summary=""))

        def pick_file(ix):
            fs = list(model.files(ix))
            return rnd.choice(fs) if fs else None
        focus = rnd.choice([0, 2, 6])
        for step in range(40):
            ixs = model.indexes()
            if not ixs:
                mkuser_ = [u for u in ("joe", "amy") if u not in model.users]
                for u in mkuser_:
                    mkuser(u)
                mkindex("joe/v", True)
                ixs = model.indexes()
            ix = rnd.choice(ixs)
            user = ix.split("/")[0]
            mix = model.index(ix)
            vol = mix["volatile"]
            force = rnd.random() < .4
            fp = dict(force="1") if force else None
            f = "?force=1" if force else ""
            del fp
            op = rnd.choice(["upload"] * 8 + ["again"] * 4 + ["doc"] * 3 + ["tox"] * 6 + ["push"] * 5 + ["register"]
                            + ["del file"] * 3 + ["del doc", "del tox", "del version", "del version", "del version", "del version", "del project", "del index", "del user", "mk"])
            if op.startswith("del ") and focus == 6 and step < 30:
                op = "upload"
            raw = rnd.choice(["pkg"] * focus + list(NAMES))
            p = NAMES[raw]
            v = rnd.choice(["1.0"] * focus + ["1.0.1", "2.0"])
            known = [(a, b) for a, d in mix["projects"].items() for b in d]
            if op.startswith("del ") and known and rnd.random() < .8:
                p, v = rnd.choice(known)
                raw = p
            if op == "again":
                x = pick_file(ix)
                if x is None:
                    continue
                p, v, name, content, tox = x
                raw = p
                new = content if rnd.random() < .5 else b"changed %d" % step
                if "1.0.1" in name and rnd.random() < .5:
                    # the file name contains the version but belongs to another one
                    v = "1.0" if v == "1.0.1" else "1.0.1"
            else:
                base = rnd.choice([raw, raw.replace(".", "_")])
                name = "%s-%s%s" % (base, v, rnd.choice([".tar.gz", ".tar.bz2", ".zip", "-py3-none-any.whl", "-py2-none-any.whl"]))
                new = rnd.choice([b"", b"content 1", b"content 2"]) if rnd.random() < .5 else b"content of %d" % step
            if op in ("upload", "again"):
                used = [d["files"] for w, d in model.index(ix)["projects"].get(p, {}).items()
                        if name in d["files"] and (w == v or not vol)]
                if vol and any(name in d["files"] and d["files"][name][0] == new
                               for w, d in model.index(ix)["projects"].get(p, {}).items() if w != v):
                    continue  # see shared_file
                r = cl.upload(ix, user, name, new, raw, v, **with_rp(v))
                vdata(ix, p, v)
                if used and not vol:
                    c.ensures("an existing file is never replaced", r.status_code == (200 if used[0][name][0] == new else 409), r.status)
                else:
                    c.ensures("uploaded", r.status_code == 200, r.body)
                    vdata(ix, p, v)["files"][name] = (new, [])
            elif op == "doc":
                from contracts.c_archive import build_zip
                new = build_zip([("index.html", b"docs %d" % rnd.randint(0, 3), "file")])
                known = model.index(ix)["projects"].get(p, {}).get(v, {}).get("doc")
                r = cl.upload(ix, user, raw + ".zip", new, raw, v, action="doc_upload")
                if known is not None and not vol:
                    c.ensures("existing documentation is never replaced", r.status_code == (200 if known == new else 409), r.status)
                else:
                    c.ensures("uploaded", r.status_code == 200, r.body)
                    vdata(ix, p, v)["doc"] = new
            elif op == "register":
                s = rnd.choice(["", "some summary"])
                r = cl.req("POST", "/%s/" % ix, user, params={":action": "submit", "name": raw, "version": v, "summary": s, **with_rp(v)})
                c.ensures("registered", r.status_code == 200, r.body)
                vdata(ix, p, v)["summary"] = s
            elif op == "tox":
                x = pick_file(ix)
                if x is None:
                    continue
                p, v, name, content, tox = x
                t = b'{"testenvs": {"n": %d}}' % step
                r = cl.req("POST", "/" + addr(ix, content, name), user, json={"testenvs": {"n": step}})
                c.ensures("test result stored", r.status_code == 200, r.body)
                t = re.sub(rb"\s+", b" ", r.request.body) if False else r.request.body
                tox.append(t)
            elif op == "push":
                vs = [(p, v) for p, d in mix["projects"].items() for v in d]
                if not vs:
                    continue
                p, v = rnd.choice(vs)
                if len(ixs) == 1:
                    continue
                tix = rnd.choice([x for x in ixs if x != ix])
                src = mix["projects"][p][v]
                tgt_vol = model.index(tix)["volatile"]
                if any(n in src["files"] and d["files"][n][0] == src["files"][n][0]
                       for w, d in model.index(tix)["projects"].get(p, {}).items() if w != v for n in d["files"]):
                    continue  # see shared_file
                how = rnd.choice([None, None, "no_docs", "only_docs"])
                # the pusher needs upload permission on the target
                r = cl.req("POST", "/" + ix, tix.split("/")[0], json=dict(name=p, version=v, targetindex=tix, **({how: True} if how else {})))
                files = {} if how == "only_docs" else src["files"]
                doc = None if how == "no_docs" else src["doc"]
                if not files and doc is None and not (how != "only_docs" and any(t for _, t in src["files"].values())):
                    c.ensures("nothing to push", r.status_code == 404, r.body)
                else:
                    tgt = vdata(tix, p, v)
                    tgt["summary"] = src["summary"]
                    clash = False
                    for n in sorted(files):
                        used = [d["files"] for w, d in model.index(tix)["projects"][p].items()
                                if n in d["files"] and (w == v or not tgt_vol)]
                        if used and not tgt_vol:
                            clash = True
                            break
                        tgt["files"][n] = (files[n][0], list(files[n][1]))
                    else:
                        if doc is not None:
                            if tgt["doc"] is not None and not tgt_vol:
                                clash = True
                            else:
                                tgt["doc"] = doc
                    c.ensures("pushing never replaces existing files", r.status_code == (409 if clash else 200), r.body)
            elif op == "del file":
                x = pick_file(ix)
                if x is None:
                    continue
                p, v, name, content, tox = x
                r = cl.req("DELETE", "/" + addr(ix, content, name) + f, user)
                if not vol and not force:
                    c.ensures("a file of a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    del mix["projects"][p][v]["files"][name]
                    prune(mix, p, v)
            elif op == "del tox":
                x = pick_file(ix)
                if x is None or not x[4]:
                    continue
                p, v, name, content, tox = x
                with xom.keyfs.read_transaction():
                    ls = xom.model.getstage(ix).get_linkstore_perstage(p, v)
                    ts = ls.get_links(rel="toxresult", for_entrypath=addr(ix, content, name))
                    k = rnd.randrange(len(ts))
                    path, t = ts[k].entrypath, ts[k].entry.file_get_content()
                r = cl.req("DELETE", "/" + path + f, user)
                if not vol and not force:
                    c.ensures("a test result of a non-volatile index is not deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    tox.remove(t)
                    # the names of later results depend on the number of earlier ones
                    cl.req("DELETE", "/" + addr(ix, content, name) + "?force=1", user)
                    del mix["projects"][p][v]["files"][name]
                    prune(mix, p, v)
            elif op == "del doc":
                ds = [(p, v, d["doc"]) for p, vs in mix["projects"].items() for v, d in vs.items() if d["doc"] is not None]
                if not ds:
                    continue
                p, v, d = rnd.choice(ds)
                r = cl.req("DELETE", "/" + addr(ix, d, "%s-%s.doc.zip" % (p, v)) + f, user)
                if not vol and not force:
                    c.ensures("documentation of a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    mix["projects"][p][v]["doc"] = None
                    prune(mix, p, v)
            elif op == "del version":
                r = cl.req("DELETE", "/%s/%s/%s%s" % (ix, raw, v, f), user)
                known = v in mix["projects"].get(p, {})
                if not known:
                    c.ensures("nothing to delete", r.status_code in (403, 404), r.body)
                elif not vol and not force:
                    c.ensures("a version of a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    del mix["projects"][p][v]
                    if not mix["projects"][p]:
                        del mix["projects"][p]
            elif op == "del project":
                r = cl.req("DELETE", "/%s/%s%s" % (ix, raw, f), user)
                if p not in mix["projects"]:
                    c.ensures("nothing to delete", r.status_code in (403, 404), r.body)
                elif not vol and not force:
                    c.ensures("a project of a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    del mix["projects"][p]
            elif op == "del index":
                if rnd.random() < .5:
                    continue
                r = cl.req("DELETE", "/" + ix + f, user)
                if not vol:
                    c.ensures("a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 201, r.body)
                    del model.users[user][ix.split("/")[1]]
            elif op == "del user":
                if rnd.random() < .5:
                    continue
                r = cl.req("DELETE", "/" + user + f, user)
                if any(not x["volatile"] for x in model.users[user].values()):
                    c.ensures("a user with a non-volatile index is never deleted", r.status_code == 403, r.body)
                else:
                    c.ensures("deleted", r.status_code == 200, r.body)
                    del model.users[user]
                    cl.tokens.pop(user, None)
            else:
                for path in all_indexes:
                    if path.split("/")[0] not in model.users:
                        mkuser(path.split("/")[0])
                    if model.index(path) is None:
                        mkindex(path, all_indexes[path] or only_volatile)
                        break
            observe(c, xom, cl, model)


@contract("I05", [M + "PrivateStage.del_versiondata", M + "PrivateStage.store_releasefile", "devpi_server.filestore:FileStore.store"],
          mode="concrete", cross=2, strict=True, bound="one history")
def shared_file(c):
    """the same file uploaded for two versions of a project"""
    from contracts import app
    c.int("seed", 0, 1)
    with app.server() as xom:
        cl = app.Client(xom)
        cl.user("joe")
        cl.index("joe/v", volatile=True, bases="")
        name = "pkg-1.0.1.tar.gz"
        for v in ("1.0.1", "1.0"):
            c.ensures("uploaded", cl.upload("joe/v", "joe", name, b"content", "pkg", v).status_code == 200)
        c.ensures("deleted", cl.req("DELETE", "/joe/v/pkg/1.0", "joe").status_code == 200)
        r = cl.req("GET", "/" + addr("joe/v", b"content", name), headers={"Accept": "*/*"})
        c.ensures("deleting a version keeps the same file of another version", r.status_code == 200, r.status)


def prune(mix, p, v):
    d = mix["projects"][p][v]
    if not d["files"] and d["doc"] is None:
        del mix["projects"][p][v]
        if not mix["projects"][p]:
            del mix["projects"][p]


# -------------------------------------------------------------- link store

class L:
    """what is going on in the current run"""


class Ln:
    """a link of a version: arbitrary kind, name and addresses"""

    def __init__(self, c, e):
        self.idx = e.idx if e.idx is not None else e.j
        self.rel = e.str("rel")
        self.basename = e.str("basename")
        self.entrypath = e.str("entrypath")
        self.for_entrypath = e.str("for_entrypath")
        self.logs = []

    def get_logs(self):
        return [dict(what="upload"), dict(what="overwrite", count=L.count), dict(what="push", count=99)] if L.logged else []


def link_store(m):
    class Store(m.LinkStore):
        def __init__(self):
            self.project, self.version = "pkg", "1.0"
            self.filestore = Obj(_name="filestore")
    return Store()


def want_link(x, rel, basename, entrypath, for_entrypath):
    return And(*[Or(w is None, w == "" if w is not None else True, Eq(w, h) if w is not None else True)
                 for w, h in ((rel, x.rel), (basename, x.basename), (entrypath, x.entrypath), (for_entrypath, x.for_entrypath))])


@contract(["I03", "I05"], M + "LinkStore.get_links", cross=1500, bound=2)
def get_links(c):
    """exactly the links which match everything asked for"""
    import devpi_server.model as m

    class ELink:
        def __new__(cls, filestore, linkdict, project, version):
            return linkdict
    c.patch(m, "ELink", ELink)
    s = link_store(m)
    src = c.seq("links", lambda e: Ln(c, e), maxlen=4 if c.concrete else None)
    nolinks = c.flag("nothing was ever linked")
    s.verdata = Obj(get=lambda k, d=None: d if nolinks else src, _name="verdata")
    kw = {k: c.str(k) for k in ("rel", "basename", "entrypath", "for_entrypath") if c.flag("with " + k)}
    args = dict(kw)
    if "for_entrypath" in kw and c.flag("given as a link"):
        args["for_entrypath"] = object.__new__(ELink)
        args["for_entrypath"].entrypath = kw["for_entrypath"]
    r = c.call(s.get_links, **args)
    if nolinks:
        c.ensures("no links", r.ok and len(r.value) == 0, r)
        return
    c.ensures("answers", r.ok, repr(r.exc))
    q = [kw.get(k) for k in ("rel", "basename", "entrypath", "for_entrypath")]
    if c.concrete or not c.proof:
        c.ensures("exactly the matching links in their order", [x.idx for x in r.value] == [x.idx for x in src if want_link(x, *q)])
        return
    from pyvc.ctx import forall_int, length
    from pyvc.core import SymBool, SymInt
    import z3
    res = r.value
    i = z3.Int(STATE.engine.fresh("some result"))
    STATE.engine.assume(z3.And(i >= 0, i < res.n))
    x = res.at(i)
    c.ensures("every result matches", want_link(x, *q))
    j = z3.Int(STATE.engine.fresh("some link"))
    STATE.engine.assume(z3.And(j >= 0, j < src.n))
    y = src.at(j)
    if not want_link(y, *q):
        return
    k = res.inv(j)
    c.ensures("every match is a result", And(SymBool(z3.And(k >= 0, k < res.n)), SymBool(res.at(k).idx == j)))


def cle_inv(v):
    return [("no link is passed over on a non-volatile index", Or(L.vol, Eq(v.i, 0))),
            ("at most one link is replaced", Implies(v.i >= 1, v.overwrite is not None)),
            ("nothing is replaced yet", Implies(Eq(v.i, 0), v.overwrite is None)),
            ("the count is kept", v.overwrite is None or Eq(v.overwrite, L.count if L.logged else 0))]


@contract(["I03", "I05"], M + "LinkStore.create_linked_entry", cross=800, bound=2,
          loops={M + "LinkStore.create_linked_entry#0": LoopSpec(
              cle_inv, havoc={"overwrite": lambda v: (L.count if L.logged else 0) if STATE.engine.branch(v.i.e >= 1) else None})},
          assumed=["LinkStore.get_links (contract get_links)", "a version has at most one link of a kind and name (contract index_history)"])
def create_linked_entry(c):
    """an existing file is only replaced on a volatile index, and only that one"""
    import devpi_server.model as m
    events = []
    s = link_store(m)
    vol = L.vol = c.bool("volatile")
    L.logged = c.flag("was replaced before")
    L.count = c.int("replaced how often", 0, 50)
    src = c.seq("links", lambda e: Ln(c, e), maxlen=3 if c.concrete else None)
    n = src.n if not c.concrete and c.proof else len(src)
    from pyvc.core import SymInt
    n = SymInt(n) if not isinstance(n, int) else n
    c.assume(Implies(vol, n <= 1))
    asked = []
    s.get_links = lambda **kw: asked.append(kw) or src
    s.remove_links = lambda **kw: events.append(("remove", kw))
    entry = Obj(_name="entry", last_modified=None)
    new = Obj(_name="link", add_log=lambda what, who, **kw: events.append(("log", what, kw)))

    def create(basename, content, **kw):
        events.append(("create", basename, content, kw))
        return entry

    def add(rel, e, **kw):
        events.append(("add", rel, e is entry, entry.last_modified, kw))
        return new
    s._create_file_entry, s._add_link_to_file_entry = create, add
    s.stage = Obj(_name="stage", ixconfig=Obj(_name="ixconfig", get=lambda k, d=None: vol if k == "volatile" else None), name="joe/dev")
    content, hashes = Obj(_name="content"), Obj(_name="hashes")
    lm = c.str("date") if c.flag("with date") else None
    r = c.call(s.create_linked_entry, "releasefile", "pkg-1.0.tar.gz", content, hashes=hashes, last_modified=lm)
    key = dict(rel="releasefile", basename="pkg-1.0.tar.gz")
    c.ensures("looks at the links of that kind and name", asked == [key], asked)
    if not r.ok:
        c.ensures("refused as non volatile", And(isinstance(r.exc, m.NonVolatile), Not(vol), n >= 1), r)
        c.ensures("nothing is changed", events == [])
        c.ensures("the existing link is named", isinstance(r.exc.link, Ln))
        return
    c.ensures("nothing exists or the index is volatile", Or(vol, Eq(n, 0)))
    want = [("remove", key), ("create", "pkg-1.0.tar.gz", content, dict(hashes=hashes)), ("add", "releasefile", True, lm, {})]
    c.ensures("replaces exactly the link of that kind and name", events[:3] == want, events)
    c.ensures("nothing else happens", len(events) <= 4)
    if len(events) == 4:
        ok = events[3][0] == "log" and events[3][1] == "overwrite" and set(events[3][2]) == {"count"}
        c.ensures("a replacement is counted", And(ok, n >= 1, Eq(events[3][2]["count"], (L.count if L.logged else 0) + 1)), events)
    else:
        c.ensures("a replacement is counted", Eq(n, 0), events)
    c.ensures("the new link is returned", r.value is new)


@contract(["I03", "I05"], [M + "LinkStore.remove_links", M + "LinkStore.new_reflink", M + "LinkStore._add_link_to_file_entry",
                           M + "LinkStore._create_file_entry"], mode="concrete", cross=3000, strict=True,
          bound="generated link lists of at most 6 links")
def change_links(c):
    """links are removed with everything which refers to them, or one is added; all others stay"""
    import random
    import devpi_server.model as m
    rnd = random.Random(c.int("seed", 0, 10 ** 9))
    deleted, dirty = [], []

    class Entry:
        def __init__(self, path):
            self.path = self.relpath = path
            self.basename = path.rsplit("/", 1)[-1]
            self._hash_spec = "sha256=" + path
            self.last_modified = None

        def delete(self):
            deleted.append(self.path)
    stored = []

    def store(**kw):
        stored.append(kw)
        return Entry("joe/dev/+f/1/2/" + kw["basename"])
    s = link_store(m)
    s.filestore = Obj(get_file_entry=Entry, store=store)
    s.stage = Obj(username="joe", index="dev", _set_versiondata=lambda d: dirty.append(d is s.verdata))
    paths = ["d/%s/%s" % (d, n) for d in "12" for n in ("a-1.zip", "b-1.zip", "a-1.zip.tox-0")]
    n = rnd.randint(0, 6)
    links = []
    for p in rnd.sample(paths, n):
        x = dict(rel=rnd.choice(["releasefile", "doczip", "toxresult"]), entrypath=p, hash_spec="sha256=" + p, _log=[])
        if rnd.random() < .5:
            x["for_entrypath"] = rnd.choice(paths)
        links.append(x)
    s.verdata = {"name": "pkg", "version": "1.0"}
    if links or rnd.random() < .5:
        s.verdata["+elinks"] = [dict(x) for x in links]
    if links and rnd.random() < .4:
        base = rnd.choice(links)
        name = rnd.choice([None, "given.json"])
        others = [x for x in links if x["rel"] == "toxresult" and x.get("for_entrypath") == base["entrypath"]]
        h = {"sha256": "h"}
        fp = base["entrypath"] if rnd.random() < .5 else s.get_links(entrypath=base["entrypath"])[0]
        r = c.call(s.new_reflink, "toxresult", b"content", fp, filename=name, hashes=h, last_modified="now")
        c.ensures("added", r.ok, repr(r.exc))
        now = s.verdata["+elinks"]
        c.ensures("all other links are kept", now[:-1] == links, (links, now))
        fn = stored[0]["basename"]
        c.ensures("stored as given, in the directory of the file it is about",
                  stored == [dict(user="joe", index="dev", basename=fn, content_or_file=b"content", dir_hash_spec="sha256=" + base["entrypath"], hashes=h)], stored)
        bn = base["entrypath"].rsplit("/", 1)[-1]
        c.ensures("named after it and numbered", fn == name or (name is None and re.fullmatch(re.escape(bn) + r"\.toxresult-\d{14}-%d" % len(others), fn)), fn)
        c.ensures("linked to it", now[-1] == dict(rel="toxresult", entrypath="joe/dev/+f/1/2/" + fn, hash_spec="sha256=joe/dev/+f/1/2/" + fn,
                                                  _log=[], for_entrypath=base["entrypath"]), now[-1])
        c.ensures("saved", dirty == [True])
        return
    kw = {}
    if rnd.random() < .5:
        kw["rel"] = rnd.choice(["releasefile", "doczip", "toxresult"])
    if rnd.random() < .5:
        kw["basename"] = rnd.choice(["a-1.zip", "b-1.zip", "a-1.zip.tox-0", "a-1"])
    if rnd.random() < .2:
        kw["for_entrypath"] = rnd.choice(paths)
    r = c.call(s.remove_links, **kw)
    c.ensures("removed", r.ok, repr(r.exc))
    gone = [x for x in links if all(kw[k] == (x["entrypath"].rsplit("/", 1)[-1] if k == "basename" else x.get(k)) for k in kw)]
    while True:
        more = [x for x in links if x not in gone and x.get("for_entrypath") in {y["entrypath"] for y in gone}]
        if not more:
            break
        gone += more
    c.ensures("exactly the matching links and what refers to them are removed",
              s.verdata.get("+elinks", []) == [x for x in links if x not in gone], (kw, links, s.verdata))
    c.ensures("their files are deleted", sorted(set(deleted)) == sorted(x["entrypath"] for x in gone), (deleted, gone))
    c.ensures("saved if anything changed", all(dirty) and bool(dirty) == bool(gone))
    c.ensures("metadata untouched", {k: v for k, v in s.verdata.items() if k != "+elinks"} == {"name": "pkg", "version": "1.0"})


@contract(["I03"], M + "PrivateStage.check_releasefile_of_other_versions", cross=800, bound=2, mode="bounded",
          assumed=["LinkStore.get_links (contract get_links)"])
def other_versions(c):
    """on a non-volatile index a file name can not be taken from another version"""
    import devpi_server.model as m
    vol = c.bool("volatile")
    names = ["1.0", "1.0.1", "2.0"]
    vs = [v for v in names if c.flag("version " + v)]
    has = {v: c.pick("files of " + v, [0, 1, 2]) for v in vs}
    asked = []

    class S(m.PrivateStage):
        def __init__(self):
            self.name = "joe/dev"
            self.ixconfig = {"volatile": vol}

        def list_versions_perstage(self, project):
            assert project == "pkg"
            return set(vs)

        def get_linkstore_perstage(self, project, version, readonly=True):
            assert project == "pkg" and readonly
            return Obj(get_links=lambda **kw: asked.append(kw) or [Obj(rel="releasefile", v=version) for _ in range(has[version])])
    r = c.call(S().check_releasefile_of_other_versions, "pkg", "1.0", "f")
    c.ensures("looks for release files of that name", all(x == dict(rel="releasefile", basename="f") for x in asked))
    taken = any(has[v] for v in vs if v != "1.0")
    if r.ok:
        c.ensures("the name is free or the index is volatile", Or(vol, not taken))
    else:
        c.ensures("refused as non volatile", And(isinstance(r.exc, m.NonVolatile), Not(vol), taken), r)
        c.ensures("the existing link is named", r.exc.link.v != "1.0")


@contract(["I03", "I05"], [M + "PrivateStage.store_releasefile", M + "PrivateStage.store_doczip"], cross=800,
          assumed=["LinkStore.create_linked_entry (contract create_linked_entry)", "get_latest_version_perstage (contract latest versions, C02)"])
def store(c):
    """files are stored through the link store of their version, as given"""
    import devpi_server.model as m
    events = []
    ro = c.flag("read only index")
    known = c.flag("version known")
    under = c.flag("version with underscore")
    known2 = c.flag("version known with dash")
    version = "1.0_1" if under else "1.0"
    content, hashes = Obj(_name="content"), Obj(_name="hashes")
    lm = c.str("date") if c.flag("with date") else None
    fail = c.flag("refused")
    link = Obj(_name="link")

    def create(**kw):
        events.append(("create", kw))
        if fail:
            raise m.NonVolatile("exists")
        return link
    c.patch(m, "threadlog", NullLog())

    class S(m.PrivateStage):
        def __init__(self):
            self.name = "joe/dev"
            self.customizer = Obj(readonly=ro)

        def get_versiondata_perstage(self, project, version, readonly=True):
            assert project == "pkg-x"
            return {"1.0": known, "1.0_1": known, "1.0-1": known2, "9.0": known}[version] and dict(name="pkg-x", version=version)

        def get_linkstore_perstage(self, project, version, readonly=True):
            assert not readonly
            events.append(("store", project, version))
            return Obj(create_linked_entry=create)

        def _regen_simplelinks(self, project):
            events.append(("regen", project))

        def get_latest_version_perstage(self, project):
            assert project == "pkg-x"
            return latest

        def set_versiondata(self, data):
            events.append(("register", dict(data)))
    kw = dict(hashes=hashes, last_modified=lm)
    latest = "9.0" if c.flag("has releases") else None
    if c.flag("documentation"):
        if c.flag("without version"):
            version = ""
        r = c.call(S().store_doczip, "Pkg.X", version, content, **kw)
        v = version or latest
        if ro:
            c.ensures("refused", r.raised(m.ReadonlyIndex) and not events, r)
        elif not v:
            c.ensures("refused without any version", r.raised(m.MissesVersion) and not events, r)
        else:
            want = [] if known else [("register", dict(name="pkg-x", version=v))]
            want += [("store", "pkg-x", v), ("create", dict(kw, rel="doczip", basename="pkg-x-%s.doc.zip" % v, content_or_file=content))]
            c.ensures("stored as given", events == want, events)
            c.ensures("refused if the link store refuses", r.ok != fail and (fail or r.value is link), r)
        return
    r = c.call(S().store_releasefile, "Pkg.X", version, "f.tar.gz", content, **kw)
    if ro:
        c.ensures("refused", r.raised(m.ReadonlyIndex) and not events, r)
        return
    v = version if known else version.replace("_", "-")
    if not known and not (under and known2):
        c.ensures("refused without registration", r.raised(m.MissesRegistration) and not events, r)
        return
    want = [("store", "pkg-x", v), ("create", dict(kw, rel="releasefile", basename="f.tar.gz", content_or_file=content))]
    c.ensures("stored as given", events[:2] == want, events)
    c.ensures("simple page rebuilt after it", events[2:] == ([] if fail else [("regen", "pkg-x")]), events)
    c.ensures("refused if the link store refuses", r.ok != fail and (fail or r.value is link), r)


# ------------------------------------------------------------ delete guards

class Answer(Exception):
    """HTTP answer"""


def user_inv(v):
    from pyvc.core import SymBool
    return [("every index so far is volatile", all_volatile(v.i))]


def all_volatile(i):
    from pyvc.core import SymBool, uf, ie
    import z3
    return SymBool(uf("g.volatile before", z3.IntSort(), z3.BoolSort())(ie(i)))


@contract(["I03", "I05"], [V + "PyPIView.del_versiondata", V + "PyPIView.del_project", V + "PyPIView.del_pkg", V + "PyPIView.index_delete"],
          cross=800, assumed=["PrivateStage.del_versiondata/del_project/del_entry/delete (contract index_history)"])
def delete_guards(c):
    """nothing is deleted from a non-volatile index unless it is forced"""
    import devpi_server.views as m
    events = []
    vol, force = c.bool("volatile"), c.flag("force")
    missing = c.flag("missing")
    what = c.pick("what", ["version", "project", "file", "index"])
    meta = c.pick("file", [None, {}, {"hash_spec": "x"}])

    def answer(*a, **kw):
        raise Answer([x for x in a if type(x) is int][0])
    c.patch(m, "abort", answer)
    c.patch(m, "apireturn", answer)

    class NF(Exception):
        msg = "not found"

    def act(*a):
        events.append(a)
        if missing:
            raise KeyError(a) if what == "project" else NF()
    entry = Obj(meta=meta)
    stage = Obj(_name="stage", ixconfig=Obj(__getitem__=None), name="joe/dev", NotFound=NF,
                del_versiondata=lambda *a: act("version", *a), del_project=lambda *a: act("project", *a),
                del_entry=lambda *a: act("file", *a), delete=lambda *a: act("index", *a))

    class Cfg:
        def __getitem__(self, k):
            assert k == "volatile"
            return vol
    stage.ixconfig = Cfg()
    view = m.PyPIView.__new__(m.PyPIView)
    view.context = Obj(stage=stage, project="pkg", version="1.0")
    view.request = Obj(params={"force": "1"} if force else {}, path_info="/joe/dev/+f/1/2/x.zip")
    asked = []
    view.xom = Obj(filestore=Obj(get_file_entry=lambda p: asked.append(p) or (None if meta is None else entry)))
    fn = dict(version=view.del_versiondata, project=view.del_project, file=view.del_pkg, index=view.index_delete)[what]
    if what == "index":
        missing = False
    r = c.call(fn)
    c.ensures("answers", r.raised(Answer), r)
    code = r.exc.args[0]
    may = vol if what == "index" or not force else True
    if events:
        c.ensures("only volatile indexes and forced requests", may)
        want = dict(version=("version", "pkg", "1.0"), project=("project", "pkg"), file=("file", entry), index=("index",))[what]
        c.ensures("exactly what was asked for", events == [want], events)
        c.ensures("reports success exactly if it was deleted", code == (404 if missing else 201 if what == "index" else 200), code)
        if what == "file":
            c.ensures("the file of that address", asked == ["joe/dev/+f/1/2/x.zip"] and meta, asked)
    elif what == "file" and not meta:
        c.ensures("no such file or refused", Or(code in (404, 410), And(code == 403, Not(may))), code)
    else:
        c.ensures("refused", And(code == 403, Not(may)), code)


@contract(["I03", "I05"], V + "PyPIView.user_delete", cross=800, bound=2,
          loops={V + "PyPIView.user_delete#0": LoopSpec(user_inv)})
def user_delete_guard(c):
    """a user with a non-volatile index is never deleted"""
    import devpi_server.views as m
    events = []

    def answer(*a, **kw):
        raise Answer([x for x in a if type(x) is int][0])
    c.patch(m, "abort", answer)
    c.patch(m, "apireturn", answer)

    def mk(e):
        vol = e.bool("volatile")
        L.last = vol
        if e.idx is not None and not c.concrete:
            from pyvc.core import SymInt
            i = SymInt(e.idx)
            c.assume(Iff(all_volatile(i + 1), And(all_volatile(i), vol)))

        class Cfg:
            def __getitem__(self, k):
                assert k == "volatile"
                return vol
        cfg = Cfg()
        cfg.vol = vol
        return ("index", cfg)
    L.last = None
    if not c.concrete and c.proof:
        c.assume(all_volatile(0))
    items = c.seq("indexes", mk, maxlen=4 if c.concrete else None)
    gone = c.flag("no such user")
    conf = Obj(get=lambda k, d: Obj(items=lambda: items) if k == "indexes" else d)
    if c.flag("empty user"):
        class Empty:
            def __bool__(self):
                return False
        conf = Empty()
    user = Obj(get=lambda: conf, delete=lambda: events.append("deleted"))
    view = m.PyPIView.__new__(m.PyPIView)
    view.context = Obj(user=None if gone else user, username="joe")
    view.request = Obj()
    r = c.call(view.user_delete)
    c.ensures("answers", r.raised(Answer), r)
    code = r.exc.args[0]
    if events:
        c.ensures("deleted once", events == ["deleted"] and code == 200)
        if c.concrete or not c.proof:
            c.ensures("only with volatile indexes", And(True, *[x[1].vol for x in items]))
        else:
            c.ensures("only with volatile indexes", all_volatile(length_of(items)))
    else:
        if c.concrete or not c.proof:
            some_not_volatile = Not(And(True, *[x[1].vol for x in items]))
        else:
            some_not_volatile = Not(L.last) if L.last is not None else False
        c.ensures("refused because of a non-volatile index or unknown", Or(code == 404, And(code == 403, some_not_volatile)), code)


def length_of(s):
    from pyvc.core import SymInt
    return SymInt(s.n)
