"""archive extraction and documentation files (archive.py, doczip.py)"""
import io
import os
import tarfile
import zipfile
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem, exists_in
from contracts import real
from contracts.mocks import Obj, CM

TARGETS = ["devpi_common.archive:ZipArchive.extract", "devpi_common.archive:TarArchive.extract",
           "devpi_common.archive:Archive"]

PARTS = ["a", "b", "..", ".", "", "c.txt", "...", "a..b", "~", "t-evil", "x\\y", " ", "é"]


def snapshot(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for d in dn:
            p = os.path.join(dp, d)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = ("file", fh.read(), os.stat(p).st_ino)
    return out


def member_name(c, tag, root, target):
    form = c.pick(tag + ".form", ["rel", "rel", "rel", "abs", "abs_target", "escape", "sibling"])
    n = c.pick(tag + ".n", [1, 2, 3])
    parts = [c.pick("%s.p%d" % (tag, i), PARTS) for i in range(n)]
    # no more than three levels up, so that everything stays in the scratch directory
    while parts.count("..") > 3:
        parts.remove("..")
    name = "/".join(parts)
    if form == "abs":
        name = os.path.join(root, "outside", name.replace("..", "dd").lstrip("/"))
    elif form == "abs_target":
        name = os.path.join(target, name)
    elif form == "escape":
        name = "a/" * c.pick(tag + ".in", [0, 1, 2]) + "../" * c.pick(tag + ".up", [1, 2, 3]) + \
            c.pick(tag + ".leaf", ["evil", "outside/secret", "t-evil/x", "t/x"])
    elif form == "sibling":
        name = "../" + os.path.basename(target) + c.pick(tag + ".sfx", ["-evil/x", ".hash", "x", "/ok.txt"])
    if c.pick(tag + ".slash", [False, False, False, True]):
        name += "/"
    return name


def build_zip(members):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for name, data, kind in members:
            i = zipfile.ZipInfo("x")
            i.filename = name
            z.writestr(i, b"" if name.endswith("/") else data)
    return f.getvalue()


def build_tar(members, root):
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode="w:gz") as t:
        for name, data, kind in members:
            i = tarfile.TarInfo(name or "x")
            if kind == "dir" or name.endswith("/"):
                i.type = tarfile.DIRTYPE
                t.addfile(i)
            elif kind in ("sym", "hard"):
                i.type = tarfile.SYMTYPE if kind == "sym" else tarfile.LNKTYPE
                i.linkname = data.decode()
                t.addfile(i)
            else:
                i.size = len(data)
                t.addfile(i, io.BytesIO(data))
    return f.getvalue()


def tree(d):
    """scratch layout: everything an archive can name by at most three levels up lies inside d"""
    root = os.path.join(d, "r")
    target = os.path.join(root, "1", "2", "3", "t")
    os.makedirs(os.path.join(root, "outside"))
    os.makedirs(os.path.dirname(target))
    for p in ("outside/secret", "1/2/3/t-evil", "1/2/secret", "1/2/3/secret"):
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b"SECRET")
    return root, target


@contract("C01", TARGETS, mode="concrete", cross=500, params=["zip", "tar"])
def extract_confined(c):
    from devpi_common.archive import Archive
    with real.scratch() as d:
        root, target = tree(d)
        if c.flag("target exists"):
            os.makedirs(target)
        members = []
        for i in range(c.int("n", 1, 3)):
            name = member_name(c, "m%d" % i, root, target)
            kind = c.pick("kind%d" % i, ["file", "file", "dir", "sym", "hard"]) if c.param == "tar" else "file"
            data = ("data%d" % i).encode()
            if kind in ("sym", "hard"):
                data = c.pick("link%d" % i, ["../../secret", os.path.join(root, "outside"), "c.txt", "../secret",
                                             "../t-evil"]).encode()
            members.append((name, data, kind))
        if c.flag("through link") and c.param == "tar":
            members = [("lnk", c.pick("lt", ["..", "../..", os.path.join(root, "outside")]).encode(), "sym"),
                       ("lnk/evil", b"x", "file")] + members
        raw = build_zip(members) if c.param == "zip" else build_tar(members, root)
        # the extraction directory may be given relative to the working directory
        tgt = target
        if c.flag("unnormalized target"):
            tgt = os.path.join(os.path.dirname(target), ".", "x", "..", "t")
            os.makedirs(os.path.join(os.path.dirname(target), "x"), exist_ok=True)
        before = snapshot(root)
        cwd = os.getcwd()
        try:
            os.chdir(os.path.dirname(target))
            if c.pick("relative target", [False, False, True]):
                tgt = "t"
            with Archive(io.BytesIO(raw)) as a:
                r = c.call(a.extract, tgt)
        finally:
            os.chdir(cwd)
        after = snapshot(root)
        rel = os.path.relpath(target, root)
        for p in set(before) | set(after):
            if p == rel or p.startswith(rel + os.sep):
                continue
            b, x = before.get(p), after.get(p)
            c.ensures("nothing outside the target directory is created or changed", b == x, (members, p, b, x))
        for p, x in after.items():
            if x[0] == "link":
                to = os.path.realpath(os.path.join(root, p))
                c.ensures("no link out of the target directory is created",
                          to == target or to.startswith(target + os.sep), (members, p, x))
        plain = all(k in ("file", "dir") and os.path.normpath(n) == n.rstrip("/") and not n.startswith(("/", ".."))
                    and n.rstrip("/") not in (".", "") for n, dta, k in members)
        if plain:
            names = [n.rstrip("/") for n, x, k in members]
            clash = len(set(names)) < len(names) or any(
                m != n and m.startswith(n + "/") for m in names for n in names)
            if not clash:
                c.ensures("a harmless archive is extracted", r.ok, (r, members))
                for n, dta, k in members:
                    x = after.get(os.path.join(rel, n.rstrip("/")))
                    c.ensures("every member is extracted with its content",
                              x is not None and (x[0] == "dir" if (n.endswith("/") or k == "dir") else x[:2] == ("file", dta)),
                              (n, x))


class Entry:
    def __init__(self, path, spec):
        self.path, self.hash_spec, self.best_available_hash_spec = path, spec, spec
        self.best_available_hash_value = spec.split("=")[1]
        self.hash_value = spec.split("=")[1]
        self.version = "1.0"

    def file_exists(self):
        return True

    def file_open_read(self):
        return open(self.path, "rb")


@contract("C01", ["devpi_web.doczip:unpack_docs", "devpi_web.doczip:get_unpack_path", "devpi_web.doczip:docs_file_exists",
                  "devpi_web.doczip:docs_file_path", "devpi_web.doczip:docs_file_content", "devpi_web.doczip:remove_docs"],
          mode="concrete", cross=150)
def docs_confined(c):
    import devpi_web.doczip as m
    from devpi_common.validation import normalize_name
    with real.scratch() as d:
        root = os.path.join(d, "r", "1", "2")
        base = os.path.join(root, "srv")
        os.makedirs(base)
        packed = c.flag("packed")
        alt = c.flag("documentation path")
        docpath = os.path.join(root, "docs") if alt else None
        stages = {}
        secrets = {}
        for rel in ("secret", "srv/.secret", "srv/u/dev/secret", "srv/u/secret", "outside/secret"):
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"SECRET" + rel.encode())
            secrets[p] = b"SECRET" + rel.encode()

        def stage(u, i):
            args = Obj(documentation_path=docpath, keep_docs_packed=packed)
            return Obj(xom=Obj(config=Obj(args=args)), keyfs=Obj(base_path=base, basedir=None),
                       user=Obj(name=u), index=i, name="%s/%s" % (u, i))
        todo = []
        used = set()
        for n in range(c.int("ndocs", 1, 4)):
            u, i = c.pick("u", ["u", "v"]), c.pick("i", ["dev", "prod"])
            name, ver = c.pick("name", ["pkg", "Pkg_x", "pkg-x", "p"]), c.pick("version", ["1.0", "1.0.1", "2"])
            if (u, i, normalize_name(name), ver) in used:
                continue
            used.add((u, i, normalize_name(name), ver))
            files = {"index.html": ("%s%s%s%s" % (u, i, name, ver)).encode()}
            if c.flag("more"):
                files["sub/x.html"] = b"sub" + files["index.html"]
            p = os.path.join(d, "%d.zip" % n)
            with open(p, "wb") as f:
                f.write(build_zip([(k, v, "file") for k, v in files.items()]))
            import hashlib
            e = Entry(p, "sha256=" + hashlib.sha256(files["index.html"]).hexdigest())
            todo.append((stage(u, i), name, ver, e, files))
        before = snapshot(os.path.join(d, "r"))

        def exists(t, rp):
            return c.call(m.docs_file_exists, t[0], t[1], t[2], t[3], rp)
        dirs = []
        for t in todo:
            r = exists(t, "index.html")
            c.ensures("uploaded documentation is found", r.ok and r.value is True, r)
            if not packed:
                up = str(m.get_unpack_path(t[0], t[1], t[2]))
                top = docpath or base
                comps = os.path.relpath(up, top).split(os.sep)
                c.ensures("unpacked below the directory of its own index, project and version",
                          comps[:4] == [t[0].user.name, t[0].index, normalize_name(t[1]), t[2]] and len(comps) == 5
                          and ".." not in comps, up)
                dirs.append(up)
            else:
                c.ensures("packed documentation is not unpacked", m.docs_file_path(t[0], t[1], t[2], t[3], "index.html") is None)
        for i, x in enumerate(dirs):
            for y in dirs[i + 1:]:
                c.ensures("different documentations have disjoint directories",
                          x != y and not x.startswith(y + os.sep) and not y.startswith(x + os.sep), (x, y))
        for t in todo:
            for rp in list(t[4]) + [
                    "../../../../.secret", "../../../secret", "../../../../../secret", "/" + root.strip("/") + "/secret",
                    os.path.join(root, "outside/secret"), "sub/../../../../secret", "nothing", "../+doc.hash",
                    "../../1.0/+doc/index.html", "sub/../index.html", "./index.html"]:
                r = exists(t, rp)
                if not (r.ok and r.value):
                    c.ensures("every member is served", rp not in t[4], (rp, r))
                    continue
                if packed:
                    got = m.docs_file_content(t[0], t[1], t[2], t[3], rp)
                else:
                    with open(str(m.docs_file_path(t[0], t[1], t[2], t[3], rp)), "rb") as f:
                        got = f.read()
                c.ensures("only files of this documentation are served",
                          got in t[4].values() and (rp not in t[4] or got == t[4][rp]), (rp, got))
        after = snapshot(os.path.join(d, "r"))
        for p, x in before.items():
            if x[0] == "file":
                c.ensures("no other file is touched", after.get(p) == x, p)
        if todo and not packed:
            k = c.pick("remove", list(range(len(todo))))
            r = c.call(m.remove_docs, todo[k][0], todo[k][1], todo[k][2])
            c.ensures("removal succeeds", r.ok, r)
            now = snapshot(os.path.join(d, "r"))
            mine = os.path.relpath(dirs[k], os.path.join(d, "r"))
            for p, x in after.items():
                if p == mine or p.startswith(mine + os.sep):
                    c.ensures("removed documentation is gone", p not in now, p)
                elif x[0] == "file" and not p.endswith("+doc.hash"):
                    c.ensures("nothing else is removed", now.get(p) == x, p)


# ---- ZipArchive.extract: every path it creates is inside the target ----
# Path strings are symbolic.  Assumed contracts of os.path / pathlib (posix,
# no symbolic links below the target): norm() is the file a path addresses,
# it is absolute and normalised; an absolute normalised path is its own norm;
# relative_to() is the lexical prefix test on path components.

class FS:
    def __init__(self, c):
        self.c = c
        self.norm_f = c.func("norm", ["str"], "str")
        self.made = []

    def norm(self, s):
        r = self.norm_f(s)
        self.c.assume(Eq(self.norm_f(r), r))
        self.c.assume(r.startswith("/"))
        return r

    def join(self, a, *bs):
        for b in bs:
            b = getattr(b, "s", b)
            if b.startswith("/"):
                a = b
            else:
                a = a + "/" + b
        return a

    def prefix(self, base, p):
        return Or(Eq(p, base), p.startswith(base + "/"))


class PathMock:
    def __init__(self, fs, s):
        self.fs, self.s = fs, s

    def _p(self, s):
        return PathMock(self.fs, s)

    def joinpath(self, *o):
        return self._p(self.fs.join(self.s, *o))

    def __truediv__(self, o):
        return self.joinpath(o)

    def resolve(self, strict=False):
        return self._p(self.fs.norm(self.s))

    def relative_to(self, o):
        if not self.fs.prefix(getattr(o, "s", o), self.s):
            raise ValueError("not in the subpath")
        return self._p("x")

    def is_relative_to(self, o):
        return bool(self.fs.prefix(getattr(o, "s", o), self.s))

    @property
    def parent(self):
        return ParentMock(self)

    def mkdir(self, *a, **k):
        self.fs.made.append(("mkdir", self.s))

    def open(self, mode="r"):
        self.fs.made.append(("open", self.s))
        return CM(Obj(write=lambda data: None))

    def write_bytes(self, data):
        self.fs.made.append(("open", self.s))

    def __fspath__(self):
        return self.s

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from pyvc import ctx
        ctx.mock_missing("Path." + n)


class ParentMock:
    """parent directory of a path"""

    def __init__(self, p):
        self.p = p

    def mkdir(self, *a, **k):
        self.p.fs.made.append(("mkparent", self.p.s))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from pyvc import ctx
        ctx.mock_missing("Path.parent." + n)


def zip_body(c, names):
    import devpi_common.archive as m
    fs = FS(c)
    to = c.str("to", ["/t", "/t/x", "t"])
    # os.path functions on strings or path objects
    s_of = lambda x: getattr(x, "s", x)     # noqa: E731
    ospath = Obj(abspath=lambda p: fs.norm(s_of(p)), normpath=lambda p: fs.norm(s_of(p)), realpath=lambda p: fs.norm(s_of(p)),
                 join=lambda a, *b: fs.join(s_of(a), *b), _name="os.path")
    c.patch(m, "os", Obj(path=ospath, sep="/", fspath=s_of, _name="os"))
    c.patch(m, "Path", lambda p=".", *o: PathMock(fs, fs.join(s_of(p), *o)))
    z = c.blank(m.ZipArchive, _archive=Obj(namelist=lambda: names, read=lambda n: b"data", _name="ZipFile"), file=Obj())
    return m, fs, to, z


def touched_inside(c, fs, to):
    base = fs.norm(to)
    for kind, p in fs.made:
        c.ensures("created below the target directory (%s)" % kind, fs.prefix(base, fs.norm(p)))
    fs.made.clear()


@contract("C01", "devpi_common.archive:ZipArchive.extract", covers=["extracted", "refused"], cross=0,
          assumed=["os.path.abspath/normpath and pathlib join/relative_to behave as on posix; zipfile.namelist/read",
                   "the target directory contains no symbolic links"])
def zip_extract_one(c):
    """arbitrary member name: what is created for it is inside the target"""
    name = c.str("name")
    m, fs, to, z = zip_body(c, [name])
    r = c.call(z.extract, to)
    touched_inside(c, fs, to)
    if r.ok:
        c.cover("extracted")
    else:
        c.cover("refused")
        c.ensures("refused with an error", r.raised(ValueError))


class Cur:
    fs = None
    to = None


def made_inv(v):
    fs = Cur.fs
    base = fs.norm(Cur.to)
    return [("everything created so far is below the target directory",
             And(*[fs.prefix(base, fs.norm(p)) for kind, p in fs.made]))]


def made_havoc(v):
    Cur.fs.made.clear()


@contract("C01", "devpi_common.archive:ZipArchive.extract", covers=["extracted"], cross=0,
          loops={"devpi_common.archive:ZipArchive.extract#0": LoopSpec(
              made_inv, havoc_state=made_havoc, modifies_objs=[lambda: Cur.fs, lambda: Cur.fs.made])})
def zip_extract_all(c):
    """any number of members (loop invariant)"""
    names = c.seq("names", lambda e: e.str("name"))
    m, fs, to, z = zip_body(c, names)
    Cur.fs, Cur.to = fs, to
    r = c.call(z.extract, to)
    touched_inside(c, fs, to)
    if r.ok:
        c.cover("extracted")
    else:
        c.ensures("refused with an error", r.raised(ValueError))
