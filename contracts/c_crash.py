"""file commits and crash recovery (filestore_fs.py, keyfs_sqlite_fs.py)"""
import os
import sys
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, length
from pyvc.core import STATE, SymInt
from contracts import real
from contracts.mocks import Obj, NullLog
import z3

F = "devpi_server.filestore_fs:"


class Cur:
    e = None


class Sink:
    def append(self, x):
        pass


def fresh_int(name):
    return SymInt(z3.Int(STATE.engine.fresh(name)))


def fresh_bool(c, name):
    return c.bool(name)


def ops_inv(v):
    e = Cur.e
    e.pending_elem = None
    return [("exactly one operation per entry", Eq(e.n, v.i))]


def ops_havoc(v):
    Cur.e.n = fresh_int("n")


OBJS = [lambda: Cur.e, lambda: Cur.e.os]


def body(c, recovery):
    """the journal is an arbitrary list of relative paths; the file system answers
    arbitrarily; every operation is compared with the entry it is made for"""
    import devpi_server.filestore_fs as m
    c.patch(m, "threadlog", NullLog())
    e = Cur.e = Obj(n=0, failed=False, os=Obj())
    base = c.str("basedir", ["/b", "/b/c"])
    istmp = c.func("istmp", ["str"], "bool")
    suffix = c.func("suffix", ["str"], "str")
    dest = c.func("dest", ["str"], "str")
    exists_tmp = c.func("exists_tmp", ["str"], "bool")
    exists_dst = c.func("exists_dst", ["str"], "bool")
    current = {}

    def join(a, b):
        current["base"], current["rel"] = a, b
        return a + "/" + b

    def tmpsuffix(rel):
        if istmp(rel):
            s = suffix(rel)
            d = dest(rel)
            c.assume(And(Not(Eq(s, "")), Eq(rel, d + s)))
            return s
        return None

    def exists(p):
        rel = current["rel"]
        if Eq(p, base + "/" + rel):
            return exists_tmp(rel)
        c.ensures("only the two names of the entry are looked at", Eq(p, base + "/" + dest(rel)))
        return exists_dst(rel)

    def rename(src, dst):
        rel = current["rel"]
        c.ensures("only temporary files are renamed", istmp(rel))
        c.ensures("the temporary file of the entry", Eq(src, base + "/" + rel))
        c.ensures("to its final name", Eq(dst, base + "/" + dest(rel)))
        e.n = e.n + 1

    def remove(p):
        rel = current["rel"]
        c.ensures("only entries for deletion are removed", Not(istmp(rel)))
        c.ensures("the file of the entry", Eq(p, base + "/" + rel))
        e.n = e.n + 1
        if c.flag("already removed"):
            raise FileNotFoundError(2, "No such file or directory")
    c.patch(m, "os", Obj(path=Obj(join=join, exists=exists, lexists=exists, _name="os.path"), remove=remove, unlink=remove, _name="os"))
    c.patch(m, "rename", rename)
    c.patch(m, "tmpsuffix_for_path", tmpsuffix)
    return m, e, base, current, istmp, dest, exists_tmp, exists_dst


@contract("S03", F + "commit_renames", cross=200,
          loops={F + "commit_renames#0": LoopSpec(ops_inv, havoc={"files_del": lambda v: Sink(), "files_commit": lambda v: Sink()},
                                                  havoc_state=ops_havoc, modifies=["files_del", "files_commit"],
                                                  modifies_objs=OBJS)},
          covers=["done"])
def commit_renames(c):
    """any journal: every entry is carried out, exactly once, nothing else is touched"""
    m, e, base, *_ = body(c, False)
    pending = c.seq("pending", lambda x: x.str("rel"))
    r = c.call(m.commit_renames, base, pending)
    c.ensures("no failure", r.ok, r)
    c.cover("done")
    c.ensures("every entry was carried out", Eq(e.n, length(pending)))


def rec_inv(v):
    return []


@contract("S03", F + "check_pending_renames", cross=300,
          loops={F + "check_pending_renames#0": LoopSpec(
              lambda v: [("every entry is complete", Eq(Cur.e.done, v.i))],
              havoc_state=lambda v: Cur.e.__dict__.update(done=fresh_int("done"), n=fresh_int("n")),
              modifies_objs=OBJS)},
          covers=["done", "missing"])
def recover_renames(c):
    """any journal and any state of the files: afterwards every entry is complete, or
    the server refuses to start because a file is missing"""
    m, e, base, current, istmp, dest, exists_tmp, exists_dst = body(c, True)
    e.done = 0
    pending = c.seq("pending", lambda x: x.str("rel"))
    orig_join = m.os.path.join
    log = []

    def settle():
        """the entry before is complete now"""
        if "rel" not in current:
            return
        rel = current["rel"]
        if c.native():
            ok = {"n": e.n}
        e.done = e.done + 1
    # per entry: n counts operations; complete means renamed, or already in place, or removed
    real_ts = m.tmpsuffix_for_path
    st = {}

    def ts(rel):
        st["rel"] = rel
        st["n"] = e.n
        return real_ts(rel)
    c.patch(m, "tmpsuffix_for_path", ts)

    def exists(p):
        rel = current["rel"]
        if Eq(p, base + "/" + rel):
            x = exists_tmp(rel)
            if x:
                st["tmp"] = True
            else:
                st["tmp"] = False
            return st["tmp"]
        c.ensures("only the two names of the entry are looked at", Eq(p, base + "/" + dest(rel)))
        if exists_dst(rel):
            c.ensures("a file already in place is complete only if the temporary one is gone", st.get("tmp") is False)
            e.done = e.done + 1
            return True
        return False
    m.os.path.exists = exists
    m.os.path.lexists = exists
    r0 = m.rename

    def rename(a, b):
        r0(a, b)
        e.done = e.done + 1
    c.patch(m, "rename", rename)
    rem0 = m.os.remove

    def remove(p):
        e.done = e.done + 1
        rem0(p)
    m.os.remove = m.os.unlink = remove
    r = c.call(m.check_pending_renames, base, pending)
    if r.ok:
        c.cover("done")
        c.ensures("every entry is complete",
                  Eq(e.done, length(pending)))
    else:
        c.cover("missing")
        c.ensures("an error is reported", r.raised(OSError), r)
        rel = current["rel"]
        c.ensures("only when a committed file is missing", And(istmp(rel), Not(exists_tmp(rel)), Not(exists_dst(rel))))


@contract("S03", F + "make_rel_renames", mode="bounded", bound=3, cross=200)
def rel_renames(c):
    """the journal names every new file by its temporary name and every deleted file by
    its own name, relative to the base directory"""
    import devpi_server.filestore_fs as m
    base = c.str("basedir", ["/b", "/b/c"])
    pend = []
    want = []
    for i in range(c.pick("n", [0, 1, 2, 3])):
        rel = c.str("rel%d" % i, ["x", "y/z", "+files/a"])
        if c.flag("new%d" % i):
            d = c.str("digest%d" % i, ["-0123456789abcdef"])
            pend.append((base + "/" + rel + d + "-tmp", base + "/" + rel))
            want.append(rel + d + "-tmp")
        else:
            pend.append((None, base + "/" + rel))
            want.append(rel)
    r = c.call(lambda: list(m.make_rel_renames(base, pend)))
    c.ensures("no failure", r.ok, r)
    c.ensures("one entry per file", len(r.value) == len(want))
    for x, y in zip(r.value, want):
        c.ensures("relative name", Eq(x, y))


@contract("S03", [F + "tmpsuffix_for_path", "devpi_server.keyfs_sqlite_fs:DirtyFile.__init__"], mode="concrete", cross=400, strict=True)
def tmp_names(c):
    """the final name is recovered exactly from the temporary name the code makes"""
    import devpi_server.filestore_fs as m
    import devpi_server.keyfs_sqlite_fs as m2
    parts = ["a", "-", "tmp", "-tmp", ".", "0123abcd", "-0123abcd", "pkg-1.0.tar.gz", "/", "-abcdef0123456789", "é", " ", "%", "-t", "tm"]
    p = "+files/u/dev/" + "".join(c.pick("part", parts) for i in range(c.int("n", 1, 6)))
    if p.endswith("-tmp"):
        c.ensures("deletions of such names are not possible", True)
        return
    for cls in (m2.DirtyFile, m.DirtyFile):
        t = cls(p).tmppath
        s = m.tmpsuffix_for_path(t)
        c.ensures("temporary name", t.startswith(p) and t != p and t.endswith("-tmp"), t)
        c.ensures("exact final name", s is not None and t[:-len(s)] == p, (t, s))
    c.ensures("other names are not temporary", m.tmpsuffix_for_path(p) is None, p)


# ---- process death at every step of a real commit ----

def files_state(d):
    from contracts import app
    out = {}
    for rel, data in app.walk_files(os.path.join(d, "+files")).items():
        if not rel.endswith("-tmp"):
            out[rel] = data
    return out


def die_at(k, f, may_fail=False):
    """run f in a child process which ends right before its k-th step that changes
    files or commits; -> True if f completed"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            from devpi_server import keyfs_sqlite
            n = [0]

            journal = [False]

            def step():
                n[0] += 1
                if n[0] > k:
                    os._exit(8 if journal[0] else 7)
            ow = keyfs_sqlite.BaseConnection.write_changelog_entry

            def write_changelog_entry(self, *a, **kw):
                r = ow(self, *a, **kw)
                journal[0] = True
                return r
            keyfs_sqlite.BaseConnection.write_changelog_entry = write_changelog_entry

            def hook(ev, args):
                if ev in ("os.rename", "os.remove", "os.mkdir", "os.link", "os.rmdir", "os.truncate", "os.symlink"):
                    step()
                elif ev == "open" and isinstance(args[1], str) and set(args[1]) & set("wax+"):
                    step()
            oc = keyfs_sqlite.BaseConnection.commit

            def commit(self, *a, **kw):
                step()
                r = oc(self, *a, **kw)
                step()
                return r
            keyfs_sqlite.BaseConnection.commit = commit
            sys.addaudithook(hook)
            f()
            code = 0
        except BaseException:       # noqa: B036
            if not may_fail:
                import traceback
                traceback.print_exc()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code not in (0, 7, 8) and not may_fail:
        raise RuntimeError("child failed")
    return {0: "done", 7: "early", 8: "journal"}.get(code, "failed")


def tmp_of(kf, serial, rel):
    """the journal entry of a serial which creates the file"""
    from devpi_server.fileutil import loads
    with kf.get_connection() as conn:
        entry = loads(conn.get_raw_changelog_entry(serial))
    for x in entry[1]:
        if x.startswith(rel + "-") and x.endswith("-tmp") and "/" not in x[len(rel):]:
            return x
    return None


def recorded(path):
    from devpi_server.keyfs import KeyFS
    with KeyFS(path, real.storage("sqlite")).get_connection() as conn:
        return conn.last_changelog_serial


@contract("S03", ["devpi_server.keyfs_sqlite_fs:Connection.*", "devpi_server.keyfs_sqlite_fs:Storage.perform_crash_recovery",
                  "devpi_server.keyfs_sqlite:Writer.commit", F + "commit_renames", F + "check_pending_renames",
                  "devpi_server.fileutil:rename"], mode="concrete", cross=16)
def crash_commit(c):
    """the process ends at every step of a commit of arbitrary file changes: after the
    restart the files are those of the committed serial; a second crash during recovery
    does not change that"""
    import shutil
    real.warm()

    with real.scratch() as d0:
        d = os.path.join(d0, "a")

        def mk(path):
            kf = real.mk_keyfs(path)
            kf.add_key("K", "k/{n}", dict)
            return kf
        names = ["u/dev/a.zip", "u/dev/b.zip", "u/dev/sub/c-0123abcd.zip", "r/pypi/d.whl"]
        old = {}
        kf = mk(d)
        for i in range(c.int("ncommits", 0, 2)):
            with kf.write_transaction() as tx:
                kf.get_key("K")(n="x").set({"i": i})
                for n in names:
                    op = c.pick("op0", ["none", "set", "set", "del"])
                    if op == "set":
                        tx.conn.io_file_set("+files/" + n, b"old%d" % i + n.encode())
                        old[n] = b"old%d" % i + n.encode()
                    elif op == "del" and n in old:
                        tx.conn.io_file_delete("+files/" + n)
                        del old[n]
        c.ensures("files before", files_state(d) == old)
        ops = []
        for n in names:
            op = c.pick("op", ["none", "set", "set", "del", "setdel", "delset", "stream", "setset"])
            if op in ("del", "delset") and n not in old:
                op = "set"
            if op == "stream" and n in old:
                op = "set"
            ops.append((n, op, b"new" + n.encode() * c.int("size", 1, 3)))
        record = c.pick("record", [True, True, False])
        new = dict(old)
        for n, op, data in ops:
            if op in ("set", "delset", "stream", "setset"):
                new[n] = data
            elif op in ("del", "setdel"):
                new.pop(n, None)
        with kf.get_connection() as conn:
            s0 = conn.last_changelog_serial

        def change(path):
            kf = mk(path)
            with kf.write_transaction() as tx:
                if record:
                    kf.get_key("K")(n="x").set({"new": 1})
                for n, op, data in ops:
                    p = "+files/" + n
                    if op in ("set", "setdel", "setset"):
                        tx.conn.io_file_set(p, b"other" if op == "setset" else data)
                    if op == "setset":
                        tx.conn.io_file_set(p, data)
                    if op in ("del", "setdel", "delset"):
                        tx.conn.io_file_delete(p)
                    if op == "delset":
                        tx.conn.io_file_set(p, data)
                    if op == "stream":
                        with tx.conn.io_file_new_open(p) as f:
                            f.write(data)
                            tx.conn.io_file_set(p, f)
        ops_done = {n for n, op, data in ops if op != "none"}
        k = 0
        moved = []
        while True:
            w = os.path.join(d0, "w")
            shutil.copytree(d, w)
            how = die_at(k, lambda: change(w))
            done = how == "done"
            # the recovery itself can be interrupted
            if c.pick("crash2", [False, False, True]):
                j = c.int("step2", 0, 3)
                die_at(j, lambda: mk(w), may_fail=True)
            r = c.call(lambda: mk(w))
            if not r.ok and how == "journal" and recorded(w) == s0:
                # the files of the newest recorded serial were removed by the unrecorded commit
                moved.append((k, r))
                shutil.rmtree(w)
                k += 1
                continue
            c.ensures("the server starts again", r.ok, (k, r))
            with r.value.get_connection() as conn:
                s = conn.last_changelog_serial
            c.ensures("the commit is recorded completely or not at all", s in (s0, s0 + 1), (s0, s))
            got = files_state(w)
            if done:
                c.ensures("a finished commit is recorded", s == s0 + 1 or (not record and ops == []) or new == old, (s, s0))
                c.ensures("a finished commit has its files", got == new, (got, new))
            elif s == s0 + 1:
                c.ensures("the files of a recorded commit are complete", got == new, (k, got, new))
            else:
                for n in set(got) | set(old):
                    x = got.get(n)
                    c.ensures("every file is an old or a new one", x == old.get(n) or x == new.get(n), (k, n, x))
                if how == "early":
                    c.ensures("the files of a commit which was not recorded are not there", got == old, (k, sorted(got), sorted(old)))
                elif got != old:
                    moved.append((k, sorted(got), sorted(old)))
            kf = mk(w)
            c.ensures("recovering again changes nothing", files_state(w) == got)
            if done and s == s0 + 1:
                # the machine stopped before the file system kept these changes
                for n in names:
                    p = os.path.join(w, "+files", n)
                    if n not in ops_done or not c.flag("lost"):
                        continue
                    if n in new:
                        t = tmp_of(kf, s, "+files/" + n)
                        c.ensures("every new file is in the journal", t is not None, n)
                        os.rename(p, os.path.join(w, t))
                        if n in old:
                            with open(p, "wb") as f:
                                f.write(old[n])
                    else:
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "wb") as f:
                            f.write(b"old")
                r = c.call(lambda: mk(w))
                c.ensures("recovery carries out the journal", r.ok and files_state(w) == new, (r, files_state(w), new))
            shutil.rmtree(w)
            k += 1
            if done:
                break
            if k > 60:
                c.ensures("finite", False)
        c.ensures("no file is moved before its commit is recorded", not moved, moved[:2])
