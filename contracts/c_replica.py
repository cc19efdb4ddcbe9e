"""replication: primary side (PrimaryChangelogRequest), replica side (ReplicaThread),
applying change sets (KeyFS.import_changes), waiting (KeyFS.wait_tx_serial)"""
import io
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq
from pyvc.core import STATE, SymInt
from contracts import real
from contracts.mocks import Obj, CM, NullLog
import z3

K = "devpi_server.keyfs:"
R = "devpi_server.replica:"


class Cur:
    e = None


def fresh_int(name):
    return SymInt(z3.Int(STATE.engine.fresh(name)))


# ---- waiting for a serial ----

def wait_inv(v):
    e = Cur.e
    return [("time does not run backwards", v.time_spent >= 0)]


def wait_havoc(v):
    e = Cur.e
    old = e.first
    e.committed = fresh_int("committed")
    STATE.engine.assume((e.committed >= old).e)


@contract("S07", [K + "KeyFS.wait_tx_serial"],
          loops={K + "KeyFS.wait_tx_serial#0": LoopSpec(
              wait_inv, havoc={"time_spent": lambda v: fresh_int("time_spent")}, havoc_state=wait_havoc,
              modifies_objs=[lambda: Cur.e])},
          params=["timeout", "none"], covers=["arrived", "interrupted"], cross=200)
def wait_serial(c):
    """success is only reported when the serial is committed, and a timeout only
    when it was not and a timeout was given"""
    import devpi_server.keyfs as m
    c.patch(m, "threadlog", NullLog())
    e = Cur.e = Obj()
    e.committed = e.first = c.int("committed", -1, gen_hi=4)
    serial = c.int("serial", 0, gen_hi=6)
    timeout = c.int("timeout", 0, gen_hi=5) if c.param == "timeout" else None
    recheck = c.int("recheck", 1, gen_hi=3)
    e.n = 0

    class Interrupt(Exception):
        pass

    def grow():
        if c.native():
            e.committed += c.pick("grow", [0, 0, 1])
            e.n += 1
            if e.n > 30:
                raise Interrupt()
        else:
            n = c.int("now")
            c.assume(n >= e.committed)
            e.committed = n
        return e.committed

    def cb():
        if c.flag("shutdown"):
            raise Interrupt()
    conn = Obj(db_read_last_changelog_serial=grow)
    cv = CM(Obj())
    cv.wait = lambda timeout=None: True
    cv.wait_for = lambda pred, timeout=None: c.stop()
    kf = c.blank(m.KeyFS, get_connection=lambda *a, **k: CM(conn), _cv_new_transaction=cv)
    r = c.call(kf.wait_tx_serial, serial, timeout=timeout, recheck=recheck,
               recheck_callback=cb if c.flag("callback") else None)
    if not r.ok:
        c.cover("interrupted")
        c.ensures("only the callback interrupts waiting", r.raised(Interrupt), r)
        return
    if r.value:
        c.cover("arrived")
        c.ensures("success only when the serial is committed", e.committed >= serial)
    else:
        c.ensures("giving up only with a timeout", timeout is not None)
        c.ensures("giving up only when the serial is not committed", e.committed < serial)


# ---- applying a change set ----

@contract("S07", [K + "KeyFS.import_changes"], mode="bounded", bound=2, cross=300, covers=["applied", "refused"])
def import_changes(c):
    """every key of the set is recorded once with the transmitted value and previous
    serial; a set which is not the next one is refused before anything is recorded"""
    import devpi_server.keyfs as m
    current = c.int("current", -1, gen_hi=5)
    serial = c.int("serial", -1, gen_hi=6)
    n = c.pick("n", [0, 1, 2, 3])
    changes = {}
    for i in range(n):
        changes["p/%d" % i] = (c.pick("kind%d" % i, ["A", "B"]), c.int("back%d" % i, -1),
                               c.pick("v%d" % i, [None, {"a": [1]}, {}]))
    want = {k: (v[0], v[1], v[2]) for k, v in changes.items()}
    recs = []
    state = Obj(open=0, done=0, imported=[])

    class W:
        def record_set(self, typedkey, value, back_serial=None):
            c.ensures("recorded within the write transaction", state.open == 1)
            recs.append((typedkey.relpath, typedkey.name, value, back_serial))

        def __enter__(self):
            state.open = 1
            return self

        def __exit__(self, cls, *a):
            state.open = 2
            if cls is None:
                state.done = 1
            return False
    w = W()
    conn = Obj(last_changelog_serial=current, write_transaction=lambda *a, **k: w)

    def sub(s, ch):
        state.imported.append((s, state.done))
    kf = c.blank(m.KeyFS, get_connection=lambda *a, **k: CM(conn),
                 get_key_instance=lambda keyname, relpath: c.blank(m.TypedKey if hasattr(m, "TypedKey") else Obj)
                 if False else KeyMock(keyname, relpath),
                 _import_subscriber=sub if c.flag("subscriber") else None,
                 read_transaction=lambda *a, **k: CM(Obj()))
    r = c.call(kf.import_changes, serial, changes)
    if serial != current + 1:
        c.cover("refused")
        c.ensures("a set which is not the next one is refused", not r.ok, r)
        c.ensures("and nothing of it is recorded", recs == [] or state.done == 0)
        return
    c.cover("applied")
    c.ensures("the next set is accepted", r.ok, r)
    c.ensures("committed", state.done == 1)
    c.ensures("every key once", len(recs) == n)
    for relpath, (name, back, val) in want.items():
        got = [x for x in recs if x[0] == relpath]
        c.ensures("each key is recorded", len(got) == 1)
        c.ensures("with kind, value and previous serial",
                  And(got[0][1] == name, Eq(got[0][2], val) if val is not None else got[0][2] is None, Eq(got[0][3], back)))
    c.ensures("subscribers see the set after it is committed", all(x[1] == 1 for x in state.imported))


class KeyMock:
    def __init__(self, name, relpath):
        self.name = name
        self.relpath = relpath
        self.type = dict
        self.params = {}

    def __hash__(self):
        return hash(self.relpath)

    def __eq__(self, o):
        return self.relpath == o.relpath


# ---- primary side ----

H = dict(uuid="X-DEVPI-REPLICA-UUID", expected="X-DEVPI-EXPECTED-PRIMARY-ID", old="X-DEVPI-EXPECTED-MASTER-ID")


@contract("S07", [R + "PrimaryChangelogRequest.verify_primary"], covers=["ok", "refused"], cross=300)
def verify_primary(c):
    """changes are only served by a primary, to replicas of this very primary"""
    import devpi_server.replica as m
    c.patch(m, "threadlog", NullLog())
    headers = {}
    mine = c.str("primary_uuid", ["a", "b"])
    c.assume(Not(Eq(mine, "")))
    sent = c.opt("sent", lambda n: c.str(n, ["", "a", "b"]))
    old = c.opt("old", lambda n: c.str(n, ["", "a", "b"]))
    if sent is not None:
        headers[m.H_EXPECTED_PRIMARY_ID] = sent
    if old is not None:
        headers[m.H_EXPECTED_MASTER_ID] = old
    kind = c.pick("identity", ["none", "replica", "user"])
    ident = {"none": None, "replica": m.ReplicaIdentity(), "user": Obj(username="u", groups=[])}[kind]
    is_primary = c.flag("primary")
    q = c.blank(m.PrimaryChangelogRequest, xom=Obj(is_primary=lambda: is_primary,
                                                   config=Obj(get_primary_uuid=lambda: mine)),
                request=Obj(headers=headers, identity=ident, log=NullLog()))
    r = c.call(q.verify_primary)
    if r.ok:
        c.cover("ok")
        c.ensures("only a primary serves changes", is_primary)
        c.ensures("never to an authenticated user", kind != "user")
        exp = sent if sent is not None else old
        c.ensures("only to a replica which names its primary", exp is not None)
        c.ensures("an expected primary is this one", Or(Eq(exp, ""), Eq(exp, mine)))
    else:
        c.cover("refused")
        c.ensures("refused with an HTTP error", (r.raised(m.HTTPForbidden) or r.raised(m.HTTPBadRequest)), r)


@contract("S07", [R + "PrimaryChangelogRequest._wait_for_serial"], covers=["now", "wait", "unknown", "timeout"], cross=300)
def wait_for_serial(c):
    """answers only for committed serials; waits only for the next one"""
    import devpi_server.replica as m
    st = Obj(current=c.int("current", -1, gen_hi=4), waited=False)
    first = st.current
    serial = c.int("serial", 0, gen_hi=6)

    def wait(s, *a, **k):
        c.ensures("waits for the requested serial", Eq(s, serial))
        c.ensures("waits only for the next serial", Eq(s, first + 1))
        c.ensures("waits with a time limit", k.get("timeout") is not None or len(a) > 0)
        st.waited = True
        n = c.int("later", gen_hi=6)
        c.assume(n >= st.current)
        st.current = n
        return st.current >= s
    kf = Obj(get_current_serial=lambda: st.current, get_next_serial=lambda: st.current + 1, wait_tx_serial=wait)
    q = c.blank(m.PrimaryChangelogRequest, xom=Obj(keyfs=kf), request=Obj(params={"initial_fetch": ""} if c.flag("initial") else {}))
    r = c.call(q._wait_for_serial, serial)
    if r.ok:
        c.cover("wait" if st.waited else "now")
        c.ensures("the serial is committed", serial <= st.current)
    elif r.raised(m.HTTPNotFound):
        c.cover("unknown")
        c.ensures("not found only beyond the next serial", serial > first + 1)
    else:
        c.cover("timeout")
        c.ensures("otherwise: try again later", r.raised(m.HTTPAccepted), r)
        c.ensures("only while it is not committed", serial > st.current)


# ---- replica side ----

@contract("S07", [R + "ReplicaThread.update_primary_serial"], cross=200)
def update_primary_serial(c):
    """the known serial of the primary never goes backwards; 'in sync' is only
    recorded when the replica has that serial"""
    import devpi_server.replica as m
    mine = c.int("current", -1, gen_hi=4)
    known = c.opt("known", lambda n: c.int(n, -1, gen_hi=4))
    serial = c.int("serial", -1, gen_hi=4)
    sync = c.flag("update_sync")
    before = None
    t = c.blank(m.ReplicaThread, xom=Obj(keyfs=Obj(get_current_serial=lambda: mine)), log=NullLog(),
                shared_data=Obj(_replica_in_sync_cv=CM(Obj())), _primary_serial=known,
                _primary_serial_timestamp=before, replica_in_sync_at=None, update_from_primary_at=None)
    t.shared_data._replica_in_sync_cv.notify_all = lambda: None
    t.shared_data._replica_in_sync_cv.notify = lambda *a: None
    r = c.call(t.update_primary_serial, serial, update_sync=sync, ignore_lower=c.flag("ignore_lower"))
    c.ensures("no exception", r.ok, r)
    got = t._primary_serial
    if known is None:
        c.ensures("first serial is recorded", Eq(got, serial))
    else:
        c.ensures("the highest serial is kept", And(got >= known, got >= serial, Or(Eq(got, known), Eq(got, serial))))
    if t.replica_in_sync_at is not None:
        c.ensures("in sync only with the serial of the primary", And(sync, Eq(mine, serial)))
    else:
        c.ensures("sync is recorded", Not(And(sync, Eq(mine, serial))))


@contract("S07", [R + "ReplicaThread.fetch"], covers=["applied", "refused", "exit"], cross=400)
def fetch(c):
    """data is processed only from a successful answer of the known primary; every
    other answer changes nothing; success is only reported when nothing is left to retry"""
    import devpi_server.replica as m
    st = Obj(handled=0, exited=0, stored=[], updates=[], slept=0, closed=0)
    known = c.opt("known", lambda n: c.str(n, ["a", "b"]))
    if known is not None:
        c.assume(Not(Eq(known, "")))
        c.assume(Not(Eq(known, "me")))
    remote = c.opt("remote", lambda n: c.str(n, ["", "a", "b"]))
    remote_old = c.opt("remote_old", lambda n: c.str(n, ["", "a", "b"]))
    status = c.pick("status", [200, 202, 301, 302, 404, 500]) if c.native() else c.int("status", 100, 599)
    serial_kind = c.pick("serial_header", ["int", "missing", "bad"])
    sv = {"int": 7, "bad": 0, "missing": 0}[serial_kind]

    class Exit(BaseException):
        pass

    class HandlerError(Exception):
        pass

    def _exit(code):
        st.exited = 1
        raise Exit()
    headers = {}
    if remote is not None:
        headers[m.H_PRIMARY_UUID] = remote
    if remote_old is not None:
        headers[m.H_MASTER_UUID] = remote_old
    if serial_kind == "int":
        headers["X-DEVPI-SERIAL"] = "7"
    elif serial_kind == "bad":
        headers["X-DEVPI-SERIAL"] = "nonsense"

    class Resp:
        status_code = status
        reason = "reason"
        url = "http://primary/+changelog/1-"

        def __init__(self):
            self.headers = headers

        def close(self):
            st.closed = 1
    connected = c.flag("connected")
    seen = {}

    def get(url, **k):
        seen.update(k)
        if not connected:
            raise OSError("no connection")
        return Resp()

    def handler(r):
        st.handled = st.handled + 1
        if c.flag("handler fails"):
            raise HandlerError()
    cfg = Obj(nodeinfo={"uuid": "me", "primary-uuid": known, "master-uuid": known},
              get_primary_uuid=lambda: known, set_primary_uuid=lambda u: st.stored.append(u),
              args=Obj(outside_url="http://x"))
    c.patch(m, "make_uuid_headers", lambda nodeinfo: ("me", "" if known is None else known))
    fake_os = Obj(_exit=_exit)
    c.patch(m, "os", fake_os)
    t = c.blank(m.ReplicaThread, xom=Obj(config=cfg), log=NullLog(), session=Obj(get=get),
                thread=Obj(sleep=lambda *a: None), primary_auth=None, use_streaming=c.flag("streaming"),
                initial_fetch=False, primary_contacted_at=None, auth_serializer=Obj(dumps=lambda x: "token"),
                update_primary_serial=lambda s, **k: st.updates.append(s))
    try:
        r = c.call(t.fetch, handler, "http://primary/+changelog/1-")
    except Exit:
        r = None
    rid = remote if remote is not None else remote_old
    conflict = And(remote is not None, remote_old is not None, Not(Eq(remote, remote_old)))
    if r is None or (not r.ok and r.raised(Exit)):
        c.cover("exit")
        c.ensures("no data of a different primary is processed", st.handled == 0)
        c.ensures("the server stops only for a different primary", And(known is not None, rid is not None, Not(Eq(known, rid))))
        return
    c.ensures("no exception", r.ok, r)
    if connected:
        c.ensures("the primary is told who is asking",
                  seen.get("headers", {}).get(m.H_REPLICA_UUID) == "me")
        c.ensures("redirects are not followed", seen.get("allow_redirects") is False)
    if st.handled:
        c.cover("applied")
        c.ensures("at most one application per answer", st.handled == 1)
        c.ensures("only from a successful answer", And(connected, Eq(status, 200)))
        c.ensures("only from a primary which identifies itself", And(rid is not None, Not(Eq(rid, "")), Not(conflict)))
        c.ensures("only from the known primary", Or(known is None, Eq(known, rid)))
        c.ensures("only with a valid serial", serial_kind == "int")
    else:
        c.cover("refused")
        c.ensures("a good answer is processed",
                  Or(not connected, Not(Eq(status, 200)), rid is None, Eq(rid, "") if rid is not None else True, conflict,
                     serial_kind != "int"))
        c.ensures("a different primary is never accepted", Or(not connected, known is None, rid is None, Eq(known, rid),
                                                             conflict, Eq(rid, "") if rid is not None else True,
                                                             Not(Or(Eq(status, 200), Eq(status, 202)))))
    for u in st.stored:
        c.ensures("the primary is remembered only when unknown before", known is None)
        c.ensures("and as the one which answered", Eq(u, rid))
    for s in st.updates:
        c.ensures("the serial of the primary is the announced one", Eq(s, 7))


# ---- order of file downloads ----

@contract("S07", [R + "IndexType.__lt__", R + "IndexType.__eq__"], cross=300)
def index_type_order(c):
    """a strict total order: other types, then mirrors, then deleted indexes"""
    import devpi_server.replica as m
    a, b, d = [m.IndexType(c.opt("n" + n, lambda n: c.str(n, ["mirror", "stage", "a", "z"]))) for n in "abd"]
    lt = {}
    for x in (a, b, d):
        for y in (a, b, d):
            r = c.call(lambda: x < y)
            c.ensures("comparable", r.ok, r)
            lt[id(x), id(y)] = r.value
    eq = c.call(lambda: a == b)
    c.ensures("exactly one of <, ==, >", And(Or(lt[id(a), id(b)], lt[id(b), id(a)], eq.value),
                                             Not(And(lt[id(a), id(b)], lt[id(b), id(a)])),
                                             Not(And(lt[id(a), id(b)], eq.value))))
    c.ensures("transitive", Implies(And(lt[id(a), id(b)], lt[id(b), id(d)]), lt[id(a), id(d)]))
    c.ensures("deleted indexes come last", Implies(And(a._index_type is None, Not(eq.value)), lt[id(b), id(a)]))
    if a._index_type is not None and b._index_type is not None:
        c.ensures("mirrors come after other indexes",
                  Implies(And(Eq(a._index_type, "mirror"), Not(Eq(b._index_type, "mirror"))), lt[id(b), id(a)]))


# ---- real stores: a primary's changelog applied to a replica's store ----

@contract("S07", [K + "KeyFS.import_changes", R + "ReplicaThread.handler_multi", R + "ReplicaThread.handler_single",
                  R + "ReadableIterabel.readinto", "devpi_server.keyfs_sqlite:BaseConnection.get_raw_changelog_entry"],
          mode="concrete", cross=60, params=["stream", "batch", "single"], strict=True)
def apply_history(c):
    """a random history sent in arbitrary pieces, with repeated, skipped and truncated
    transmissions: the replica ends with exactly a prefix of the primary's history"""
    import devpi_server.replica as m
    from devpi_common.types import cached_property  # noqa: F401
    from contracts import c_store
    from devpi_server.fileutil import dumps, loads
    real.warm()
    with real.scratch() as d1, real.scratch() as d2:
        kind = c.pick("storage", ["sqlite", "sqlite_db_files"])
        pk = real.mk_keyfs(d1, kind)
        rk = real.mk_keyfs(d2, kind)
        c_store.mkkeys(pk)
        c_store.mkkeys(rk)
        model = c_store.Model()
        for i in range(c.int("ntx", 1, 6)):
            c_store.run_tx(c, pk, model, i)
        imported = []
        rk.subscribe_on_import(lambda serial, changes: imported.append((serial, rk.tx.at_serial)))
        newest = model.serial
        t = c.blank(m.ReplicaThread, xom=Obj(keyfs=rk), log=NullLog(), update_primary_serial=lambda *a, **k: None)

        def raw(s):
            with pk.get_connection() as conn:
                return conn.get_raw_changelog_entry(s)

        def state(s):
            with rk.get_connection() as conn:
                return conn.db_read_last_changelog_serial()
        done = -1
        for rnd in range(c.int("rounds", 1, 5)):
            if newest < 0:
                break
            start = c.pick("start", [done + 1, done + 1, done + 1, max(done, 0), done + 2, 0])
            end = c.int("end", -1, 6)
            serials = list(range(start, min(end, newest) + 1))
            if c.param == "single":
                serials = serials[:1]
            cut = c.pick("cut", [False, False, True])
            err = None
            try:
                if c.param == "single":
                    for s in serials:
                        body = raw(s)
                        t.handler_single(Obj(content=body[:-1] if cut else body), s)
                elif c.param == "batch":
                    body = dumps([(s, loads(raw(s))[0]) for s in serials])
                    t.handler_multi(Obj(headers={"content-type": "application/octet-stream"},
                                        content=body[:len(body) // 2] if cut else body))
                else:
                    body = b"".join(dumps(s) + raw(s) for s in serials)
                    if cut:
                        body = body[:c.int("cutat", 0, 400)]
                    n = c.pick("chunk", [1, 2, 7, 100, 5000])
                    chunks = [body[i:i + n] for i in range(0, len(body), n)]
                    t.handler_multi(Obj(headers={"content-type": m.REPLICA_CONTENT_TYPE}, close=lambda: None,
                                        iter_content=lambda chunk_size=None: iter(chunks)))
            except Exception as e:      # noqa: BLE001
                err = e
            now = state(rk)
            ok = serials and serials[0] == done + 1
            if not serials or not ok:
                c.ensures("sets which are not next change nothing", now == done, (now, done, serials))
                if serials and not (cut and c.param == "batch"):
                    c.ensures("and are refused", err is not None or cut, (serials, done))
            else:
                c.ensures("only transmitted sets are applied, in order", done <= now <= serials[-1], (now, done, serials))
                if not cut:
                    c.ensures("all transmitted sets are applied", now == serials[-1] and err is None, (err, now, serials))
            done = now
            c.ensures("subscribers see every set once, in order, after it was applied",
                      imported == [(s, s) for s in range(done + 1)], imported)
        m2 = c_store.Model()
        m2.states = model.states[:done + 1]
        m2.writes = model.writes[:done + 1]
        c_store.check_all(c, rk, m2)
        # exactly the same bytes, so that a replica could serve as primary
        for s in range(done + 1):
            with rk.get_connection() as conn:
                a, b = loads(conn.get_raw_changelog_entry(s))[0], loads(raw(s))[0]
            c.ensures("the change sets are equal", a == b, (a, b))


# ---- a real primary and a real replica ----

@contract(["S07", "R01"], [R + "PrimaryChangelogRequest.*", R + "ReplicaThread.*", R + "FileReplicationThread.*",
                           R + "FileReplicationSharedData.*", R + "proxy_write_to_primary"],
          mode="concrete", cross=6, params=["sqlite stream", "sqlite batch", "sqlite_db_files stream"], strict=True)
def replica_history(c):
    """random operations on the primary and through the replica with interruptions of
    the connection: after catching up, state at every serial and all files are equal"""
    import webtest
    from contracts import app, c_store
    storage, streaming = c.param.split()
    with app.replica_pair(storage=storage, streaming=streaming == "stream") as p:
        pc = app.Client(p.primary)
        rc = app.Client(p.replica, webtest.TestApp(p.rapp, lint=False))
        pc.user("u")
        pc.index("u/dev", bases=[])
        rc.passwords = pc.passwords
        p.autopull()
        seen = [-1]

        def compare():
            pk, rk = p.primary.keyfs, p.replica.keyfs
            with rk.get_connection() as rconn, pk.get_connection() as pconn:
                n = rconn.last_changelog_serial
                c.ensures("the replica never has more than the primary", n <= pconn.last_changelog_serial)
                c.ensures("the replica never goes back", n >= seen[0])
                seen[0] = n
                for s in range(n + 1):
                    c.ensures("same change set at every serial",
                              c_store.plainval(rconn.get_changes(s)) == c_store.plainval(pconn.get_changes(s)), s)
        files = {}
        for step in range(c.int("steps", 3, 9)):
            op = c.pick("op", ["upload", "upload", "upload", "rupload", "rupload", "delete", "rdelete", "pull", "index", "down", "cut",
                               "rread"])
            v = c.pick("version", ["1.0", "1.1", "2.0"])
            fn = "pkg-%s.tar.gz" % v
            if op in ("upload", "rupload"):
                body = b"x" * c.int("size", 1, 300) + bytes([step])
                before = p.replica.keyfs.get_current_serial()
                r = (pc if op == "upload" else rc).upload("u/dev", "u", fn, body, "pkg", v)
                c.ensures("upload works", r.status_code == 200, (r.status, r.text[:200]))
                files[v] = body
                if op == "rupload":
                    c.ensures("a forwarded write is answered after the replica caught up",
                              p.replica.keyfs.get_current_serial() == p.primary.keyfs.get_current_serial())
                    r = rc.req("GET", "/u/dev/pkg/" + v)
                    c.ensures("own write visible on the replica", r.status_code == 200, r.status)
            elif op in ("delete", "rdelete"):
                r = (pc if op == "delete" else rc).req("DELETE", "/u/dev/pkg/" + v, "u")
                c.ensures("delete", r.status_code == (200 if v in files else 404), r.status)
                files.pop(v, None)
            elif op == "index":
                r = pc.req("PATCH", "/u/dev", "u", json=["title=%d" % step])
                c.ensures("index change", r.status_code == 200, r.status)
            elif op == "pull":
                p.pull(files=c.flag("files"))
            elif op == "rread":
                r = rc.req("GET", "/u/dev/+simple/pkg/", headers={"Accept": "text/html"})
                c.ensures("reading on the replica works", r.status_code in (200, 404), r.status)
            elif op == "down":
                p.wire.down = True
                c.ensures("no success without connection", p.changes() is False)
                p.wire.down = False
            elif op == "cut":
                n = c.int("cutat", 0, 3000)

                def tamper(method, url, resp):
                    if "+changelog" in url:
                        resp.content = resp.content[:n]
                p.wire.tamper = tamper
                p.changes()
                p.wire.tamper = None
            if c.flag("compare"):
                compare()
        p.pull()
        compare()
        c.ensures("caught up", p.replica.keyfs.get_current_serial() == p.primary.keyfs.get_current_serial())
        for v, body in files.items():
            r = rc.req("GET", "/u/dev/pkg/" + v)
            c.ensures("version on the replica", r.status_code == 200, r.status)
            links = r.json["result"]["+links"]
            href = [x["href"] for x in links if x["rel"] == "releasefile"]
            c.ensures("one file", len(href) == 1, href)
            n = len(p.wire.log)
            r = rc.req("GET", href[0].replace("http://localhost", ""), headers={"Accept": "*/*"})
            c.ensures("same content", r.status_code == 200 and r.body == body, (r.status, len(r.body)))
            c.ensures("from the replica's own store", not [x for x in p.wire.log[n:] if "/+f/" in x[1]])
        r = rc.req("GET", "/u/dev/pkg")
        c.ensures("exactly the remaining versions",
                  (sorted(r.json["result"]) if r.status_code == 200 else []) == sorted(files), (r.status, files))


@contract("S07", [K + "KeyFS.wait_tx_serial", "devpi_server.keyfs_sqlite:BaseConnection.db_read_last_changelog_serial"],
          mode="concrete", cross=12, strict=True)
def wait_real(c):
    """on the real store: waiting succeeds exactly for committed serials, also when the
    commit comes from another thread or another process while waiting"""
    import threading
    import time
    from contracts import c_store
    with real.scratch() as d:
        kf = real.mk_keyfs(d)
        kf2 = real.mk_keyfs(d)          # as another process would open it
        for k in (kf, kf2):
            c_store.mkkeys(k)
        n = -1

        def commit(k):
            with k.write_transaction():
                k.get_key("SKEY").set({"n": time.time()})
        for i in range(c.int("ntx", 0, 4)):
            commit(c.pick("which", [kf, kf2]))
            n += 1
            for s in range(n + 3):
                for k in (kf, kf2):
                    c.ensures("success exactly for committed serials",
                              k.wait_tx_serial(s, timeout=0.01, recheck=0.01) is (s <= n), (s, n))
        for k in (kf, kf2):
            res = []
            target = n + c.int("ahead", 1, 2)
            t = threading.Thread(target=lambda: res.append((kf.wait_tx_serial(target, timeout=20, recheck=0.05),
                                                            kf2.get_current_serial())))
            t.start()
            while n < target:
                time.sleep(0.02)
                c.ensures("keeps waiting until the serial is committed", res == [], (res, n, target))
                commit(k)
                n += 1
            t.join()
            c.ensures("a commit elsewhere ends the waiting", res and res[0][0] is True and res[0][1] >= target, res)
