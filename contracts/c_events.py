"""change events (TxNotificationThread), import of changes, waiting (keyfs.py)"""
import os
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem, length
from pyvc.core import STATE, SymInt
from contracts import real
from contracts.mocks import Obj, CM, NullLog
import z3

K = "devpi_server.keyfs:"


class Cur:
    e = None


def fresh_int(name):
    return SymInt(z3.Int(STATE.engine.fresh(name)))


class Crash(BaseException):
    pass


# ---- TxNotificationThread.tick ----

def tick_inv(v):
    e = Cur.e
    return [("the position is the last delivered serial", And(Eq(v.event_serial, e.disk), Eq(e.delivered, e.disk))),
            ("no delivery beyond the newest serial", And(e.disk >= e.start, Or(Eq(e.disk, e.start), e.disk <= e.current)))]


def tick_havoc(v):
    e = Cur.e
    e.disk = fresh_int("disk")
    e.delivered = fresh_int("delivered")
    old = e.current
    e.current = fresh_int("current")
    STATE.engine.assume((e.current >= e.first).e)


@contract("S06", [K + "TxNotificationThread.tick"],
          loops={K + "TxNotificationThread.tick#0": LoopSpec(
              tick_inv, havoc={"event_serial": lambda v: fresh_int("event_serial")}, havoc_state=tick_havoc,
              modifies_objs=[lambda: Cur.e])},
          covers=["delivered", "idle", "interrupted", "failed"], cross=100)
def event_tick(c):
    """arbitrary position and number of commits: in order, no gap, no repetition,
    the position moves only after delivery; interruption anywhere keeps that"""
    import devpi_server.keyfs as m
    e = Cur.e = Obj()
    e.start = e.disk = c.int("position", -1, gen_hi=4)
    e.delivered = e.disk
    e.current = e.first = c.int("current", -1, gen_hi=8)
    c.assume(e.start <= e.current)

    class Interrupt(Exception):
        pass

    def get_current_serial():
        if c.native():
            return e.current
        n = c.int("now")
        c.assume(n >= e.current)
        e.current = n
        return n

    def hooks(serial, log=None, *a, **k):
        c.ensures("events are delivered in serial order without gap or repetition",
                  And(Eq(serial, e.delivered + 1), Eq(serial, e.disk + 1)))
        c.ensures("only committed serials are delivered", serial <= e.current)
        if c.flag("delivery fails"):
            raise Interrupt("hooks")
        e.delivered = serial
        c.cover("delivered")

    def write(serial):
        c.ensures("the position moves only past delivered serials", Eq(serial, e.delivered))
        if c.flag("stop before writing"):
            raise Interrupt("write")
        e.disk = serial

    def shutdown(*a):
        if c.flag("shutdown"):
            raise Interrupt("shutdown")

    def wait(serial, **k):
        c.ensures("waits for a serial not yet delivered", serial > e.disk)
        c.ensures("all committed serials were delivered", Or(e.disk >= e.current, serial <= e.current + 1))
        return True
    t = c.blank(m.TxNotificationThread, log=NullLog(), thread=Obj(exit_if_shutdown=shutdown),
                cv_new_event_serial=CM(Obj()),
                keyfs=Obj(get_current_serial=get_current_serial, wait_tx_serial=wait),
                read_event_serial=lambda: e.disk, write_event_serial=write, _execute_hooks=hooks,
                _execute_hooks_=hooks)
    t.cv_new_event_serial.notify_all = lambda: None
    t.cv_new_event_serial.notify = lambda *a: None
    r = c.call(t.tick)
    if r.ok:
        c.cover("idle")
        c.ensures("position is the last delivered serial", Eq(e.disk, e.delivered))
    else:
        c.ensures("no other failure", r.raised(Interrupt))
        c.cover("interrupted")
        c.cover("failed")
        c.ensures("an interruption leaves the position at or right before the last delivered serial",
                  Or(Eq(e.disk, e.delivered), Eq(e.disk + 1, e.delivered)))


# ---- event position on disk ----

@contract("S06", [K + "TxNotificationThread.read_event_serial", K + "TxNotificationThread.write_event_serial",
                  "devpi_server.fileutil:read_int_from_file", "devpi_server.fileutil:write_int_to_file"],
          cross=80)
def event_position(c):
    """reading returns exactly what was written (any serial); nothing written reads as -1"""
    import devpi_server.keyfs as m
    store = {}

    def read_int(path, default=0):
        return store.get(path, default)

    def write_int(val, path):
        store[path] = val
    c.patch(m, "read_int_from_file", read_int)
    c.patch(m, "write_int_to_file", write_int)
    t = c.blank(m.TxNotificationThread, event_serial_path="/x/.event_serial")
    n = c.int("serial", -1)
    r = c.call(t.read_event_serial)
    c.ensures("before the first event the position is -1", r.ok and Eq(r.value, -1), r)
    r = c.call(t.write_event_serial, n)
    c.ensures("no exception", r.ok, r)
    r = c.call(t.read_event_serial)
    c.ensures("the position read is the position written", r.ok and Eq(r.value, n), r)
    m2 = c.int("serial2", -1)
    c.call(t.write_event_serial, m2)
    r = c.call(t.read_event_serial)
    c.ensures("also when written again", r.ok and Eq(r.value, m2), r)


@contract("S06", ["devpi_server.fileutil:write_int_to_file", "devpi_server.fileutil:read_int_from_file",
                  "devpi_server.fileutil:rename", "devpi_server.fileutil:get_write_file_ensure_dir"],
          mode="concrete", cross=120)
def position_crash(c):
    """stopping at any system call while the position is written leaves the old or the new one"""
    import builtins
    import devpi_server.fileutil as m
    old = c.pick("old", [None, 0, 1, 9, 10, 99, 12345])
    new = c.pick("new", [0, 1, 10, 100, 123456])
    with real.scratch() as d:
        path = os.path.join(d, c.pick("sub", ["", "sub"]), ".event_serial")
        if old is not None:
            m.write_int_to_file(old, path)
            c.ensures("read back", m.read_int_from_file(path, 0) == old)
        stop = c.int("stop", 0, 8)
        n = [0]

        def step():
            n[0] += 1
            if n[0] > stop:
                raise Crash()

        class F:
            def __init__(self, f):
                self.f = f

            def write(self, data):
                # a partial write before the stop
                if n[0] >= stop:
                    self.f.write(data[:len(data) // 2])
                step()
                return self.f.write(data)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.f.close()

            def __getattr__(self, name):
                return getattr(self.f, name)

        def _open(p, mode="r", *a, **k):
            step()
            f = builtins.open(p, mode, *a, **k)
            return F(f) if "w" in mode or "a" in mode or "+" in mode else f

        def wrap(name):
            o = getattr(os, name)

            def w(*a, **k):
                step()
                return o(*a, **k)
            return w
        import types
        fake = types.ModuleType("os")
        fake.__dict__.update(os.__dict__)
        for name in ("replace", "rename", "remove", "unlink", "makedirs", "mkdir", "open", "write", "link"):
            fake.__dict__[name] = wrap(name)
        m.open = _open
        saved = m.os
        m.os = fake
        try:
            try:
                m.write_int_to_file(new, path)
                done = True
            except Crash:
                done = False
        finally:
            m.os = saved
            del m.open
        r = c.call(m.read_int_from_file, path, 0)
        c.ensures("the position can always be read", r.ok, r)
        c.ensures("and is the old or the new one",
                  r.value == new if done else r.value in (new, old if old is not None else 0), (r, old, new, done))


# ---- _execute_hooks ----

def files_inv(v):
    return [("no subscriber runs before all files were checked", Cur.e.ncalls == 0)]


def subs_inv(v):
    return []


def subs_havoc(v):
    Cur.e.ncalls = 1


@contract("S06", [K + "TxNotificationThread._execute_hooks"],
          loops={K + "TxNotificationThread._execute_hooks#0": LoopSpec(files_inv, modifies_objs=[lambda: Cur.e, lambda: Cur.e.calls]),
                 K + "TxNotificationThread._execute_hooks#1": LoopSpec(subs_inv, havoc_state=subs_havoc,
                                                                      modifies_objs=[lambda: Cur.e, lambda: Cur.e.calls])},
          params=[0, 1, 2], covers=["missing", "called"], cross=150)
def event_hooks(c):
    """for an arbitrary change of an arbitrary serial: all its subscribers, once, in registration order,
    with the key, value and serials of the change; nobody is called while a file is missing"""
    hooks_body(c, c.map("changes", "str", mk=lambda e: (e.str("keyname"), e.int("back"), e.val("value"))), c.param)


@contract("S06", [K + "TxNotificationThread._execute_hooks"], params=[0, 1, 2], mode="bounded", bound=2, cross=0)
def event_hooks_bounded(c):
    hooks_body(c, c.map("changes", "str", mk=lambda e: (e.str("keyname"), e.int("back"), e.val("value")), maxlen=1), c.param)


def hooks_body(c, changes, nsubs):
    import devpi_server.keyfs as m
    e = Cur.e = Obj(calls=[], ncalls=0)
    serial = c.int("serial", 0)
    conn = Obj(get_changes=lambda s: changes if Eq(s, serial) else c.stop(),
               io_file_exists=lambda p: c.flag("file exists"))

    def gki(keyname, relpath):
        return Obj(name=keyname, relpath=relpath, _name="key")

    class Entry:
        def __init__(self, key, val=None, *a):
            self.key, self.val = key, val
            self.meta = {} if c.flag("no meta") else {"x": 1}
            self.last_modified = "x" if c.flag("has content") else None
            self._storepath = "path"
            self.relpath = key.relpath
            self.user, self.index = "u", "i"
            self.project = c.pick("project", [None, "p"])

        def file_exists(self):
            return conn.io_file_exists(self._storepath)
    c.patch(m, "FileEntry", Entry)
    kf = Obj(get_connection=lambda *a, **k: CM(conn), get_key_instance=gki,
             get_current_serial=lambda: c.int("newest", 0),
             read_transaction=lambda *a, **k: CM(Obj(get=lambda key: c.pick("current", [None, {"y": 1}]))))
    subs = {}

    def mksub(name, i):
        def sub(ev):
            x = changes.get(ev.typedkey.relpath) if not isinstance(changes, dict) else changes[ev.typedkey.relpath]
            ok = mem(ev.typedkey.relpath, changes)
            c.ensures("subscribers are called for changed keys", ok)
            x = changes[ev.typedkey.relpath]
            c.ensures("with key, value and serials of the change",
                      And(Eq(ev.typedkey.name, x[0]), Eq(ev.value, x[2]), Eq(ev.at_serial, serial), Eq(ev.back_serial, x[1])))
            c.ensures("only subscribers of that kind of key", Eq(name, x[0]))
            e.calls.append((name, i))
            e.ncalls = e.ncalls + 1
            c.cover("called")
            if c.flag("subscriber fails"):
                raise ValueError("subscriber")
        return sub
    for name in ("A", "STAGEFILE"):
        subs[name] = [mksub(name, i) for i in range(nsubs)]
    t = c.blank(m.TxNotificationThread, keyfs=kf, _on_key_change=subs, log=NullLog(),
                get_ixconfig=lambda entry, s: c.pick("ixconfig", [None, {"type": "stage"}, {"type": "mirror"},
                                                                  {"type": "mirror", "mirror_use_external_urls": True}]))
    if c.proof:
        c.cover("called")
    r = c.call(t._execute_hooks, serial, NullLog())
    if not r.ok:
        c.cover("missing")
        c.ensures("only a missing file stops the delivery", r.raised(m.MissingFileException))
        c.ensures("then no subscriber was called", e.ncalls == 0 or e.calls == [])
        return
    if c.proof:
        return
    want = []
    for relpath in changes:
        for n in ("A", "STAGEFILE"):
            if Eq(changes[relpath][0], n):
                want += [(n, i) for i in range(nsubs)]
    c.ensures("every subscriber of every changed key is called exactly once, in order", e.calls == want, (e.calls, want))


# ---- the real notifier on the real store ----

@contract("S06", [K + "TxNotificationThread.*", K + "KeyFS.wait_tx_serial", K + "KeyFS.get_current_serial",
                  K + "KeyChangeEvent.__init__"], mode="concrete", cross=40)
def notifier_history(c):
    """random commits, failing subscribers, missing files and restarts: every subscriber
    sees every change of its key exactly once, in serial order, with the committed value"""
    import devpi_server.keyfs as m
    from contracts import c_store
    real.warm()

    class Stop(Exception):
        pass

    with real.scratch() as d:
        kind = c.pick("storage", ["sqlite", "sqlite_db_files"])
        delivered = []
        missing = set()     # relpaths of file entries whose file is reported missing
        log = []

        def open_kf():
            kf = real.mk_keyfs(d, kind)
            P = kf.add_key("PKEY", "p/{n}", dict)
            S = kf.add_key("SKEY", "single", dict)
            kf.add_key("STAGEFILE", "{user}/{index}/+f/{hashdir_a}/{hashdir_b}/{filename}", dict)
            kf.add_key("USER", "{user}/.config", dict)
            t = kf.notifier
            t.log = NullLog()

            def sub(name, fail):
                def s(ev):
                    with kf.get_connection() as conn:
                        c.ensures("only committed serials", ev.at_serial <= conn.last_changelog_serial)
                    delivered.append((name, ev.typedkey.relpath, ev.at_serial, c_store.plainval(ev.value), ev.back_serial))
                    if fail():
                        log.append("fail")
                        raise ValueError("subscriber")
                return s
            t.on_key_change(P, sub("P0", lambda: c.pick("fail", [False, False, True])))
            t.on_key_change("PKEY", sub("P1", lambda: False))
            t.on_key_change(S, sub("S0", lambda: c.pick("fail", [False, True])))
            t.on_key_change("STAGEFILE", sub("F0", lambda: False))
            t.thread = Obj(exit_if_shutdown=lambda *a: None, sleep=lambda *a: None)
            kf.orig_wait = kf.wait_tx_serial

            def waits(serial, **k):
                c.ensures("waits only when everything was delivered",
                          t.read_event_serial() >= kf.get_current_serial())
                raise Stop()
            kf.wait_tx_serial = waits
            orig_conn = kf.get_connection

            class Conn:
                def __init__(self, conn):
                    self.__dict__["conn"] = conn

                def io_file_exists(self, path):
                    return path not in missing

                def __getattr__(self, n):
                    return getattr(self.conn, n)

                def __enter__(self):
                    return Conn(self.conn.__enter__())

                def __exit__(self, *a):
                    return self.conn.__exit__(*a)
            kf.get_connection = lambda *a, **k: Conn(orig_conn(*a, **k))
            return kf
        kf = open_kf()
        with kf.write_transaction():
            kf.get_key("USER")(user="u").set({"indexes": {"dev": {"type": "stage"}}})
        history = [{"u/.config": ("USER", {"indexes": {"dev": {"type": "stage"}}}, -1)}]
        state = {"u/.config": history[0]["u/.config"][1]}
        last = {"u/.config": 0}
        entries = {}

        def commit():
            w = {}
            with kf.write_transaction():
                for i in range(c.int("nkeys", 1, 3)):
                    which = c.pick("which", ["p", "p", "s", "f"])
                    if which == "p":
                        k = kf.get_key("PKEY")(n=c.pick("n", ["a", "b", "c"]))
                    elif which == "s":
                        k = kf.get_key("SKEY")
                    else:
                        k = kf.get_key("STAGEFILE")(user="u", index="dev", hashdir_a="aa", hashdir_b="bb",
                                                    filename=c.pick("fn", ["x", "y"]))
                    if c.pick("del", [False, False, True]) and k.relpath in state:
                        k.delete()
                        w[k.relpath] = (k.name, None)
                    else:
                        v = {"last_modified": "now", "v": c.int("v", 0, 999)}
                        k.set(v)
                        w[k.relpath] = (k.name, v)
            rec = {}
            for rp, (name, v) in w.items():
                if state.get(rp) == v:
                    continue
                rec[rp] = (name, v, last.get(rp, -1))
            if not rec:
                return
            for rp, (name, v, _) in rec.items():
                if v is None:
                    state.pop(rp, None)
                else:
                    state[rp] = v
                last[rp] = len(history)
            history.append(rec)
            for rp, (name, v, _) in rec.items():
                if name == "STAGEFILE" and v is not None and c.pick("missing", [False, False, True]):
                    missing.add("+files/" + rp)
        restarted = [0]
        for step in range(c.int("steps", 2, 8)):
            op = c.pick("op", ["commit", "commit", "commit", "tick", "restart", "arrive", "crash"])
            if op == "commit":
                commit()
            elif op == "arrive":
                missing.clear()
            elif op == "restart":
                kf = open_kf()
            elif op == "crash":
                # stop right before the position is written once
                t = kf.notifier

                def crash(serial):
                    raise Stop()
                t.write_event_serial = crash
                before = len(delivered)
                pos = t.read_event_serial()
                try:
                    t.tick()
                except (Stop, m.MissingFileException):
                    pass
                c.ensures("nothing behind the serial whose position was not written is delivered",
                          all(x[2] == pos + 1 for x in delivered[before:]), (pos, delivered[before:]))
                del delivered[before:]       # delivered again after the restart
                kf = open_kf()
            else:
                try:
                    kf.notifier.tick()
                except (Stop, m.MissingFileException):
                    pass
        missing.clear()
        try:
            kf.notifier.tick()
        except Stop:
            pass
        c.ensures("the position is the newest serial", kf.notifier.read_event_serial() == len(history) - 1)
        want = []
        names = {"PKEY": ["P0", "P1"], "SKEY": ["S0"], "STAGEFILE": ["F0"]}
        for serial, rec in enumerate(history):
            want.append((serial, sorted((s, rp, serial, repr(v), b) for rp, (name, v, b) in rec.items()
                                        for s in names.get(name, []))))
        order = [x[2] for x in delivered]
        c.ensures("deliveries are in serial order", order == sorted(order), order)
        got = [(serial, sorted((x[0], x[1], x[2], repr(x[3]), x[4]) for x in delivered if x[2] == serial))
               for serial in range(len(history))]
        c.ensures("every subscriber sees every change of its keys exactly once", got == want, (got, want))
        for serial in range(len(history)):
            seq = [(x[1], x[0]) for x in delivered if x[2] == serial and x[0].startswith("P")]
            c.ensures("subscribers of a key are called in registration order",
                      seq[::2] == [(rp, "P0") for rp, _ in seq[::2]] and
                      [rp for rp, n in seq[::2]] == [rp for rp, n in seq[1::2]], seq)


@contract("S06", [K + "TxNotificationThread.thread_run"], mode="concrete", cross=20)
def notifier_run(c):
    """the thread survives failures of a tick and only ends on shutdown"""
    import devpi_server.keyfs as m
    from devpi_server import mythread
    n = [0]
    plan = [c.pick("tick", ["ok", "missing", "error"]) for i in range(c.int("n", 0, 5))]

    def tick():
        n[0] += 1
        if n[0] > len(plan):
            raise mythread.Shutdown()
        what = plan[n[0] - 1]
        if what == "missing":
            raise m.MissingFileException("x", 1)
        if what == "error":
            raise ValueError("x")
    t = c.blank(m.TxNotificationThread, tick=tick, thread=Obj(sleep=lambda *a: None, exit_if_shutdown=lambda: None))
    c.patch(m, "thread_push_log", lambda *a: NullLog())
    r = c.call(t.thread_run)
    c.ensures("only a shutdown ends the thread", r.raised(mythread.Shutdown) and n[0] == len(plan) + 1, (r, n))
