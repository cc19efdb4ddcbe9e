"""Transaction contracts (keyfs.py, keyfs_types.py)"""
import z3
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, mem, LoopSpec, STATE
from pyvc.core import SymVal, SymBool, SymInt, U, SymStr, uf
from pyvc.sym import Coder, SymMap, SymSet, KeySource, zsort, wrap, unwrap
from contracts.mocks import Obj, CM, NullLog


class DT:
    """the declared python type of the stored values"""


class Tagged:
    def __init__(self, tag, val):
        self.tag, self.val = tag, val


def mk_key(relpath):
    from devpi_server.keyfs_types import TypedKey
    return TypedKey(None, relpath, DT, "KEY")


def key_gen(c, name):
    return mk_key(c.str(name, ["a", "b", "c"]))


def _kwrap(e):
    return mk_key(SymStr(e))


def _kunwrap(k):
    r = getattr(k, "relpath", None)
    return unwrap("str", r) if r is not None else None


KEY = Coder("key", z3.StringSort(), _kwrap, _kunwrap, key_gen)

C_ABSENT = z3.Const("absent!", U)
C_DELETED = z3.Const("deleted!", U)
C_NONE = z3.Const("none!", U)


def markers():
    from devpi_server.markers import absent, deleted
    return absent, deleted


def _vwrap(e):
    """stored value: a real value, 'deleted' or 'absent' """
    absent, deleted = markers()
    e = z3.simplify(e)
    en = STATE.engine
    if e.eq(C_DELETED) or en.branch(e == C_DELETED):
        return deleted
    if e.eq(C_ABSENT) or en.branch(e == C_ABSENT):
        return absent
    if e.eq(C_NONE) or en.branch(e == C_NONE):
        return None
    return SymVal(e)


def _vunwrap(v):
    absent, deleted = markers()
    if v is absent:
        return C_ABSENT
    if v is deleted:
        return C_DELETED
    if v is None:
        return C_NONE
    if type(v) is SymVal:
        return v.e
    return None


def _vgen(c, name):
    absent, deleted = markers()
    if c.flag(name + "?deleted"):
        return deleted
    return c.val(name)


def _cwrap(e):
    """cached (written) value: a real value or 'deleted'; the representation
    invariant 'never absent, never None' is assumed here and enforced by
    _cunwrap for every store"""
    absent, deleted = markers()
    e = z3.simplify(e)
    en = STATE.engine
    if e.eq(C_DELETED) or en.branch(e == C_DELETED):
        return deleted
    en.assume(z3.And(e != C_ABSENT, e != C_NONE))
    return SymVal(e)


def _cunwrap(v):
    absent, deleted = markers()
    if v is deleted:
        return C_DELETED
    if type(v) is SymVal:
        return v.e
    return None


CVAL = Coder("cval", U, _cwrap, _cunwrap, _vgen)


class Env:
    """a Transaction in an arbitrary reachable state, reading an arbitrary snapshot"""

    def __init__(self, c, write=True):
        from devpi_server.keyfs import Transaction
        import devpi_server.keyfs as m
        self.c = c
        absent, deleted = markers()
        self.absent, self.deleted = absent, deleted
        c.patch(m, "ensure_deeply_readonly", lambda v: Tagged("ro", v))
        c.patch(m, "get_mutable_deepcopy", lambda v: Tagged("rw", v))
        c.patch(m, "is_deeply_readonly", lambda v: True)
        c.patch(m, "threadlog", NullLog())
        self.at_serial = c.int("at_serial", 0)
        # the committed snapshot: an arbitrary partial map relpath -> (serial, value or None)
        self.s_has = c.func("snap.has", ["str"], "bool")
        self.s_none = c.func("snap.deleted", ["str"], "bool")
        self.s_ser = c.func("snap.serial", ["str"], "int")
        val = c.func("snap.val", ["str"], "val")

        def s_val(relpath):
            v = val(relpath)
            if c.proof:
                STATE.engine.assume(real(v.e))
            return v
        self.s_val = s_val
        if c.proof:
            STATE.engine.assume(z3.Distinct(C_ABSENT, C_DELETED, C_NONE))
        self.log = []
        conn = Obj(get_relpath_at=self.get_relpath_at, close=self.close, rollback=self.rollback,
                   last_changelog_serial=self.at_serial, dirty_files={}, _name="conn")
        self.conn = conn
        self.cache = c.map("cache", KEY, CVAL)
        if c.proof:
            # representation invariant: exactly the written keys are cached
            self.dirty = SymSet("dirty", KEY, self.cache.has_)
            self.original = SymMap("orig", KEY, valfn=lambda k: self.snap(k.relpath))
        else:
            self.dirty = c.newset(list(self.cache))
            self.original = c.dict()
            for k in list(self.cache):
                if c.flag("orig?"):
                    self.original[k] = self.snap(k.relpath)
        class ReadOnly(Exception):
            pass
        self.ReadOnly = ReadOnly
        self.keyfs = Obj(ReadOnly=ReadOnly, get_connection=lambda **kw: conn, _name="keyfs")
        self.tx = c.blank(
            Transaction, keyfs=self.keyfs, commit_serial=None, write=write, conn=conn,
            at_serial=self.at_serial, _original=self.original, cache=self.cache, dirty=self.dirty,
            closed=False, doomed=False, _model=absent, _finished_listeners=[], _success_listeners=[])
        # ghost copy of the pre-state
        self.cache0 = self.cache.copy()

    def close(self):
        self.log.append("close")

    def rollback(self):
        self.log.append("rollback")

    def get_relpath_at(self, relpath, serial):
        assert serial is self.at_serial or self.c.concrete and serial == self.at_serial
        if not self.s_has(relpath):
            raise KeyError(relpath)
        if self.s_none(relpath):
            return (self.s_ser(relpath), -1, None)
        return (self.s_ser(relpath), -1, self.s_val(relpath))

    def snap(self, relpath):
        """specification of the value and serial at the start of the transaction"""
        if not self.s_has(relpath):
            return (-1, self.absent)
        if self.s_none(relpath):
            return (self.s_ser(relpath), self.deleted)
        return (self.s_ser(relpath), self.s_val(relpath))

    def view(self, k):
        """what the transaction must show for key k in its pre-state"""
        if k in self.cache0:
            return self.cache0[k]
        return self.snap(k.relpath)[1]

    def missing(self, v):
        return v is self.absent or v is self.deleted


def real(e):
    return z3.And(e != C_ABSENT, e != C_DELETED, e != C_NONE)


def real_val(c, name):
    """an ordinary value (not one of the markers)"""
    v = c.val(name)
    if c.proof:
        STATE.engine.assume(real(v.e))
    return v


OPS = ["get", "get rw", "exists", "set", "set None", "delete", "is_dirty", "get_original"]


@contract("S02", ["devpi_server.keyfs:Transaction.get", "devpi_server.keyfs:Transaction.set",
                  "devpi_server.keyfs:Transaction.delete", "devpi_server.keyfs:Transaction.exists",
                  "devpi_server.keyfs:Transaction.is_dirty", "devpi_server.keyfs:Transaction.get_original",
                  "devpi_server.keyfs:Transaction.get_last_serial_and_value_at"],
          params=OPS, cross=60, covers=["ran"])
def tx_ops(c):
    e = Env(c)
    T = e.tx
    k = mk_key(c.str("k", ["a", "b", "c", "d"]))
    q = mk_key(c.str("q", ["a", "b", "c", "d"]))
    before = e.view(k)
    newval = real_val(c, "newval")
    op = c.param
    if op == "get":
        r = c.call(T.get, k)
    elif op == "get rw":
        r = c.call(T.get, k, readonly=False)
    elif op == "exists":
        r = c.call(T.exists, k)
    elif op == "set":
        r = c.call(T.set, k, newval)
    elif op == "set None":
        r = c.call(T.set, k, None)
    elif op == "delete":
        r = c.call(T.delete, k)
    elif op == "is_dirty":
        r = c.call(T.is_dirty, k)
    else:
        r = c.call(T.get_original, k)
    c.cover("ran")
    if op == "set None":
        c.ensures("None is not a storable value", not r.ok)
    else:
        c.ensures("no exception", r.ok, r)
    if op in ("get", "get rw"):
        c.ensures("reading hands out protected values only",
                  isinstance(r.value, Tagged) and r.value.tag == ("ro" if op == "get" else "rw"))
        if e.missing(before):
            c.ensures("a missing key reads as an empty instance", isinstance(r.value.val, DT))
        else:
            c.ensures("a read sees own writes first, the snapshot otherwise", Eq(r.value.val, before))
    elif op == "exists":
        c.ensures("exists agrees with reading", Iff(r.value, not e.missing(before)))
    elif op == "is_dirty":
        c.ensures("dirty means written", Iff(r.value, k in e.cache0))
    elif op == "get_original":
        s = e.snap(k.relpath)
        c.ensures("the original ignores own writes", And(Eq(r.value[0], s[0]), Eq(r.value[1], s[1])))
    # observe any key q afterwards through the same interface
    want = e.view(q)
    wdirty = q in e.cache0
    if op in ("set", "delete") and bool(q == k):
        want = newval if op == "set" else e.deleted
        wdirty = True
    r2 = c.call(T.exists, q)
    c.ensures("after the operation every key exists iff expected", r2.ok and Iff(r2.value, not e.missing(want)))
    r3 = c.call(T.get, q)
    c.ensures("after the operation every key reads as expected",
              r3.ok and (isinstance(r3.value.val, DT) if e.missing(want) else Eq(r3.value.val, want)))
    r4 = c.call(T.is_dirty, q)
    c.ensures("only written keys are marked", r4.ok and Iff(r4.value, wdirty))
    r5 = c.call(T.get_original, q)
    s = e.snap(q.relpath)
    c.ensures("the snapshot never changes", r5.ok and And(Eq(r5.value[0], s[0]), Eq(r5.value[1], s[1])))
    c.ensures("nothing is written or closed before the end", not e.log)


@contract("S02", ["devpi_server.keyfs:Transaction.set", "devpi_server.keyfs:Transaction.delete"], cross=40)
def tx_readonly(c):
    e = Env(c, write=False)
    k = mk_key(c.str("k", ["a", "b", "c"]))
    q = mk_key(c.str("q", ["a", "b", "c"]))
    before = e.view(q)
    if c.flag("set"):
        r = c.call(e.tx.set, k, c.val("v"))
    else:
        r = c.call(e.tx.delete, k)
    c.ensures("read transactions refuse writes", r.raised(e.ReadOnly))
    r2 = c.call(e.tx.exists, q)
    c.ensures("and nothing changes", r2.ok and Iff(r2.value, not e.missing(before)))


class RecordList:
    """list of commit records, unbounded: keyed by the typed key (z3 arrays).

    Stands for the local list of Transaction.commit in its loop contract; a
    second record for one key or a record of an unexpected shape ends the
    path as undecided."""
    n = 0

    def __init__(self, name, fn, has=None, val=None, back=None):
        S, I = z3.StringSort(), z3.IntSort()
        self.has = has if has is not None else z3.Const(name + ".has", z3.ArraySort(S, z3.BoolSort()))
        self.val = val if val is not None else z3.Const(name + ".val", z3.ArraySort(S, U))
        self.back = back if back is not None else z3.Const(name + ".back", z3.ArraySort(S, I))
        self.fn = fn

    def append(self, rec):
        k, val, back = rec[0], rec[1], rec[2]
        e = _kunwrap(k)
        v, b = _vunwrap(val), unwrap("int", back)
        self.has = z3.Store(self.has, e, True)
        self.val = z3.Store(self.val, e, v)
        self.back = z3.Store(self.back, e, b)

    def __bool__(self):
        return STATE.engine.branch(self.has != z3.K(z3.StringSort(), False))

    def vc_source(self):
        return KeySource(KEY, self.has, lambda k: (
            k, _vwrap(self.val[k.relpath.e]), wrap("int", self.back[k.relpath.e]), None))


class Cur:
    """the environment of the running contract (loop contracts are module level)"""
    e = None


def rec_arrays(records):
    """normal form of the records list: RecordList, or the (empty) python list"""
    if isinstance(records, RecordList):
        return records
    r = RecordList("r", None, z3.K(z3.StringSort(), False), None, None)
    for x in records:
        r.append(x)
    return r


def snap_e(k):
    """z3 versions of the snapshot functions"""
    S = z3.StringSort()
    has = uf("snap.has", S, z3.BoolSort())(k)
    none = uf("snap.deleted", S, z3.BoolSort())(k)
    ser = uf("snap.serial", S, z3.IntSort())(k)
    val = uf("snap.val", S, U)(k)
    return (z3.If(has, ser, -1), z3.If(has, z3.If(none, C_DELETED, val), C_ABSENT))


def changed(k):
    e = Cur.e
    return z3.And(e.cache0.has_[k], e.cache0.val[k] != snap_e(k)[1])


def final(k):
    v = Cur.e.cache0.val[k]
    return z3.If(v == C_DELETED, C_NONE, v)


def collect_inv(v):
    q = Cur.e.q.e
    r = rec_arrays(v.records)
    vis = v.visited.arr[q]
    orig = v.self._original
    return [
        ("records hold exactly the visited keys that changed", r.has[q] == z3.And(vis, changed(q))),
        ("with their final value", z3.Implies(r.has[q], r.val[q] == final(q))),
        ("and the serial of the previous change", z3.Implies(r.has[q], r.back[q] == snap_e(q)[0])),
        ("cache untouched", SymBool(z3.And(v.self.cache.has_ == Cur.e.cache0.has_, v.self.cache.val == Cur.e.cache0.val))),
        ("the original values are the snapshot's", And(*[
            And(Eq(val[0], Cur.e.snap(k.relpath)[0]), Eq(val[1], Cur.e.snap(k.relpath)[1]))
            for k, val in orig.memo])),
        ("nothing has been written", not Cur.e.log),
    ]


def write_inv(v):
    q = Cur.e.q.e
    e = Cur.e
    vis = v.visited.arr[q]
    w = e.written
    return [
        ("written are exactly the visited records", w.has[q] == vis),
        ("with their value", z3.Implies(w.has[q], w.val[q] == final(q))),
        ("and previous serial", z3.Implies(w.has[q], w.back[q] == snap_e(q)[0])),
        ("open", e.log == ["begin"]),
    ]


def fresh_records(v):
    return RecordList(STATE.engine.fresh("records"), None)


def havoc_original(v):
    e = Cur.e
    v.self.__dict__["_original"] = SymMap(STATE.engine.fresh("orig"), KEY, valfn=lambda k: e.snap(k.relpath))


def havoc_written(v):
    Cur.e.written = RecordList(STATE.engine.fresh("written"), None)


@contract("S02", ["devpi_server.keyfs:Transaction.commit", "devpi_server.keyfs:Transaction._close",
                  "devpi_server.keyfs:Transaction._run_listeners"],
          loops={"devpi_server.keyfs:Transaction.commit#0": LoopSpec(
              collect_inv, havoc={"records": fresh_records}, havoc_state=havoc_original,
              modifies=["self._original", "self", "records"]),
              "devpi_server.keyfs:Transaction.commit#1": LoopSpec(
                  write_inv, havoc={}, havoc_state=havoc_written,
                  modifies_objs=[lambda: Cur.e, lambda: Cur.e.written])},
          params=["no", "begin", "record", "end", "listener", "read", "doomed"], cross=60, covers=["done"])
def tx_commit(c):
    kind = c.param if c.param in ("read", "doomed") else "write"
    e = Env(c, write=kind != "read")
    T = e.tx
    Cur.e = e
    T.doomed = kind == "doomed"
    e.q = c.str("q", ["a", "b", "c"])
    q = mk_key(e.q)
    has_files = c.flag("dirty_files")
    e.conn.dirty_files = {"x": None} if has_files else {}
    has_serial = c.flag("writer has commit_serial")
    newserial = c.int("commit_serial", 0)
    fail = c.param if kind == "write" else "no"
    e.written = RecordList("w0", None, z3.K(z3.StringSort(), False)) if c.proof else {}
    ran = []

    class Boom(Exception):
        pass

    def listener(which):
        def f():
            ran.append(which)
            if fail == "listener":
                raise Boom("listener")
        return f
    T._success_listeners.append(listener("success"))
    T._finished_listeners.append(listener("finished"))

    def record_set(typedkey, value=None, back_serial=None):
        if fail == "record":
            raise Boom("record")
        if c.proof:
            e.written.append((typedkey, value, back_serial))
        else:
            n = len(e.written)
            e.written[typedkey.relpath] = (value, back_serial)
            c.ensures("one record per key", len(e.written) == n + 1)
    writer = Obj(record_set=record_set, _absent=("commit_serial",), _name="writer")
    if has_serial:
        writer.commit_serial = newserial
    else:
        e.conn.last_changelog_serial = newserial - 1

    def enter():
        e.log.append("begin")
        if fail == "begin":
            raise Boom("begin")

    def leave(t, v, tb):
        e.log.append("end" if t is None else "abort")
        if fail == "end" and t is None:
            raise Boom("end")
        return False
    e.conn.write_transaction = lambda *a, **k: CM(writer, enter, leave)
    if c.proof:
        qe = e.q.e
        STATE.engine.assume(real(uf("snap.val", z3.StringSort(), U)(qe)))
        STATE.engine.assume(z3.And(e.cache0.val[qe] != C_ABSENT, e.cache0.val[qe] != C_NONE))
        want = SymBool(changed(qe))
    elif q in e.cache0:
        old = e.snap(e.q)
        new = e.cache0[q]
        want = Not(Eq(new, old[1]))
        want_val = None if new is e.deleted else new
    else:
        want = False
    r = c.call(T.commit)
    c.ensures("every end closes the connection, once, last",
              e.log.count("close") == 1 and e.log[-1] == "close" and T.closed is True)
    if kind != "write":
        c.cover("done")
        c.ensures("no exception", r.ok, r)
        c.ensures("read and doomed transactions write nothing", e.log == ["close"] and T.commit_serial is None)
        c.ensures("only the finish listeners run", ran == ["finished"])
        return
    if "begin" not in e.log:
        c.cover("nothing")
        c.ensures("no exception", r.ok, r)
        c.ensures("nothing to commit only if no key changed", Not(want))
        c.ensures("and no file is dirty", not has_files)
        c.ensures("no serial", T.commit_serial is None and ran == ["finished"])
        return
    if not r.ok:
        c.cover("done")
        c.ensures("failures are the environment's", r.raised(Boom))
        c.ensures("a failed commit does not count as committed", T.commit_serial is None and not ran)
        c.ensures("and was aborted", fail in ("begin", "end") or "abort" in e.log)
        return
    c.cover("done")
    c.ensures("the writer finished", e.log == ["begin", "end", "close"])
    c.ensures("failures are not hidden", fail in ("no", "listener") or fail == "record")
    if c.proof:
        w = e.written
        c.ensures("exactly the changed keys are written", Iff(SymBool(w.has[qe]), want))
        c.ensures("with their final value and previous serial",
                  SymBool(z3.Implies(w.has[qe], z3.And(w.val[qe] == final(qe), w.back[qe] == snap_e(qe)[0]))))
    else:
        rec = e.written.get(e.q)
        c.ensures("exactly the changed keys are written", Iff(rec is not None, want))
        if rec is not None:
            c.ensures("with their final value and previous serial",
                      And(Eq(rec[0], want_val), Eq(rec[1], old[0])))
    c.ensures("the commit serial is the writer's", And(Eq(r.value, newserial), Eq(T.commit_serial, newserial)))
    c.ensures("listeners run after the commit, a failing one does not matter", ran == ["success", "finished"])


@contract("S02", ["devpi_server.keyfs:Transaction.rollback", "devpi_server.keyfs:Transaction._close"], cross=60)
def tx_rollback(c):
    e = Env(c)
    has = c.flag("conn has rollback")
    boom = c.flag("rollback fails")
    if not has:
        del e.conn.__dict__["rollback"]
        e.conn._absent = ("rollback",)
    elif boom:
        def rb():
            e.log.append("rollback")
            raise ValueError("x")
        e.conn.rollback = rb
    twice = c.flag("twice")
    r = c.call(e.tx.rollback)
    c.ensures("outcome", r.ok or (has and boom and r.raised(ValueError)))
    c.ensures("a rollback writes nothing and closes the connection",
              e.log == (["rollback"] if has else []) + ["close"])
    c.ensures("closed", e.tx.closed is True and e.tx.commit_serial is None)
    if twice:
        c.call(e.tx.rollback)
        c.ensures("the connection is closed once", e.log.count("close") == 1)


# ---------------------------------------------------------------- the writer

@contract("S02", "devpi_server.keyfs_sqlite:Writer.record_set", cross=40)
def writer_record(c):
    import devpi_server.keyfs_sqlite as m
    k = mk_key(c.str("k", ["a", "b", "c"]))
    q = mk_key(c.str("q", ["a", "b", "c"]))
    before = c.map("changes", "str", mk=lambda el: ("KEY", el.int("back"), el.val("val")))
    had = q.relpath in before
    old = before[q.relpath] if had else None
    copies = {}

    def deepcopy(v):
        copies["in"] = v
        return Tagged("copy", v)
    c.patch(m, "get_mutable_deepcopy", deepcopy)
    w = c.blank(m.Writer, changes=before, conn=None, storage=None)
    val = c.val("value")
    back = c.int("back", -1)
    r = c.call(w.record_set, k, val, back)
    c.ensures("no exception", r.ok, r)
    if bool(q == k):
        t = w.changes[q.relpath]
        c.ensures("the change is recorded with name, previous serial and an independent copy of the value",
                  And(t[0] == "KEY", Eq(t[1], back), isinstance(t[2], Tagged) and t[2].tag == "copy", Eq(t[2].val, val)))
    else:
        c.ensures("other records are unchanged", Iff(q.relpath in w.changes, had))
        if had:
            t = w.changes[q.relpath]
            c.ensures("other records keep their content", And(Eq(t[1], old[1]), Eq(t[2], old[2])))


class DataMap:
    """abstraction of the local list `data` in Writer.commit"""

    def __init__(self, name, has=None, ser=None):
        S = z3.StringSort()
        self.has = has if has is not None else z3.Const(name + ".has", z3.ArraySort(S, z3.BoolSort()))
        self.ser = ser if ser is not None else z3.Const(name + ".ser", z3.ArraySort(S, z3.IntSort()))
        self.names = True

    def append(self, rec):
        relpath, keyname, serial = rec
        e = unwrap("str", relpath)
        self.has = z3.Store(self.has, e, True)
        self.ser = z3.Store(self.ser, e, unwrap("int", serial))
        self.names = And(self.names, Eq(keyname, "KEY"))


def as_data(x):
    if isinstance(x, DataMap):
        return x
    d = DataMap("d", z3.K(z3.StringSort(), False))
    for r in x:
        d.append(r)
    return d


def back_spec(k):
    """recorded previous serial, or the store's, or -1"""
    e = Cur.e
    S = z3.StringSort()
    return z3.If(uf("given", S, z3.BoolSort())(k), uf("givenback", S, z3.IntSort())(k),
                 z3.If(uf("kv.has", S, z3.BoolSort())(k), uf("kv.serial", S, z3.IntSort())(k), -1))


def commit_inv(v):
    e = Cur.e
    q = e.q.e
    d = as_data(v.data)
    vis = v.visited.arr[q]
    out = [
        ("the key table gets exactly the visited paths", d.has[q] == vis),
        ("with the new serial", z3.Implies(d.has[q], d.ser[q] == v.commit_serial.e)),
        ("and their key name", d.names),
        ("the set of changes stays", SymBool(v.self.changes.has_ == e.has0)),
        ("nothing committed yet", e.log == []),
    ]
    # the record of every path seen so far is complete
    for mk, mv in v.self.changes.memo:
        ke = unwrap("str", mk)
        out.append(("record completed", SymBool(z3.Implies(
            z3.And(v.self.changes.has_[ke], v.visited.arr[ke]),
            to_z(And(mv[0] == "KEY", mv[1] is not None and Eq(mv[1], SymInt(back_spec(ke))),
                     Eq(mv[2], SymVal(uf("wval", z3.StringSort(), U)(ke)))))))))
    return out


def to_z(x):
    from pyvc.core import to_bool
    return to_bool(x)


def havoc_changes(v):
    e = Cur.e
    S = z3.StringSort()
    vis = v.visited

    def val(k):
        ke = k.e
        en = STATE.engine
        wv = SymVal(uf("wval", S, U)(ke))
        if en.branch(vis.arr[ke]):
            return ("KEY", SymInt(back_spec(ke)), wv)
        return e.initial(k)
    v.self.__dict__["changes"] = SymMap(STATE.engine.fresh("changes"), "str", valfn=val, has=e.has0)


@contract("S02", "devpi_server.keyfs_sqlite:Writer.commit",
          loops={"devpi_server.keyfs_sqlite:Writer.commit#0": LoopSpec(
              commit_inv, havoc={"data": lambda v: DataMap(STATE.engine.fresh("data"))},
              havoc_state=havoc_changes, modifies=["self", "self.changes", "data"])},
          cross=80, covers=["done"])
def writer_commit(c):
    import devpi_server.keyfs_sqlite as m
    e = Cur.e = Obj(log=[])
    e.q = c.str("q", ["a", "b", "c"])
    commit_serial = c.int("commit_serial", 0)
    given = c.func("given", ["str"], "bool")
    gback = c.func("givenback", ["str"], "int")
    kv_has = c.func("kv.has", ["str"], "bool")
    kv_ser = c.func("kv.serial", ["str"], "int")
    wval = c.func("wval", ["str"], "val")

    def initial(k):
        return ("KEY", gback(k) if given(k) else None, wval(k))
    e.initial = initial
    if c.proof:
        changes = SymMap("changes", "str", valfn=initial)
        e.has0 = changes.has_
    else:
        changes = c.dict()
        for k in c.set("keys", "str"):
            changes[k] = initial(k)
    had = e.q in changes

    def read_typedkey(relpath):
        if not kv_has(relpath):
            raise KeyError(relpath)
        return ("KEY", kv_ser(relpath))
    fail = c.pick("fail", [None, "keys", "renames", "entry", "files", "commit"])
    state = Obj()

    class Boom(Exception):
        pass

    def step(name, keep=None):
        def f(*a):
            if fail == name:
                raise Boom(name)
            e.log.append(name)
            if keep:
                setattr(state, keep, a)
            if name == "renames":
                return ["ren"]
            if name == "files":
                return ([], [])
        return f
    conn = Obj(db_read_typedkey=read_typedkey, db_write_typedkeys=step("keys", "keys"),
               _get_rel_renames=step("renames"), write_changelog_entry=step("entry", "entry"),
               _write_dirty_files=step("files", "files"), commit=step("commit"))
    storage = Obj(last_commit_timestamp=0)
    w = c.blank(m.Writer, changes=changes, conn=conn, storage=storage)
    r = c.call(w.commit, commit_serial)
    if fail is not None:
        c.ensures("a failure is reported and nothing is committed", r.raised(Boom) and "commit" not in e.log)
        return
    c.cover("done")
    c.ensures("no exception", r.ok, r)
    c.ensures("one changelog entry, committed once after everything is written",
              sorted(e.log) == ["commit", "entry", "files", "keys", "renames"] and
              e.log.index("entry") < e.log.index("commit") and e.log.index("keys") < e.log.index("commit"))
    c.ensures("under the commit serial", Eq(state.entry[0], commit_serial))
    c.ensures("with the file moves", state.entry[1][1] == ["ren"] and state.files[0] == ["ren"])
    ch = state.entry[1][0]
    c.ensures("the entry contains exactly the changed paths", Iff(e.q in ch, had))
    keys = state.keys[0]
    if c.proof:
        d = as_data(keys)
        c.ensures("the key table gets exactly the changed paths with the new serial",
                  And(Iff(SymBool(d.has[e.q.e]), had),
                      SymBool(z3.Implies(d.has[e.q.e], d.ser[e.q.e] == commit_serial.e)), d.names))
    else:
        mine = [x for x in keys if bool(Eq(x[0], e.q))]
        c.ensures("the key table gets exactly the changed paths with the new serial",
                  And(len(mine) == (1 if had else 0), *[And(Eq(x[2], commit_serial), x[1] == "KEY") for x in mine]))
    if had:
        t = ch[e.q]
        back = gback(e.q) if given(e.q) else (kv_ser(e.q) if kv_has(e.q) else -1)
        c.ensures("each with its value and the serial of its previous change",
                  And(t[0] == "KEY", t[1] is not None and Eq(t[1], back), Eq(t[2], wval(e.q))))


@contract("S02", ["devpi_server.keyfs_sqlite:Writer.__enter__", "devpi_server.keyfs_sqlite:Writer.__exit__",
                  "devpi_server.keyfs_sqlite:Writer.rollback"], cross=60, covers=["ok", "abort", "commit failed"])
def writer_cm(c):
    import devpi_server.keyfs_sqlite as m
    log = []

    class Boom(BaseException):
        pass
    c.patch(m, "thread_push_log", lambda *a: NullLog())
    c.patch(m, "thread_pop_log", lambda *a: log.append("pop"))
    last = c.int("last", -1)
    conn = Obj(last_changelog_serial=last, rollback=lambda: log.append("rollback"),
               _drop_dirty_files=lambda: log.append("drop"))
    storage = Obj(_notify_on_commit=lambda s: log.append(("notify", s)))
    w = c.blank(m.Writer, conn=conn, storage=storage, changes={})
    fail = c.flag("commit fails")
    boom = c.flag("body raises")

    def commit(s):
        if fail:
            raise Boom()
        log.append(("commit", s))
    w.__dict__["commit"] = commit
    seen = []

    def go():
        with w as ww:
            seen.append(getattr(ww, "commit_serial", None))
            if boom:
                raise Boom()
    r = None
    try:
        go()
        ok = True
    except Boom:
        ok = False
    c.ensures("the serial is the next one", len(seen) == 1 and Eq(seen[0], last + 1))
    commits = [x for x in log if isinstance(x, tuple) and x[0] == "commit"]
    notes = [x for x in log if isinstance(x, tuple) and x[0] == "notify"]
    if boom or fail:
        c.cover("abort" if boom else "commit failed")
        c.ensures("failures are reported", not ok)
        c.ensures("nothing is committed or announced", not commits and not notes)
        c.ensures("database and files are rolled back", "rollback" in log and "drop" in log)
    else:
        c.cover("ok")
        c.ensures("committed once under that serial", ok and len(commits) == 1 and Eq(commits[0][1], last + 1))
        c.ensures("announced after the commit", len(notes) == 1 and Eq(notes[0][1], last + 1) and
                  log.index(commits[0]) < log.index(notes[0]))
        c.ensures("not rolled back", "rollback" not in log)


# ----------------------------------------------------- transaction scopes

class TL:
    """thread local storage"""


@contract("S02", ["devpi_server.keyfs:KeyFS._transaction", "devpi_server.keyfs:KeyFS.write_transaction",
                  "devpi_server.keyfs:KeyFS.read_transaction", "devpi_server.keyfs:KeyFS.begin_transaction_in_thread",
                  "devpi_server.keyfs:KeyFS.commit_transaction_in_thread",
                  "devpi_server.keyfs:KeyFS.rollback_transaction_in_thread", "devpi_server.keyfs:KeyFS.clear_transaction"],
          params=["write", "read"], cross=100, covers=["own", "nested"])
def tx_scopes(c):
    import devpi_server.keyfs as m
    log = []

    class Boom(BaseException):
        pass
    c.patch(m, "thread_push_log", lambda *a: NullLog())
    c.patch(m, "thread_pop_log", lambda *a: None)
    c.patch(m, "thread_change_log_prefix", lambda *a: None)
    current = c.int("current", 0)
    tl = TL()
    endfail = c.flag("end fails")

    class Tx:
        def __init__(self, keyfs, at_serial=None, write=False):
            self.write, self.at_serial = write, at_serial if at_serial is not None else current
            log.append("begin")

        def commit(self):
            log.append("commit")
            if endfail:
                raise Boom()

        def rollback(self):
            log.append("rollback")
            if endfail:
                raise Boom()

        def restart(self, write=False):
            log.append("restart")
            self.write = write
    c.patch(m, "Transaction", Tx)
    readonly = c.flag("readonly")
    kf = c.blank(m.KeyFS, _threadlocal=tl, _readonly=readonly)
    nested = c.pick("nested", [None, "read", "write"])
    outer = None
    if nested:
        outer = Tx(kf, c.int("outer serial", 0), nested == "write")
        c.assume(not (readonly and nested == "write"))
        tl.tx = outer
        del log[:]
    body = c.flag("body raises")
    inside = []

    def go():
        if c.param == "write":
            cm = kf.write_transaction(allow_restart=restart)
        else:
            cm = kf.read_transaction(at_serial=at, allow_reuse=reuse)
        with cm as tx:
            inside.append(tx)
            if body:
                raise Boom()
    restart = c.flag("allow_restart") if c.param == "write" else False
    at = c.opt("at", lambda n: c.int(n, 0)) if c.param == "read" else None
    reuse = c.flag("allow_reuse") if c.param == "read" else False
    err = None
    try:
        go()
    except (Boom, RuntimeError, m.KeyFS.ReadOnly, AssertionError) as ex:
        err = ex
    if not nested:
        c.cover("own")
        if c.param == "write" and readonly:
            c.ensures("a read only store opens no write transaction", isinstance(err, m.KeyFS.ReadOnly) and not inside)
        else:
            c.ensures("a transaction was opened", len(inside) == 1 and inside[0].write == (c.param == "write"))
            if c.param == "read":
                c.ensures("at the requested serial", Eq(inside[0].at_serial, current if at is None else at))
            c.ensures("it ends with exactly one commit, or a rollback if the body failed",
                      log == ["begin", "rollback" if body else "commit"])
            c.ensures("errors are never swallowed", (err is not None) == (body or endfail))
        c.ensures("and is gone from the thread afterwards", not hasattr(tl, "tx"))
        return
    c.cover("nested")
    c.ensures("the outer transaction stays", getattr(tl, "tx", None) is outer)
    c.ensures("the outer transaction is not ended", "commit" not in log and "rollback" not in log)
    if inside:
        c.ensures("the running transaction is used", inside[0] is outer)
        c.ensures("errors are never swallowed", (err is not None) == body)
        if c.param == "write":
            c.ensures("only write transactions write", outer.write is True and not (readonly and nested == "read"))
        else:
            c.ensures("only when reuse is allowed, at the same serial",
                      And(reuse, at is None or Eq(outer.at_serial, at)))
    else:
        c.ensures("a refusal is reported", err is not None)
        if c.param == "write":
            c.ensures("refused only for read transactions", nested == "read" and (not restart or readonly))
        else:
            c.ensures("refused only without reuse or at another serial",
                      Or(not reuse, And(at is not None, Not(Eq(outer.at_serial, at if at is not None else -1)))))


@contract("S02", ["devpi_server.keyfs:Transaction.restart"], cross=60)
def tx_restart(c):
    e = Env(c, write=c.flag("write"))
    T = e.tx
    newconn = Obj(last_changelog_serial=c.int("newest", 0), close=lambda: e.log.append("close new"), dirty_files={})
    waswrite = T.write
    fail = c.flag("open fails")
    opened = []

    class Boom(Exception):
        pass

    def get_connection(**kw):
        if fail:
            raise Boom()
        opened.append(kw)
        return newconn
    e.keyfs.get_connection = get_connection
    r = c.call(T.restart, write=True)
    if waswrite:
        c.ensures("a write transaction is never restarted", r.raised(RuntimeError) and not e.log)
        return
    c.ensures("the old snapshot is released", e.log.count("close") == 1)
    if fail:
        c.ensures("a failed restart leaves a doomed transaction", r.raised(Boom) and T.doomed is True)
        return
    c.ensures("no exception", r.ok, r)
    c.ensures("restarted for writing on the newest serial", T.write is True and Eq(T.at_serial, newconn.last_changelog_serial))
    c.ensures("with a write connection", len(opened) == 1 and opened[0].get("write") is True)
    c.ensures("usable and clean", T.closed is False and T.doomed is False)
    q = mk_key(c.str("q", ["a", "b"]))
    r2 = c.call(T.is_dirty, q)
    c.ensures("nothing written yet", r2.ok and Not(r2.value))


@contract("S02", ["devpi_server.keyfs_types:TypedKey.set", "devpi_server.keyfs_types:TypedKey.update",
                  "devpi_server.keyfs_types:TypedKey.get", "devpi_server.keyfs_types:TypedKey.delete",
                  "devpi_server.keyfs_types:TypedKey.exists", "devpi_server.keyfs_types:TypedKey.is_dirty",
                  "devpi_server.keyfs_types:TypedKey.last_serial"],
          params=["set", "update", "get", "delete", "exists", "is_dirty", "last_serial"], cross=30)
def typed_key(c):
    from devpi_server.keyfs_types import TypedKey
    log = []
    rw = {"a": 1}
    result = object()
    ser = c.int("serial", 0)
    missing = c.flag("missing")

    def last_serial(k):
        if missing:
            raise KeyError("x")
        return ser

    def get(k, readonly=True):
        log.append(("get", k, readonly))
        return result if readonly else rw
    tx = Obj(get=get, set=lambda k, v: log.append(("set", k, v)),
             delete=lambda k: log.append(("delete", k)), exists=lambda k: result, is_dirty=lambda k: result,
             last_serial=last_serial)
    k = TypedKey(Obj(tx=tx), "p/a", dict, "N")

    class Boom(Exception):
        pass
    if c.param == "set":
        v = c.pick("value", [{}, {"x": 1}, [], None, "s", 1, set()])
        r = c.call(k.set, v)
        if isinstance(v, dict):
            c.ensures("the value is written", r.ok and len(log) == 1 and log[0][0] == "set" and
                      log[0][1] is k and log[0][2] is v)
        else:
            c.ensures("values of another type are refused and nothing is written", r.raised(TypeError) and not log)
    elif c.param == "update":
        fail = c.flag("fail")

        def go():
            with k.update() as val:
                val["b"] = 2
                if fail:
                    raise Boom()
        r = c.call(go)
        c.ensures("a private copy is handed out", log[0][0] == "get" and log[0][2] is False)
        if fail:
            c.ensures("a failed update writes nothing", r.raised(Boom) and len(log) == 1)
        else:
            c.ensures("the changed copy is written", r.ok and len(log) == 2 and log[1][0] == "set" and
                      log[1][2] is rw and rw.get("b") == 2)
    elif c.param == "get":
        ro = c.flag("ro")
        r = c.call(k.get, readonly=ro)
        c.ensures("get", r.ok and r.value is (result if ro else rw) and log == [("get", k, ro)])
    elif c.param == "delete":
        r = c.call(k.delete)
        c.ensures("delete", r.ok and log == [("delete", k)])
    elif c.param == "last_serial":
        r = c.call(lambda: k.last_serial)
        c.ensures("last serial", r.ok and (r.value is None if missing else Eq(r.value, ser)))
    else:
        r = c.call(getattr(k, c.param))
        c.ensures("forwarded", r.ok and r.value is result)
