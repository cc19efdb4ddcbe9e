"""contracts for reading at a serial (keyfs.py, keyfs_sqlite.py)

Ghost history of one path: W(s) "the path was written at serial s",
back(s) the previous such serial or -1, val(s) the value written."""
import z3
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, LoopSpec, STATE, forall_int
from pyvc.core import SymInt, SymBool, uf, ie
from contracts.mocks import Obj, CM, NullLog


class Cur:
    e = None


class Hist:
    """arbitrary history of one path up to serial `last`"""

    def __init__(self, c):
        self.c = c
        self.relpath = c.str("relpath")
        if c.proof:
            B, I = z3.BoolSort(), z3.IntSort()
            self.W_ = uf("W", I, B)
            self.back_ = uf("back", I, I)
            self.last = c.int("last", -1)
            en = STATE.engine
            s, t = z3.Int("hs"), z3.Int("ht")
            en.assume(z3.ForAll([s], z3.Implies(self.W_(s), z3.And(
                s >= 0, s <= self.last.e, self.back_(s) >= -1, self.back_(s) < s,
                z3.Or(self.back_(s) == -1, self.W_(self.back_(s)))))))
            en.assume(z3.ForAll([s, t], z3.Implies(z3.And(self.W_(s), self.back_(s) < t, t < s), z3.Not(self.W_(t)))))
            en.assume(z3.Or(self.last.e == -1, self.W_(self.last.e)))
        else:
            self.ser = []
            for i in range(6):
                if c.flag("w%d" % i):
                    self.ser.append(i)
            self.last = self.ser[-1] if self.ser else -1
        self.val = c.func("histval", ["int"], "val")

    def W(self, s):
        if self.c.proof:
            return SymBool(self.W_(ie(s)))
        return Or(*[Eq(s, x) for x in self.ser])

    def back(self, s):
        if self.c.proof:
            return SymInt(self.back_(ie(s)))
        prev = -1
        for x in self.ser:
            if x == s:
                return prev
            prev = x
        return prev

    def none_between(self, a, b):
        """no write strictly above a and at most b"""
        if self.c.proof:
            t = z3.Int(STATE.engine.fresh("nb"))
            return SymBool(z3.ForAll([t], z3.Implies(z3.And(t > ie(a), t <= ie(b)), z3.Not(self.W_(t)))))
        return And(*[Not(And(x > a, x <= b)) for x in self.ser])

    def entry(self, s):
        return ("KEY", self.back(s), self.val(s))

    def get_changes(self, s):
        h = self

        class Changes:
            def get(self, relpath, default=None):
                if not h.W(s):
                    return default
                if not (relpath == h.relpath):
                    mm("changes of another path")
                return h.entry(s)

            def __getitem__(self, relpath):
                r = self.get(relpath)
                if r is None:
                    raise KeyError(relpath)
                return r

            def __contains__(self, relpath):
                return self.get(relpath) is not None
        return Changes()


def mm(x):
    from pyvc import ctx
    ctx.mock_missing(x)


def is_answer(h, serial, tup):
    """tup is the newest write at or before serial"""
    s, back, val = tup
    return And(s >= 0, s <= serial, h.W(s), h.none_between(s, serial), Eq(back, h.back(s)), Eq(val, h.val(s)))


class Chain:
    """contract of iter_serial_and_value_backwards: an iterator over the
    writes from `cur` downwards (proved in history_iterator)"""

    def __init__(self, h, start):
        self.h, self.cur = h, start

    def __iter__(self):
        return self

    def __next__(self):
        if not (self.cur >= 0):
            raise StopIteration
        s = self.cur
        if not self.h.W(s):
            raise RuntimeError("no transaction entry")
        self.cur = self.h.back(s)
        return (s, self.h.back(s), self.h.val(s))


def lookup_inv(v):
    h = Cur.e.h
    it = Cur.e.chain
    return [
        ("the candidate is a write", And(v.last_serial >= 0, h.W(v.last_serial))),
        ("with its own value", And(Eq(v.back_serial, h.back(v.last_serial)), Eq(v.val, h.val(v.last_serial)))),
        ("no newer write was skipped", h.none_between(v.last_serial, Cur.e.serial)),
        ("the iterator continues below it", Eq(it.cur, h.back(v.last_serial))),
    ]


def havoc_chain(v):
    en = STATE.engine
    Cur.e.chain.cur = SymInt(z3.Int(en.fresh("cur")))


@contract("S01", "devpi_server.keyfs:get_relpath_at",
          loops={"devpi_server.keyfs:get_relpath_at#0": LoopSpec(
              lookup_inv,
              havoc={"last_serial": lambda v: SymInt(z3.Int(STATE.engine.fresh("ls"))),
                     "back_serial": lambda v: SymInt(z3.Int(STATE.engine.fresh("bs"))),
                     "val": lambda v: Cur.e.h.val(SymInt(z3.Int(STATE.engine.fresh("vs"))))},
              havoc_state=havoc_chain, modifies_objs=[lambda: Cur.e.chain])},
          covers=["found", "absent"], cross=150)
def lookup_at(c):
    import devpi_server.keyfs as m
    h = Hist(c)
    e = Cur.e = Obj(h=h)
    e.serial = c.int("serial", -1)
    known = c.flag("path ever written")
    c.assume(Iff(known, h.last >= 0))

    def typedkey(relpath):
        if not known:
            raise KeyError(relpath)
        return ("KEY", h.last)

    def iterator(conn, relpath, last_serial):
        e.chain = Chain(h, last_serial)
        return e.chain
    conn = Obj(db_read_typedkey=typedkey, get_changes=h.get_changes)
    if c.proof:
        c.patch(m, "iter_serial_and_value_backwards", iterator)
    r = c.call(m.get_relpath_at, conn, h.relpath, e.serial)
    if r.ok:
        c.cover("found")
        c.ensures("the newest value written at or before the serial", is_answer(h, e.serial, r.value))
    else:
        c.cover("absent")
        c.ensures("absence is a KeyError", r.raised(KeyError))
        c.ensures("absent only if nothing was written at or before the serial", h.none_between(-1, e.serial))


def iter_inv(v):
    e = Cur.e
    return [("the iterator is at the expected serial", Eq(v.last_serial, e.pos)),
            ("which is a write or the end", Or(Eq(e.pos, -1), And(e.pos >= 0, e.h.W(e.pos))))]


def havoc_pos(v):
    Cur.e.pos = SymInt(z3.Int(STATE.engine.fresh("pos")))


@contract(["S01", "S06"], "devpi_server.keyfs:iter_serial_and_value_backwards",
          loops={"devpi_server.keyfs:iter_serial_and_value_backwards#0": LoopSpec(
              iter_inv,
              havoc={"last_serial": lambda v: SymInt(z3.Int(STATE.engine.fresh("ls")))},
              havoc_state=havoc_pos, modifies_objs=[lambda: Cur.e],
              variant=lambda v: v.last_serial + 1)},
          covers=["step", "end"], cross=100)
def history_iterator(c):
    import devpi_server.keyfs as m
    h = Hist(c)
    e = Cur.e = Obj(h=h)
    start = h.last
    e.pos = start

    def consume():
        for item in m.iter_serial_and_value_backwards(Obj(get_changes=h.get_changes), h.relpath, start):
            c.cover("step")
            c.ensures("each write once, newest first", And(e.pos >= 0, Eq(item[0], e.pos)))
            c.ensures("with the value written and its predecessor",
                      And(Eq(item[1], h.back(e.pos)), Eq(item[2], h.val(e.pos))))
            e.pos = h.back(e.pos)
    r = c.call(consume)
    c.ensures("no exception", r.ok, r)
    c.cover("end")
    c.ensures("ends after the first write", Eq(e.pos, -1))


class SpecCache:
    """LRU cache holding an arbitrary coherent subset of correct answers"""

    def __init__(self, e, name):
        self.e, self.name = e, name
        self.puts = []

    def get(self, key, default=None):
        c, e = self.e.c, self.e
        if isinstance(key, tuple):
            if not c.flag(self.name + " hit"):
                return default
            return e.answer(key[0], key[1])
        if not c.flag(self.name + " changes hit"):
            return default
        return e.h.get_changes(key)

    def put(self, key, val):
        self.puts.append((key, val))


@contract("S01", "devpi_server.keyfs_sqlite:BaseConnection.get_relpath_at", covers=["found"], cross=120)
def cached_lookup(c):
    import devpi_server.keyfs_sqlite as m
    h = Hist(c)
    e = Obj(h=h, c=c)
    serial = c.int("serial", 0, gen_hi=6)
    # the specified answer at `serial`
    s = c.int("answer", -1, gen_hi=6)
    c.assume(Or(s == -1, And(s <= serial, h.W(s))))
    c.assume(h.none_between(s, serial))
    asked = []

    def answer(ser, relpath):
        asked.append((ser, relpath))
        c.assume(s >= 0)
        return (s, h.back(s), h.val(s))
    e.answer = answer
    conn = c.blank(m.BaseConnection, _relpath_cache=SpecCache(e, "relpath"), _changelog_cache=SpecCache(e, "changelog"))
    used = []

    def fallback(relpath, ser):
        used.append((relpath, ser))
        if s == -1:
            raise KeyError(relpath)
        return (s, h.back(s), h.val(s))
    conn.__dict__["_get_relpath_at"] = fallback
    big = c.flag("big")
    c.patch(m, "gettotalsizeof", lambda obj, maxlen=None: None if big else 10)
    r = c.call(conn.get_relpath_at, h.relpath, serial)
    for ser, rp in asked:
        c.ensures("caches are asked for this path and serial", And(Eq(ser, serial), Eq(rp, h.relpath)))
    for rp, ser in used:
        c.ensures("the store is asked for this path and serial", And(Eq(ser, serial), Eq(rp, h.relpath)))
    puts = conn._relpath_cache.puts + conn._changelog_cache.puts
    if not r.ok:
        c.ensures("only absence fails", And(r.raised(KeyError), s == -1))
        c.ensures("absence is not cached", not puts)
        return
    c.cover("found")
    c.ensures("the newest value written at or before the serial", is_answer(h, serial, r.value))
    for k, v in puts:
        c.ensures("cache entries are the answer for their key",
                  And(isinstance(k, tuple), Eq(k[0], serial), Eq(k[1], h.relpath), v == r.value))


@contract("S01", "devpi_server.keyfs_sqlite:BaseConnection.get_changes", cross=40)
def cached_changes(c):
    import devpi_server.keyfs_sqlite as m
    serial = c.int("serial", 0)
    hit = c.flag("cached")
    cached, ro, raw = object(), object(), object()
    loaded = []
    cache = Obj(get=lambda k, d=None: (loaded.append(("get", k)), cached if hit else d)[1],
                put=lambda k, v: loaded.append(("put", k, v)))
    conn = c.blank(m.BaseConnection, _changelog_cache=cache)
    conn.__dict__["get_raw_changelog_entry"] = lambda s: (loaded.append(("raw", s)), raw)[1]
    c.patch(m, "loads", lambda d: ({"x": 1}, ["r"]) if d is raw else None)

    class RO:
        pass
    c.patch(m, "ReadonlyView", RO)
    ros = RO()
    c.patch(m, "ensure_deeply_readonly", lambda v: (loaded.append(("ro", v)), ros)[1])
    r = c.call(conn.get_changes, serial)
    c.ensures("no exception", r.ok, r)
    if hit:
        c.ensures("cached changes are returned", r.value is cached and not [x for x in loaded if x[0] == "put"])
    else:
        c.ensures("changes are read for the serial and protected before use",
                  r.value is ros and And(*[Eq(x[1], serial) for x in loaded if x[0] == "raw"]))
        puts = [x for x in loaded if x[0] == "put"]
        c.ensures("only the protected changes are cached under their serial",
                  And(*[And(x[2] is ros, Eq(x[1], serial)) for x in puts]))


@contract("S01", ["devpi_server.keyfs:Transaction.get_last_serial_and_value_at",
                  "devpi_server.keyfs:Transaction.get_value_at", "devpi_server.keyfs:Transaction.last_serial"],
          params=["tuple", "value", "last"], cross=60)
def tx_read_at(c):
    from devpi_server.keyfs import Transaction
    serial = c.int("serial", 0)
    rp = c.str("relpath")
    state = c.pick("state", ["missing", "deleted", "value"])
    ser, back, val = c.int("ser"), c.int("back"), c.val("val")
    asked = []

    def get_relpath_at(relpath, at):
        asked.append((relpath, at))
        if state == "missing":
            raise KeyError(relpath)
        return (ser, back, None if state == "deleted" else val)
    T = c.blank(Transaction, conn=Obj(get_relpath_at=get_relpath_at), at_serial=serial)
    key = Obj(relpath=rp)
    if c.param == "value":
        r = c.call(T.get_value_at, key, serial)
    elif c.param == "last":
        r = c.call(T.last_serial, key)
    else:
        roe = c.flag("raise_on_error")
        r = c.call(T.get_last_serial_and_value_at, key, serial, raise_on_error=roe)
    c.ensures("asked for that path at that serial",
              len(asked) >= 1 and And(*[And(Eq(a, rp), Eq(b, serial)) for a, b in asked]))
    if state == "value":
        want = {"value": val, "last": ser}.get(c.param)
        c.ensures("the value", r.ok and (Eq(r.value, want) if c.param != "tuple" else
                                         And(Eq(r.value[0], ser), Eq(r.value[1], val))))
    elif c.param == "tuple" and not roe:
        c.ensures("absence and deletion are told apart", r.ok and (
            r.value is None if state == "missing" else And(Eq(r.value[0], ser), r.value[1] is None)))
    else:
        c.ensures("absent and deleted keys have no value", r.raised(KeyError))


def txiter_inv(v):
    e = Cur.e
    return [("position", Eq(v.last_serial, e.pos)),
            ("write or end", Or(Eq(e.pos, -1), And(e.pos >= 0, e.h.W(e.pos))))]


@contract("S01", "devpi_server.keyfs:Transaction.iter_serial_and_value_backwards",
          loops={"devpi_server.keyfs:Transaction.iter_serial_and_value_backwards#0": LoopSpec(
              txiter_inv, havoc={"last_serial": lambda v: SymInt(z3.Int(STATE.engine.fresh("ls"))),
                                 "back_serial": lambda v: 0, "val": lambda v: 0},
              havoc_state=havoc_pos, modifies_objs=[lambda: Cur.e],
              variant=lambda v: v.last_serial + 1)}, cross=80)
def tx_history_iterator(c):
    from devpi_server.keyfs import Transaction
    h = Hist(c)
    e = Cur.e = Obj(h=h, pos=h.last)

    def get_relpath_at(relpath, at):
        if not h.W(at):
            mm("lookup away from a write")
        return (at, h.back(at), h.val(at))
    T = c.blank(Transaction, conn=Obj(get_relpath_at=get_relpath_at))

    def consume():
        for item in T.iter_serial_and_value_backwards(h.relpath, h.last):
            c.ensures("each write once, newest first, with its value",
                      And(e.pos >= 0, Eq(item[0], e.pos), Eq(item[1], h.val(e.pos))))
            e.pos = h.back(e.pos)
    r = c.call(consume)
    c.ensures("no exception", r.ok, r)
    c.ensures("ends after the first write", Eq(e.pos, -1))
