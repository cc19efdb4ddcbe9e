"""bounded stand-ins: the real keyfs on the real sqlite back ends, against a
reference history (list of committed states)"""
import copy
import threading
from pyvc.ctx import contract
from contracts import real

TARGETS = ["devpi_server.keyfs:Transaction.*", "devpi_server.keyfs:KeyFS.*",
           "devpi_server.keyfs_sqlite:BaseConnection.*", "devpi_server.keyfs_sqlite:Writer.*",
           "devpi_server.keyfs_sqlite:BaseStorage.*"]
NAMES = ["a", "b", "ab"]


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def mutate(v):
    """try to change a value obtained for reading, through everything it offers"""
    def go(x, d):
        for op in (lambda: x.update({"zz": 1}), lambda: x.append(1), lambda: x.add("zz"), lambda: x.clear(),
                   lambda: x.__setitem__("zz", 1), lambda: x.pop("x"), lambda: x.setdefault("zz", 1),
                   lambda: x.__setitem__(0, 99), lambda: x.extend([1]), lambda: x.insert(0, 1)):
            try:
                op()
            except (AttributeError, TypeError, KeyError, IndexError):
                pass
        if d > 3:
            return
        for f in ("values", "items", "keys"):
            try:
                for y in list(getattr(x, f)()):
                    go(y, d + 1)
            except (AttributeError, TypeError):
                pass
        try:
            if not isinstance(x, (str, bytes)):
                for y in list(x):
                    go(y, d + 1)
        except TypeError:
            pass
    go(v, 0)


def rw_mutate(v):
    """change a value obtained for writing in place, at depth"""
    if isinstance(v, dict):
        for k in list(v):
            rw_mutate(v[k])
        v["mutated"] = 1
    elif isinstance(v, list):
        for x in v:
            rw_mutate(x)
        v.append("mutated")


def plainval(v):
    from devpi_server.readonly import get_mutable_deepcopy
    return get_mutable_deepcopy(v)


class Model:
    """committed states by serial"""

    def __init__(self):
        self.states = []       # serial -> {relpath: value}
        self.writes = []       # serial -> {relpath: value or None}

    @property
    def serial(self):
        return len(self.states) - 1

    def state(self, s):
        return self.states[s] if s >= 0 else {}

    def commit(self, new):
        old = self.state(self.serial)
        w = {}
        for k in set(old) | set(new):
            if k not in new:
                w[k] = None
            elif k not in old or old[k] != new[k] or type(old[k]) is not type(new[k]):
                w[k] = new[k]
        self.states.append(copy.deepcopy(new))
        self.writes.append(w)

    def last_write(self, k, s):
        for x in range(s, -1, -1):
            if k in self.writes[x]:
                return x
        return -1


def mkkeys(kf):
    return kf.add_key("PKEY", "p/{n}", dict), kf.add_key("SKEY", "single", dict)


def check_all(c, kf, model, extra=()):
    """every read at every serial agrees with the reference history"""
    P = kf.get_key("PKEY")
    keys = [P(n=n) for n in NAMES] + [kf.get_key("SKEY")]
    order = list(range(model.serial, -1, -1))
    if c.flag("ascending"):
        order.reverse()
    with kf.read_transaction() as tx:
        c.ensures("a new transaction sees the newest serial", tx.at_serial == model.serial)
        for s in order:
            for k in keys:
                want = model.state(s).get(k.relpath)
                try:
                    got = plainval(tx.get_value_at(k, s))
                except KeyError:
                    got = None
                c.ensures("a read at a serial returns the value committed at or before it", got == want, (k, s, got, want))
                lw = model.last_write(k.relpath, s)
                t = tx.get_last_serial_and_value_at(k, s, raise_on_error=False)
                if lw < 0:
                    c.ensures("no value before the first commit of the key", t is None, t)
                else:
                    c.ensures("last change serial", t[0] == lw, (t, lw))
        for k in keys:
            c.ensures("exists", tx.exists(k) == (k.relpath in model.state(model.serial)))
            c.ensures("newest value", plainval(tx.get(k)) == model.state(model.serial).get(k.relpath, {}))
            lw = model.last_write(k.relpath, model.serial)
            hist = list(tx.iter_serial_and_value_backwards(k.relpath, lw))
            want = [(s, model.writes[s][k.relpath]) for s in range(lw, -1, -1) if k.relpath in model.writes[s]]
            c.ensures("history of a key", [(s, plainval(v)) for s, v in hist] == want, (hist, want))
    with kf.get_connection() as conn:
        c.ensures("current serial", conn.db_read_last_changelog_serial() == model.serial)
        for s in order:
            ch = conn.get_changes(s)
            got = {k: (plainval(v[2]), v[1]) for k, v in ch.items()}
            want = {k: (v, model.last_write(k, s - 1)) for k, v in model.writes[s].items()}
            c.ensures("a commit contains exactly the changed keys with value and previous serial",
                      got == want, (s, got, want))
    if model.serial >= 0:
        s = c.pick("at", list(range(model.serial + 1)))
        with kf.read_transaction(at_serial=s) as tx:
            for k in keys:
                c.ensures("a transaction at an old serial sees that state",
                          plainval(tx.get(k)) == model.state(s).get(k.relpath, {}))
    c.ensures("no transaction is left open", not hasattr(kf._threadlocal, "tx"))


def run_tx(c, kf, model, i):
    P = kf.get_key("PKEY")
    keys = [P(n=n) for n in NAMES] + [kf.get_key("SKEY")]
    cur = copy.deepcopy(model.state(model.serial))
    base = copy.deepcopy(cur)
    deleted = set()
    start = c.pick("start", ["write", "write", "restart"])
    end = c.pick("end", ["ok", "ok", "ok", "ok", "exc", "base", "doom"])
    dirty = False

    def body(tx):
        nonlocal dirty
        n = c.pick("nops", [0, 1, 1, 2, 3, 5])
        for j in range(n):
            k = c.pick("key", keys)
            op = c.pick("op", ["set", "set", "update", "delete", "get", "rw", "restore", "setro"])
            if op == "set":
                v = {"v": c.int("val", 0, 3), "n": real.jsonish(c, "nest")}
                want = copy.deepcopy(v)
                k.set(v)
                cur[k.relpath] = want
                dirty = True
            elif op == "setro":
                # write back a value obtained for reading from another key
                src = c.pick("src", keys)
                v = tx.get(src)
                want = copy.deepcopy(cur.get(src.relpath, {}))
                try:
                    k.set(v)
                except TypeError:
                    pass
                else:
                    cur[k.relpath] = want
            elif op == "update":
                with k.update() as d:
                    d["u"] = c.int("u", 0, 3)
                    x = copy.deepcopy(cur.get(k.relpath, {}))
                    x["u"] = d["u"]
                cur[k.relpath] = x
            elif op == "delete":
                k.delete()
                cur.pop(k.relpath, None)
            elif op == "restore":
                if k.relpath in base:
                    k.set(copy.deepcopy(base[k.relpath]))
                    cur[k.relpath] = copy.deepcopy(base[k.relpath])
            elif op == "get":
                mutate(k.get())
            elif op == "rw":
                rw_mutate(k.get(readonly=False))
            q = c.pick("observe", keys)
            c.ensures("own writes are seen", plainval(q.get()) == cur.get(q.relpath, {}), (q, q.get(), cur))
            c.ensures("own writes decide existence", q.exists() == (q.relpath in cur))
            o = tx.get_original(q)
            c.ensures("the snapshot is unchanged",
                      (plainval(o[1]) == base[q.relpath]) if q.relpath in base else not isinstance(o[1], dict), o)
            if c.flag("look outside"):
                seen = {}

                def other():
                    with kf.read_transaction() as t2:
                        seen["serial"] = t2.at_serial
                        for k2 in keys:
                            seen[k2.relpath] = plainval(t2.get(k2))
                th = threading.Thread(target=other)
                th.start()
                th.join()
                c.ensures("nothing is visible outside before the commit",
                          seen.get("serial") == model.serial and
                          all(seen.get(k2.relpath) == base.get(k2.relpath, {}) for k2 in keys))
        if end == "exc":
            raise Boom()
        if end == "base":
            raise BoomBase()
        if end == "doom":
            tx.doom()
    fired = []
    try:
        if start == "restart":
            with kf.read_transaction() as tx:
                for k in keys:
                    c.ensures("read transactions see the newest state", plainval(k.get()) == base.get(k.relpath, {}))
                try:
                    keys[0].set({"x": 1})
                except kf.ReadOnly:
                    pass
                else:
                    c.ensures("read transactions refuse writes", False)
                kf.restart_as_write_transaction()
                kf.tx.on_commit_success(lambda: fired.append(1))
                body(kf.tx)
        else:
            with kf.write_transaction() as tx:
                tx.on_commit_success(lambda: fired.append(1))
                body(tx)
    except (Boom, BoomBase):
        c.ensures("exceptions come from the body", end in ("exc", "base"))
    else:
        c.ensures("exceptions are not swallowed", end not in ("exc", "base"))
    c.ensures("the transaction is gone afterwards", not hasattr(kf._threadlocal, "tx"))
    committed = end == "ok"
    with kf.get_connection() as conn:
        serial = conn.db_read_last_changelog_serial()
    before = model.serial
    if not committed:
        c.ensures("a failed transaction writes nothing", serial == before)
        c.ensures("and reports no success", not fired)
        return
    if cur == base:
        # deleting a missing key may or may not be recorded
        c.ensures("at most one serial", serial in (before, before + 1))
        if serial == before + 1:
            with kf.get_connection() as conn:
                ch = conn.get_changes(serial)
                c.ensures("only deletions of missing keys", all(v[2] is None and k not in base for k, v in ch.items()))
                model.states.append(copy.deepcopy(cur))
                model.writes.append({k: None for k in ch})
        return
    c.ensures("one new serial, exactly one above the previous", serial == before + 1)
    c.ensures("success is reported once", fired == [1])
    model.commit(cur)
    with kf.get_connection() as conn:
        ch = conn.get_changes(serial)
        for k, v in ch.items():
            if v[2] is None and k not in base and k not in model.writes[-1]:
                model.writes[-1][k] = None


@contract(["S01", "S02", "S05"], TARGETS, mode="concrete", cross=60, params=["sqlite", "sqlite_db_files"])
def keyfs_history(c):
    real.warm()
    with real.scratch() as d:
        size = c.pick("cache_size", [1, 30, 10000])
        kf = real.mk_keyfs(d, c.param, size)
        mkkeys(kf)
        model = Model()
        for i in range(c.int("ntx", 1, 7)):
            run_tx(c, kf, model, i)
            if c.flag("check"):
                check_all(c, kf, model)
            if c.pick("reopen", [False] * 4 + [True]):
                kf = real.mk_keyfs(d, c.param, size)
                mkkeys(kf)
        check_all(c, kf, model)
        kf2 = real.mk_keyfs(d, c.param, size)
        mkkeys(kf2)
        check_all(c, kf2, model)
