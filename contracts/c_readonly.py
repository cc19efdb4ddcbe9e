"""read-only views and deep copies (readonly.py)"""
import copy
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem, forall_int, forall_key, length
from contracts import real
from contracts.mocks import Obj

MOD = "devpi_server.readonly"


class W:
    """ghost: 'the read-only view of x' resp. 'the deep copy of x'"""
    _name = "W"

    def __init__(self, x):
        self.x = x


def nested(c, name, depth):
    t = c.pick(name + ".t", ["int", "str", "list", "dict", "none", "tuple", "set", "bool", "bytes", "frozenset", "float",
                             "list", "dict"])
    if t == "int":
        return c.int(name)
    if t == "bool":
        return c.bool(name)
    if t == "none":
        return None
    if t == "bytes":
        return c.bytes(name)
    if t == "float":
        return c.pick(name, [0.0, 1.5, -2.25])
    if t == "str" or depth == 0:
        return c.str(name)
    n = c.pick(name + ".n", [0, 1, 2, 3])
    if t == "dict":
        return {c.pick("%s.k%d" % (name, i), ["x", "y", 1, None, ("a", 1)]): nested(c, "%s.%d" % (name, i), depth - 1)
                for i in range(n)}
    if t in ("set", "frozenset"):
        xs = [c.pick("%s.e%d" % (name, i), ["x", "y", 1, None, ("a", 1)]) for i in range(n)]
        return set(xs) if t == "set" else frozenset(xs)
    xs = [nested(c, "%s.%d" % (name, i), depth - 1) for i in range(n)]
    return tuple(xs) if t == "tuple" else xs


def same(a, b):
    """equal and of the same types, at every depth"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


MUTABLE = (dict, list, set)


def ids_of(v, out):
    """identities of all mutable containers inside v"""
    if isinstance(v, MUTABLE):
        out.add(id(v))
    if isinstance(v, dict):
        for x in v.values():
            ids_of(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            ids_of(x, out)


SKIP = {"__class__", "__init__", "__new__", "__setattr__", "__delattr__", "__init_subclass__", "__subclasshook__",
        "__getattribute__", "__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__dir__", "__sizeof__",
        "__class_getitem__", "__abstractmethods__", "__slots__", "__module__", "__doc__", "__annotations__",
        "__orig_bases__", "__parameters__", "__copy__", "__deepcopy__"}


def attack(c, view, data, ids, depth=0):
    """use everything the view offers; nothing may change data or hand out one of its containers"""
    from devpi_server.readonly import ReadonlyView
    snap = copy.deepcopy(data)
    got = []
    args = [(), ("x",), ("x", 1), (0,), (0, 1), ({"x": 1},), ([1],), ({1},), ((1,),), (slice(None),), (1,), (None,), (None, [])]
    for n in sorted(set(dir(type(view)))):
        if n in SKIP or (n.startswith("_") and not n.startswith("__")):
            continue
        try:
            m = getattr(view, n)
        except AttributeError:
            continue
        if not callable(m):
            got.append((n, m))
            continue
        for a in args:
            try:
                r = m(*a)
            except Exception:       # noqa: BLE001
                continue
            got.append((n, r))
            try:
                if hasattr(r, "__iter__") and not isinstance(r, (str, bytes, ReadonlyView)):
                    for i, x in enumerate(r):
                        if i > 20:
                            break
                        got.append((n, x))
                        if isinstance(x, tuple):
                            got.extend((n, y) for y in x)
            except Exception:       # noqa: BLE001
                pass
            if hasattr(r, "mapping"):
                got.extend((n + ".mapping", y) for y in r.mapping.values())
    c.ensures("nothing a view offers changes the data", same(data, snap), (view, data, snap))
    for n, r in got:
        c.ensures("a view never hands out a mutable part of the data", not (isinstance(r, MUTABLE) and id(r) in ids), (n, r))
        if isinstance(r, tuple):
            c.ensures("nor one inside a tuple", not any(isinstance(y, MUTABLE) and id(y) in ids for y in r), (n, r))
    if depth < 3:
        for n, r in got:
            if isinstance(r, ReadonlyView) and r is not view and n in (
                    "__getitem__", "get", "values", "items", "__iter__", "__reversed__"):
                attack(c, r, data, ids, depth + 2)


@contract("S05", [MOD + ":*"], mode="concrete", cross=150)
def views_closed(c):
    from devpi_server.readonly import ensure_deeply_readonly, get_mutable_deepcopy, is_deeply_readonly
    v = nested(c, "v", 3)
    snap = copy.deepcopy(v)
    r = c.call(ensure_deeply_readonly, v)
    c.ensures("every supported value has a read-only form", r.ok, r)
    c.ensures("a read-only form is read-only", is_deeply_readonly(r.value))
    c.ensures("a mutable value is not taken for read-only", is_deeply_readonly(v) == (not isinstance(v, (dict, list, set, tuple))))
    ids = set()
    ids_of(v, ids)
    if isinstance(v, (dict, list, set, tuple)):
        c.ensures("the view is not the data", r.value is not v)
        attack(c, r.value, v, ids)
    c.ensures("the view shows the data", r.value == v)
    m = get_mutable_deepcopy(r.value)
    c.ensures("a copy of the view equals the data, of the same types", same(m, v), (m, v))
    ids2 = set()
    ids_of(m, ids2)
    c.ensures("a copy shares no mutable part", not (ids & ids2))
    m = get_mutable_deepcopy(v)
    ids2 = set()
    ids_of(m, ids2)
    c.ensures("a copy of the value equals it and shares no mutable part", same(m, v) and not (ids & ids2))
    c.ensures("the value is unchanged", same(v, snap))
    # a view wrapped in plain containers, as written back by callers
    if isinstance(v, (dict, list, set, tuple)):
        m = get_mutable_deepcopy({"x": r.value, "y": [r.value]})
        c.ensures("views inside a value are copied too", same(m, {"x": v, "y": [v]}))
        ids2 = set()
        ids_of(m, ids2)
        c.ensures("and shared with nothing", not (ids & ids2))


@contract("S05", [MOD + ":DictViewReadonly.*", MOD + ":DictItemsViewReadonly.*", MOD + ":DictValuesViewReadonly.*"],
          params=["getitem", "get", "get_default", "items", "contains"],
          loops={MOD + ":DictItemsViewReadonly.__iter__#0": LoopSpec(lambda v: [])}, cross=20)
def dict_view(c):
    """every element a dict view hands out is the read-only form of the element"""
    dict_view_body(c, c.map("d", "str", "val"))


@contract("S05", [MOD + ":DictViewReadonly.*", MOD + ":DictItemsViewReadonly.*", MOD + ":DictValuesViewReadonly.*"],
          params=["iter", "items", "values", "keys", "len"], mode="bounded", bound=3, cross=20)
def dict_view_elements(c):
    dict_view_body(c, c.map("d", "str", "val", maxlen=3))


def dict_view_body(c, d):
    import devpi_server.readonly as ro
    v = ro.DictViewReadonly(d)
    c.patch(ro, "ensure_deeply_readonly", lambda x: W(x))
    k = c.str("k", ["a", "b", "c"])
    op = c.param
    if op == "getitem":
        r = c.call(lambda: v[k])
        if not r.ok:
            c.ensures("only a missing key is an error", And(r.raised(KeyError), Not(mem(k, d))))
            return
        c.ensures("read-only form of the element", isinstance(r.value, W) and And(mem(k, d), Eq(r.value.x, d[k])))
    elif op in ("get", "get_default"):
        dflt = c.val("default")
        r = c.call(lambda: v.get(k, dflt) if op == "get_default" else v.get(k))
        c.ensures("no exception", r.ok, r)
        x = r.value
        if mem(k, d):
            c.ensures("read-only form of the element", isinstance(x, W) and Eq(x.x, d[k]))
        else:
            x = x.x if isinstance(x, W) else x
            c.ensures("the default for a missing key", Eq(x, dflt) if op == "get_default" else x is None)
    elif op == "contains":
        c.ensures("membership is that of the data", Iff(k in v, mem(k, d)))
    elif op == "len":
        c.ensures("as many elements as the data", Eq(len(d), len(v)))
    elif op == "iter":
        for x in v:
            c.ensures("keys of the data", mem(x, d))
    elif op == "keys":
        for x in v.keys():
            c.ensures("keys of the data", mem(x, d))
    elif op == "items":
        for x, y in v.items():
            c.ensures("key and read-only form of its element",
                      And(mem(x, d), isinstance(y, W) and Eq(y.x, d[x])))
    else:
        for y in v.values():
            c.ensures("read-only form of an element", isinstance(y, W))


@contract("S05", [MOD + ":SeqViewReadonly.*"], params=["list:iter", "list:getitem", "tuple:iter", "tuple:getitem"],
          loops={MOD + ":SeqViewReadonly.__iter__#0": LoopSpec(lambda v: [])}, cross=20)
def seq_view(c):
    import devpi_server.readonly as ro
    kind, op = c.param.split(":")
    xs = c.seq("xs", lambda e: e.val("x"), py=list if kind == "list" else tuple)
    v = (ro.ListViewReadonly if kind == "list" else ro.TupleViewReadonly)(xs)
    c.patch(ro, "ensure_deeply_readonly", lambda x: W(x))
    if op == "iter":
        n = 0
        for x in v:
            c.ensures("read-only form of an element", isinstance(x, W))
            n += 1
    else:
        i = c.int("i", 0)
        r = c.call(lambda: v[i])
        if not r.ok:
            c.ensures("only a missing position is an error", And(r.raised(IndexError), i >= length(xs)))
            return
        c.ensures("read-only form of the element", isinstance(r.value, W) and Eq(r.value.x, xs[i]))


@contract("S05", [MOD + ":get_mutable_deepcopy"], params=["list", "tuple", "dict", "view"],
          cross=30, covers=["copied"])
def deepcopy_elements(c):
    """a copied container has exactly the copies of the elements (induction step)"""
    import devpi_server.readonly as ro
    kind = c.param
    impl = {"list": list, "tuple": tuple, "dict": dict}
    reg = getattr(ro.get_mutable_deepcopy, "dispatch", None)
    if reg is None:
        c.stop()
    rec = lambda x: W(x)        # noqa: E731
    if kind == "view":
        src = c.val("data")
        v = ro.ListViewReadonly(src)
        f = reg(ro.ListViewReadonly)
        c.patch(ro, "get_mutable_deepcopy", rec)
        r = c.call(f, v)
        c.ensures("no exception", r.ok, r)
        c.cover("copied")
        c.ensures("a view is copied through its data", isinstance(r.value, W) and Eq(r.value.x, src))
        return
    f = reg(impl[kind])
    c.patch(ro, "get_mutable_deepcopy", rec)
    if kind == "dict":
        d = c.map("d", "str", "val")
        r = c.call(f, d)
        c.ensures("no exception", r.ok, r)
        c.cover("copied")
        k = c.str("k", ["a", "b", "c"])
        c.ensures("same keys", Iff(mem(k, r.value), mem(k, d)))
        if mem(k, d):
            x = r.value[k]
            c.ensures("copy of the element", isinstance(x, W) and Eq(x.x, d[k]))
        c.ensures("a new dict", r.value is not d)
        return
    xs = c.seq("xs", lambda e: e.val("x"), py=impl[kind])
    r = c.call(f, xs)
    c.ensures("no exception", r.ok, r)
    c.cover("copied")
    i = c.int("i", 0)
    c.ensures("same length", Eq(length(r.value), length(xs)))
    if i < length(xs):
        x = r.value[i]
        c.ensures("copy of the element", isinstance(x, W) and Eq(x.x, xs[i]))
    c.ensures("a new container", r.value is not xs or kind == "tuple")
