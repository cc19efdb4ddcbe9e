"""key path contracts (keyfs_types.py, model.add_keys)"""
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, PathEq, mem
from contracts.mocks import Obj


def real_keys():
    """the schema, as registered by the real add_keys"""
    import devpi_server.model as m
    from devpi_server.keyfs_types import PTypedKey, TypedKey
    keys = {}

    class KF:
        def add_key(self, name, path, type):  # noqa: A002
            k = PTypedKey(self, path, type, name) if "{" in path else TypedKey(self, path, type, name)
            keys[name] = k
            setattr(self, name, k)
            return k

        class notifier:  # noqa: N801
            @staticmethod
            def on_key_change(*a):
                return None
    m.add_keys(Obj(), KF())
    return keys


def pnames(k):
    import re
    return re.findall(r"\{(.+?)\}", k.pattern)


NAMES = ["USER", "PYPIFILE_NOMD5", "MIRRORNAMESINIT", "PROJSIMPLELINKS", "PROJVERSIONS", "PROJVERSION",
         "PROJNAMES", "STAGEFILE"]
SEGS = ["a", "b", "root", "pypi", "+e", "+f", ".config", ".simple", "1.0", "a/b", "", "é", "x.y"]


def params_of(c, k, tag):
    return {n: c.str("%s.%s" % (tag, n), SEGS) for n in pnames(k)}


@contract("S08", ["devpi_server.keyfs_types:PTypedKey.__call__", "devpi_server.keyfs_types:PTypedKey.extract_params",
                  "devpi_server.model:add_keys"], params=NAMES, covers=["built", "refused"], cross=150)
def key_paths(c):
    k = real_keys().get(c.param)
    if k is None:
        c.stop()
    p = params_of(c, k, "p")
    slash = Or(*[mem("/", v) for v in p.values()])
    r = c.call(lambda: k(**p))
    if not r.ok:
        c.cover("refused")
        c.ensures("only parameters with a separator are refused", And(r.raised(ValueError), slash))
        return
    c.cover("built")
    c.ensures("parameters with a separator are refused", Not(slash))
    t = r.value
    c.ensures("the key keeps its name, type and parameters", And(
        t.name == c.param, t.type is k.type, len(t.params) == len(p), *[Eq(t.params.get(n), v) for n, v in p.items()]))
    c.assume(And(*[Not(Eq(v, "")) for v in p.values()]))
    r2 = c.call(k.extract_params, t.relpath)
    c.ensures("no exception", r2.ok, r2)
    c.ensures("parsing the path gives back exactly the parameters",
              And(len(r2.value) == len(p), *[Eq(r2.value.get(n), v) for n, v in p.items()]))


PAIRS = [(a, b) for i, a in enumerate(NAMES) for b in NAMES[i:]]


@contract("S08", ["devpi_server.keyfs_types:PTypedKey.__call__", "devpi_server.model:add_keys"],
          params=["%s/%s" % x for x in PAIRS], covers=["built"], cross=60)
def key_paths_distinct(c):
    keys = real_keys()
    a, b = c.param.split("/")
    ka, kb = keys.get(a), keys.get(b)
    if ka is None or kb is None:
        c.stop()
    p, q = params_of(c, ka, "p"), params_of(c, kb, "q")
    if a != b:
        # project names are normalised names: they never start with '+'
        c.assume(And(*[Not(Eq(d["project"], "+e")) for d in (p, q) if "project" in d],
                     *[Not(Eq(d["project"], "+f")) for d in (p, q) if "project" in d]))
    r = c.call(lambda: (ka(**p).relpath, kb(**q).relpath))
    if not r.ok:
        return
    c.cover("built")
    x, y = r.value
    if a == b:
        c.ensures("equal paths mean equal parameters", Implies(PathEq(x, y), And(*[Eq(p[n], q[n]) for n in p])))
    else:
        c.ensures("keys of different kinds never share a path", Not(PathEq(x, y)))
    c.ensures("the user list is no other object's path", And(Not(PathEq(x, ".config")), Not(PathEq(y, ".config"))))


@contract("S08", ["devpi_server.keyfs:KeyFS.get_key_instance"], params=NAMES, cross=40)
def key_instance(c):
    from devpi_server.keyfs import KeyFS
    keys = real_keys()
    k = keys.get(c.param)
    if k is None:
        c.stop()
    kf = c.blank(KeyFS, _keys=keys)
    p = params_of(c, k, "p")
    c.assume(And(*[And(Not(Eq(v, "")), Not(mem("/", v))) for v in p.values()]))
    rp = k(**p).relpath
    r = c.call(kf.get_key_instance, c.param, rp)
    c.ensures("no exception", r.ok, r)
    t = r.value
    c.ensures("the key instance of a stored path is the key that was stored",
              And(t.name == c.param, Eq(t.relpath, rp), *[Eq(t.params.get(n), v) for n, v in p.items()]))


@contract("S08", ["devpi_server.keyfs_types:TypedKey.__eq__", "devpi_server.keyfs_types:TypedKey.__hash__"], cross=60)
def key_identity(c):
    from devpi_server.keyfs_types import TypedKey
    x, y = c.str("x", ["a", "b"]), c.str("y", ["a", "b"])
    a, b = TypedKey(None, x, dict, "N"), TypedKey(None, y, dict, "N")
    c.ensures("keys are equal exactly if their paths are", Iff(a == b, Eq(x, y)))
    if not c.proof and not c.bounded:
        c.ensures("equal keys hash equal", not (a == b) or hash(a) == hash(b))
