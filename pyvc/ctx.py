"""Contract language.

A contract is a python function ``def contract(c)`` that sets up an arbitrary
pre-state, calls the real function and states the postcondition.  The same
text is evaluated in three modes:

  proof     every input unbounded/symbolic, loops by invariant
  bounded   sequence/map sizes <= bound, loops unrolled, scalars symbolic
  concrete  on the untransformed repo code, with values from a counter model
            (replay) or a generator (CPython cross check)
"""
import random
import re
import z3
from . import core, rt
from .core import (STATE, Sym, SymBool, SymInt, SymStr, SymBytes, SymVal, U,
                   Unsupported, Infeasible, Control, to_bool, is_sym, VDict, VSet,
                   key_eq, uf, mkstr)
from .sym import SymSeq, SymSet, SymMap, Coder, zsort, wrap, unwrap

REGISTRY = []


class LoopSpec:
    def __init__(self, inv, havoc=None, modifies=None, modifies_objs=None, havoc_state=None,
                 ghost=None, variant=None):
        self.inv = inv
        self.havoc = havoc
        self.modifies = modifies
        self.modifies_objs = modifies_objs
        self.havoc_state = havoc_state
        self.ghost = ghost
        self.variant = variant


class Contract:
    def __init__(self, fn, prop, targets, loops, params, mode, bound, cross, timeout, max_paths, covers, assumed, uses, strict=False):
        self.strict = strict
        self.fn = fn
        self.prop = prop if isinstance(prop, (list, tuple)) else [prop]
        self.targets = targets
        self.loops = loops or {}
        self.params = params or [None]
        self.mode = mode
        self.bound = bound
        self.cross = cross
        self.timeout = timeout
        self.max_paths = max_paths
        self.name = fn.__name__
        self.covers = covers or []
        self.assumed = assumed or []
        self.uses = uses or []
        self.module = fn.__module__


def contract(prop, targets, loops=None, params=None, mode="proof", bound=2, cross=20,
             timeout=240, max_paths=6000, covers=None, assumed=None, uses=None, strict=False):
    if isinstance(targets, str):
        targets = [targets]

    def deco(fn):
        REGISTRY.append(Contract(fn, prop, targets, loops, params, mode, bound, cross,
                                 timeout, max_paths, covers, assumed, uses, strict))
        return fn
    return deco


class Skip(BaseException):
    """concrete input outside the precondition"""


_MOCKSIG = re.compile(r"Sym(Str|Bytes|Int|Bool|Val|Seq|Set|Map|Items|Gen|Chain)|VDict|VSet|Poison|<locals>\.[\w<>.]+\(\) (got|missing|takes)|(Obj|CM|\w*Mock\w*)(\.__\w+__)?\(\) (got|missing|takes)|'(Obj|CM|\w*Mock\w*)' object")


def mock_missing(what):
    """the code used the environment in a way the contract does not describe"""
    if STATE.engine is not None:
        STATE.engine.kill(Unsupported("environment object has no " + what))
    raise Skip("environment object has no " + what)


_BLANKS = []


def _mock_mismatch(e):
    if isinstance(e, AttributeError) and any(e.obj is b for b in _BLANKS):
        # a partially constructed instance lacks a field of its class
        mock_missing("%s.%s" % (type(e.obj).__name__, e.name))
    if isinstance(e, (TypeError, AttributeError)) and _MOCKSIG.search(str(e)):
        mock_missing(str(e))


class Failed(BaseException):
    def __init__(self, label, detail=None):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, t):
        return self.exc is not None and isinstance(self.exc, t)

    def __repr__(self):
        return "Outcome(%r, %r)" % (self.value, self.exc)


# ------------------------------------------------------------- spec operators

def And(*xs):
    if all(type(x) is bool for x in xs):
        return all(xs)
    return SymBool(z3.And(*[to_bool(x) for x in xs]))


def Or(*xs):
    if all(type(x) is bool for x in xs):
        return any(xs)
    return SymBool(z3.Or(*[to_bool(x) for x in xs]))


def Not(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(_b(a)), _b(b))


def _b(x):
    return x if type(x) in (bool, SymBool) else (SymBool(to_bool(x)) if is_sym(x) else bool(x))


def Iff(a, b):
    a, b = _b(a), _b(b)
    if type(a) is bool and type(b) is bool:
        return a == b
    return SymBool(to_bool(a) == to_bool(b))


def Eq(a, b):
    r = key_eq(a, b) if (is_sym(a) or is_sym(b)) else (a == b)
    return r if type(r) is SymBool else bool(r)


def PathEq(a, b, sep="/"):
    """a == b for separator-joined strings; proved segment by segment"""
    if STATE.engine is None or not (is_sym(a) or is_sym(b)):
        return Eq(a, b)
    from pyvc import symre
    return SymBool(symre.split_eq(STATE.engine, *[x.e if is_sym(x) else rt.lit_of(x) for x in (a, b)], sep))


def mem(x, s):
    r = rt.vc_in(x, s) if STATE.engine is not None else (x in s)
    return r if type(r) is SymBool else bool(r)


def forall_int(lo, hi, f):
    """forall lo <= i < hi: f(i)   (quantified in proof mode)"""
    if STATE.engine is None or not (is_sym(lo) or is_sym(hi)):
        return And(*[_b(f(i)) for i in range(lo, hi)]) if hi > lo else True
    i = z3.Int(STATE.engine.fresh("qi"))
    body = to_bool(f(SymInt(i)))
    lo, hi = core.ie(lo), core.ie(hi)
    return SymBool(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), body)))


def forall_key(kind, f):
    """unbounded quantification over all values of a sort (proof mode only)"""
    k = z3.Const(STATE.engine.fresh("qk"), zsort(kind))
    return SymBool(z3.ForAll([k], to_bool(f(wrap(kind, k)))))


def length(x):
    return rt.b_len(x) if STATE.engine is not None else len(x)


class Elem:
    """field factory for elements of unbounded containers"""

    def __init__(self, c, name, idx=None, isort=None, j=None):
        self.c, self.name, self.idx, self.isort, self.j = c, name, idx, isort, j

    def _f(self, field, kind):
        if self.idx is not None:
            f = uf("%s.%s" % (self.name, field), self.isort, zsort(kind))
            return wrap(kind, f(self.idx))
        return getattr(self.c, kind)("%s[%s].%s" % (self.name, self.j, field))

    def str(self, field):
        return self._f(field, "str")

    def bytes(self, field):
        return self._f(field, "bytes")

    def int(self, field):
        return self._f(field, "int")

    def bool(self, field):
        return self._f(field, "bool")

    def val(self, field):
        return self._f(field, "val")


class Ctx:
    """symbolic context (proof and bounded)"""
    concrete = False

    def __init__(self, engine, contract, param=None):
        self.en = engine
        self.contract = contract
        self.param = param
        self.patches = []
        self.proof = engine.mode == "proof"

    @property
    def bounded(self):
        return self.en.mode == "bounded"

    # -- inputs
    def _in(self, name, mk):
        name = self.en.fresh("in:" + name)[3:]
        v = mk(name)
        self.en.inputs[name] = v
        return v

    def str(self, name, pool=None):
        return self._in(name, lambda n: SymStr(z3.String(n)))

    def bytes(self, name, pool=None):
        return self._in(name, lambda n: SymBytes(z3.String(n)))

    def int(self, name, lo=None, hi=None, gen_hi=None):
        v = self._in(name, lambda n: SymInt(z3.Int(n)))
        if lo is not None:
            self.en.assume(v.e >= lo)
        if hi is not None:
            self.en.assume(v.e <= hi)
        return v

    def bool(self, name):
        return self._in(name, lambda n: SymBool(z3.Bool(n)))

    def val(self, name):
        return self._in(name, lambda n: SymVal(z3.Const(n, U)))

    def pick(self, name, options):
        options = list(options)
        i = self.en.choose(len(options), name)
        name = self.en.fresh("in:" + name)[3:]
        self.en.inputs[name] = i
        return options[i]

    def flag(self, name):
        """boolean resolved by path split (concrete on each path)"""
        return self.pick(name, [False, True])

    def opt(self, name, mk):
        return None if self.flag(name + "?none") else mk(name)

    def name(self, name, pool=None):
        """non-empty string without '/' (a path segment)"""
        s = self.str(name)
        self.en.assume(z3.And(z3.Length(s.e) > 0, z3.Not(z3.Contains(s.e, z3.StringVal("/")))))
        return s

    def seq(self, name, mk, py=list, maxlen=None, minlen=0):
        if self.proof and maxlen is None:
            n = z3.Int(self.en.fresh(name + ".len"))
            self.en.assume(n >= minlen)
            self.en.inexact = True
            return SymSeq(name, n, lambda i: mk(Elem(self, name, i, z3.IntSort())), py)
        n = minlen + self.en.choose((maxlen if maxlen is not None else self.en.bound) - minlen + 1)
        self.en.inputs[self.en.fresh("in:" + name + ".len")[3:]] = n
        return py([mk(Elem(self, name, j=j)) for j in range(n)]) if py in (list, tuple) else \
            [mk(Elem(self, name, j=j)) for j in range(n)]

    def map(self, name, kind="str", vkind=None, mk=None, maxlen=None):
        if self.proof and maxlen is None:
            self.en.inexact = True
            ks = zsort(kind)
            valfn = None
            if mk is not None:
                valfn = lambda k: mk(Elem(self, name, unwrap(kind, k), ks))   # noqa: E731
            return SymMap(name, kind, vkind, valfn)
        n = self.en.choose((maxlen if maxlen is not None else self.en.bound) + 1)
        self.en.inputs[self.en.fresh("in:" + name + ".len")[3:]] = n
        d = VDict()
        keys = []
        for j in range(n):
            k = self.kinded(kind, "%s[%d].key" % (name, j))
            for k2 in keys:
                self.assume(Not(Eq(k, k2)))
            keys.append(k)
            v = self.kinded(vkind, "%s[%d].val" % (name, j)) if vkind else mk(Elem(self, name, j=j))
            d._k.append(k)
            d._v.append(v)
        return d

    def set(self, name, kind="str", maxlen=None, pool=None):
        if self.proof and maxlen is None:
            self.en.inexact = True
            return SymSet(name, kind)
        n = self.en.choose((maxlen if maxlen is not None else self.en.bound) + 1)
        self.en.inputs[self.en.fresh("in:" + name + ".len")[3:]] = n
        s = VSet()
        for j in range(n):
            k = self.kinded(kind, "%s[%d]" % (name, j))
            for k2 in s._k:
                self.assume(Not(Eq(k, k2)))
            s._k.append(k)
        return s

    def func(self, name, argkinds, retkind):
        """arbitrary mathematical function of its arguments"""
        if self.proof:
            self.en.inexact = True
            f = uf(name, *[zsort(k) for k in argkinds], zsort(retkind))

            def call(*a):
                es = [unwrap(k, x) for k, x in zip(argkinds, a)]
                if any(e is None for e in es):
                    raise Unsupported("argument sort of spec function " + name)
                return wrap(retkind, f(*es))
            return call
        table = []

        def call(*a):
            for args, r in table:
                if And(*[Eq(x, y) for x, y in zip(args, a)]):
                    return r
            r = self.kinded(retkind, "%s(%d)" % (name, len(table)))
            table.append((a, r))
            return r
        return call

    # -- logic
    def assume(self, e):
        self.en.assume(to_bool(e) if is_sym(e) else bool(e))
    requires = assume

    def ensures(self, label, e, detail=None):
        if type(e) is SymBool:
            return self.en.prove(label, e.e, detail=detail)
        return self.en.prove(label, to_bool(e) if is_sym(e) else bool(e), detail=detail)

    def cover(self, label):
        if self.en.dead:
            return
        if self.en.covers.get(label) is not True:
            # the path condition is satisfiable by construction of the path
            r = self.en._check()
            self.en.covers[label] = (r == z3.sat) or (r == z3.unknown and "unknown")

    def call(self, f, *a, **k):
        try:
            return Outcome(rt.call(f, *a, **k))
        except Control:
            raise
        except z3.Z3Exception as e:
            import traceback, os; os.environ.get("PYVC_TB") and traceback.print_exc()
            raise Unsupported("solver: %s" % str(e)[:100])
        except Exception as e:
            _mock_mismatch(e)
            return Outcome(exc=e)

    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name)
        self.patches.append((obj, name, old, missing))
        setattr(obj, name, value)

    def unpatch(self):
        del _BLANKS[:]
        for obj, name, old, missing in reversed(self.patches):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self.patches = []

    def dict(self, *a, **k):
        return VDict(*a, **k)

    def blank(self, cls, **attrs):
        """instance of cls in the given state, without running __init__"""
        o = cls.__new__(cls)
        for k, v in attrs.items():
            if hasattr(o, "__dict__"):
                o.__dict__[k] = v
            else:
                setattr(o, k, v)
        _BLANKS.append(o)
        return o

    def kinded(self, kind, name):
        if isinstance(kind, Coder):
            return kind.gen(self, name)
        return getattr(self, kind)(name)

    def newset(self, items):
        return VSet(items)

    def native(self):
        return False

    def stop(self):
        """end this path (input outside the contract)"""
        self.en.kill(Infeasible())

    def note(self, s):
        self.en.notes.add(s)


class ConcreteCtx:
    concrete = True
    proof = False
    bounded = False

    def __init__(self, contract, values=None, param=None, rnd=None):
        self.contract = contract
        self.values = values
        self.param = param
        self.rnd = rnd
        self.names = {}
        self.patches = []
        self.inputs = {}
        self.failures = []
        self.checked = 0
        self.covers = {}
        self.strs = []

    def _fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s!%d" % (name, k)

    def _get(self, name, gen):
        name = self._fresh(name)
        if self.values is not None:
            if name in self.values:
                v = self.values[name]
                if isinstance(v, dict) and "__bytes__" in v:
                    v = v["__bytes__"].encode("latin1", "replace")
            else:
                v = gen(random.Random(0))
        else:
            v = gen(self.rnd)
        self.inputs[name] = {"__bytes__": v.decode("latin1")} if isinstance(v, bytes) else v
        return v

    POOL = ["", "a", "b", "root", "dev", "pkg", "pkg-1.0.tar.gz", "1.0", "hello/dev", "x" * 5]

    def _rstr(self, pool):
        def gen(r):
            if self.strs and r.random() < 0.4:
                return r.choice(self.strs)
            s = r.choice(list(pool) if pool else self.POOL)
            self.strs.append(s)
            return s
        return gen

    def str(self, name, pool=None):
        return self._get(name, self._rstr(pool))

    def bytes(self, name, pool=None):
        return self._get(name, lambda r: self._rstr(None)(r).encode())

    def int(self, name, lo=None, hi=None, gen_hi=None):
        a = lo if lo is not None else -2
        b = hi if hi is not None else gen_hi if gen_hi is not None else max(a, 0) + 6
        v = self._get(name, lambda r: r.randint(a, b))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Skip()
        return v

    def bool(self, name):
        return self._get(name, lambda r: r.random() < 0.5)

    def val(self, name):
        return str(self._get(name, lambda r: r.choice(["v1", "v2", "v3"])))

    def pick(self, name, options):
        options = list(options)
        i = self._get(name, lambda r: r.randrange(len(options)))
        return options[i]

    def flag(self, name):
        return self.pick(name, [False, True])

    def opt(self, name, mk):
        return None if self.flag(name + "?none") else mk(name)

    def name(self, name, pool=None):
        s = self.str(name, pool or ["a", "b", "root", "pkg", "dev"])
        if not s or "/" in s:
            raise Skip()
        return s

    def seq(self, name, mk, py=list, maxlen=None, minlen=0):
        n = self._get(name + ".len", lambda r: r.randint(minlen, maxlen if maxlen is not None else max(3, minlen)))
        r = [mk(Elem(self, name, j=j)) for j in range(n)]
        return tuple(r) if py is tuple else r

    def map(self, name, kind="str", vkind=None, mk=None, maxlen=None):
        n = self._get(name + ".len", lambda r: r.randint(0, maxlen if maxlen is not None else 3))
        d = {}
        for j in range(n):
            k = self.kinded(kind, "%s[%d].key" % (name, j))
            v = self.kinded(vkind, "%s[%d].val" % (name, j)) if vkind else mk(Elem(self, name, j=j))
            d.setdefault(k, v)
        return d

    def set(self, name, kind="str", maxlen=None, pool=None):
        n = self._get(name + ".len", lambda r: r.randint(0, maxlen if maxlen is not None else 3))
        s = set()
        for j in range(n):
            s.add(self.str("%s[%d]" % (name, j), pool) if pool else self.kinded(kind, "%s[%d]" % (name, j)))
        return s

    def func(self, name, argkinds, retkind):
        table = []

        def call(*a):
            for args, r in table:
                if args == a:
                    return r
            r = self.kinded(retkind, "%s(%d)" % (name, len(table)))
            table.append((a, r))
            return r
        return call

    def assume(self, e):
        if not e:
            raise Skip()
    requires = assume

    def ensures(self, label, e, detail=None):
        self.checked += 1
        if not e:
            raise Failed(label, detail)
        return True

    def cover(self, label):
        self.covers[label] = True

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Skip, Failed):
            raise
        except Exception as e:
            _mock_mismatch(e)
            return Outcome(exc=e)

    patch = Ctx.patch
    blank = Ctx.blank
    kinded = Ctx.kinded
    unpatch = Ctx.unpatch

    def dict(self, *a, **k):
        return dict(*a, **k)

    def newset(self, items):
        return set(items)

    def native(self):
        return True

    def stop(self):
        raise Skip()

    def note(self, s):
        pass


def _quant(s, f, what):
    if is_sym(s) and type(s).__name__ in ("SymSeq", "SymSet", "SymMap", "SymItems", "FilteredSeq"):
        b, memb, x = rt._bound(s)
        body = rt._sum_bool(lambda: f(x))
        if what == "any":
            return SymBool(z3.Exists([b], z3.And(memb, body)))
        return SymBool(z3.ForAll([b], z3.Implies(memb, body)))
    rs = [_b(f(x)) for x in s]
    return Or(*rs) if what == "any" else And(*rs)


def exists_in(s, f):
    return _quant(s, f, "any")


def forall_in(s, f):
    return _quant(s, f, "all")
