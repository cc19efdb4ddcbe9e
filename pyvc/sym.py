"""unbounded symbolic containers"""
import z3
from .core import (STATE, Sym, SymBool, SymInt, SymStr, SymBytes, SymVal, U,
                   Unsupported, ie, is_sym, key_eq, mkstr, to_bool, uf,
                   VDict, VSet, SetLayout)


class Coder:
    """user defined element kind: python value <-> z3 term"""

    def __init__(self, name, sort, wrap, unwrap, gen=None):
        self.name, self.sort, self.wrap, self.unwrap, self.gen = name, sort, wrap, unwrap, gen


class KeySource(Sym):
    """iterable over the keys in arr; fn(key proxy) builds the element"""

    def __init__(self, kind, arr, fn):
        self.kind, self.arr, self.fn = kind, arr, fn

    def __iter__(self):
        raise Unsupported("iteration over symbolic key source without loop contract")

    __hash__ = Sym.__hash__


def zsort(kind):
    if isinstance(kind, Coder):
        return kind.sort
    if kind in ("str", "bytes"):
        return z3.StringSort()
    if kind == "int":
        return z3.IntSort()
    if kind == "bool":
        return z3.BoolSort()
    if kind == "val":
        return U
    raise ValueError(kind)


def wrap(kind, e):
    if isinstance(kind, Coder):
        return kind.wrap(e)
    if kind == "str":
        return mkstr(e)
    if kind == "bytes":
        return mkstr(e, SymBytes)
    if kind == "int":
        s = z3.simplify(e)
        return s.as_long() if z3.is_int_value(s) else SymInt(e)
    if kind == "bool":
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SymBool(e)
    if kind == "val":
        return SymVal(e)
    raise ValueError(kind)


def unwrap(kind, v):
    """python/proxy value -> z3 term of the sort, or None when it cannot be"""
    if isinstance(kind, Coder):
        return kind.unwrap(v)
    if isinstance(v, (SymStr, SymBytes)) and type(v) in (SymStr, SymBytes):
        if kind == ("str" if type(v) is SymStr else "bytes"):
            return v.e
        return None
    if type(v) is SymVal:
        return v.e if kind == "val" else None
    if kind == "int":
        return ie(v)
    if kind == "bool":
        return to_bool(v)
    if kind == "str" and isinstance(v, str):
        return z3.StringVal(v)
    if kind == "bytes" and isinstance(v, bytes):
        return z3.StringVal(v.decode("latin1"))
    return None


class SymSeq(Sym):
    """immutable sequence of arbitrary length; elem(i) builds element i"""
    py = list

    def __init__(self, name, n, elem, py=list):
        self.name = name
        self.n = n
        self.elem = elem
        self.py = py
        self.cache = []

    @property
    def __class__(self):
        return self.py

    def at(self, i):
        """element at z3 index i (memoised per index term)"""
        for j, v in self.cache:
            if j.eq(i):
                return v
        v = self.elem(i)
        self.cache.append((i, v))
        return v

    def slen(self):
        return SymInt(self.n)

    def __len__(self):
        s = z3.simplify(self.n)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("len of symbolic sequence outside transformed code")

    def __bool__(self):
        return STATE.engine.branch(self.n > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("sequence slice step")
            n = self.n

            def norm(v, d):
                if v is None:
                    return d
                x = ie(v)
                x = z3.If(x < 0, n + x, x)
                return z3.If(x < 0, 0, z3.If(x > n, n, x))
            a = norm(k.start, z3.IntVal(0))
            b = norm(k.stop, n)
            return SymSeq(self.name + "[:]", z3.If(b > a, b - a, 0),
                          lambda i: self.at(z3.simplify(a + i)), self.py)
        x = ie(k)
        x = z3.simplify(z3.If(x < 0, self.n + x, x))
        if not STATE.engine.branch(z3.And(x >= 0, x < self.n)):
            raise IndexError("list index out of range")
        return self.at(x)

    def __contains__(self, x):
        en = STATE.engine
        if en.choose(2) == 0:
            w = z3.Int(en.fresh(self.name + ".w"))
            en.assume(z3.And(w >= 0, w < self.n))
            r = key_eq(self.at(w), x)
            if r is False:
                en.kill(Infeasible_())
            if r is not True:
                en.assume(r.e)
            return True
        i = z3.Int(en.fresh(self.name + ".q"))
        r = key_eq(self.elem(i), x)
        if r is True:
            en.assume(self.n == 0)
        elif r is not False:
            en.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.Not(r.e))))
        return False

    def __iter__(self):
        raise Unsupported("iteration over symbolic sequence %s without loop contract" % self.name)

    def copy(self):
        return self

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SymSeq(%s)" % self.name


def Infeasible_():
    from .core import Infeasible
    return Infeasible()


def become(o, cls, **attrs):
    """turn o into an instance of cls, keeping its identity"""
    object.__dict__["__class__"].__set__(o, cls)
    o.__dict__.update(attrs)


class SymSet(SetLayout, Sym):
    """mutable set of arbitrary size over one sort (z3 array to Bool)"""

    def __init__(self, name, kind, arr=None, frozen=False):
        self.name = name
        self.kind = kind
        self.arr = arr if arr is not None else z3.Const(name, z3.ArraySort(zsort(kind), z3.BoolSort()))
        self.frozen = frozen

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def has(self, x):
        e = unwrap(self.kind, x)
        if e is None:
            return z3.BoolVal(False)
        return z3.Select(self.arr, e)

    def __contains__(self, x):
        return STATE.engine.branch(self.has(x))

    def add(self, x):
        e = unwrap(self.kind, x)
        if e is None:
            raise Unsupported("foreign element added to symbolic set")
        self.arr = z3.Store(self.arr, e, True)

    def discard(self, x):
        e = unwrap(self.kind, x)
        if e is not None:
            self.arr = z3.Store(self.arr, e, False)

    def remove(self, x):
        if not STATE.engine.branch(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def _lift(self, o):
        if type(o) is SymSet:
            return o.arr
        a = z3.K(zsort(self.kind), False)
        if isinstance(o, (SymSeq,)):
            raise Unsupported("symset with symbolic sequence")
        for x in o:
            e = unwrap(self.kind, x)
            if e is None:
                continue
            a = z3.Store(a, e, True)
        return a

    def _new(self, arr):
        return SymSet(STATE.engine.fresh("set"), self.kind, arr)

    def union(self, *os):
        a = self.arr
        for o in os:
            a = z3.SetUnion(a, self._lift(o))
        return self._new(a)

    def intersection(self, *os):
        a = self.arr
        for o in os:
            a = z3.SetIntersect(a, self._lift(o))
        return self._new(a)

    def difference(self, *os):
        a = self.arr
        for o in os:
            a = z3.SetDifference(a, self._lift(o))
        return self._new(a)

    def update(self, *os):
        self.arr = self.union(*os).arr

    def difference_update(self, *os):
        self.arr = self.difference(*os).arr

    def issubset(self, o):
        return SymBool(z3.IsSubset(self.arr, self._lift(o)))

    def issuperset(self, o):
        return SymBool(z3.IsSubset(self._lift(o), self.arr))

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return self._new(z3.SetDifference(self._lift(o), self.arr))

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if type(o) is SymSet or isinstance(o, (set, frozenset)):
            return SymBool(self.arr == self._lift(o))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __le__(self, o):
        return self.issubset(o)

    def __bool__(self):
        return STATE.engine.branch(self.arr != z3.K(zsort(self.kind), False))

    def __len__(self):
        raise Unsupported("len of symbolic set")

    def __iter__(self):
        raise Unsupported("iteration over symbolic set %s without loop contract" % self.name)

    def copy(self):
        return self._new(self.arr)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SymSet(%s)" % self.name


class SymMap(Sym):
    """mutable mapping with arbitrarily many entries.

    has: z3 array K -> Bool; values: either kind (z3 array K -> V) or a
    python function valfn(key_proxy) building an (immutable-by-convention or
    memoised) value."""

    def __init__(self, name, kind, vkind=None, valfn=None, has=None, val=None):
        self.name = name
        self.kind = kind
        self.vkind = vkind
        self.valfn = valfn
        ks = zsort(kind)
        self.has_ = has if has is not None else z3.Const(name + ".has", z3.ArraySort(ks, z3.BoolSort()))
        if vkind:
            self.val = val if val is not None else z3.Const(name + ".val", z3.ArraySort(ks, zsort(vkind)))
        else:
            self.val = None
        self.memo = []     # (key, value) for valfn maps
        self.log = []

    @property
    def __class__(self):
        return dict

    def haskey(self, k):
        e = unwrap(self.kind, k)
        if e is None:
            return z3.BoolVal(False)
        return z3.Select(self.has_, e)

    def lookup(self, k):
        """value proxy for k (meaningful when haskey(k))"""
        if self.vkind:
            return wrap(self.vkind, z3.Select(self.val, unwrap(self.kind, k)))
        for mk, mv in self.memo:
            r = key_eq(mk, k)
            if r is True or (r is not False and bool(r)):
                return mv
        v = self.valfn(k)
        self.memo.append((k, v))
        return v

    def __contains__(self, k):
        return STATE.engine.branch(self.haskey(k))

    def __getitem__(self, k):
        if not STATE.engine.branch(self.haskey(k)):
            raise KeyError(k)
        return self.lookup(k)

    def get(self, k, default=None):
        if not STATE.engine.branch(self.haskey(k)):
            return default
        return self.lookup(k)

    def __setitem__(self, k, v):
        e = unwrap(self.kind, k)
        if e is None:
            raise Unsupported("foreign key stored in symbolic map")
        self.has_ = z3.Store(self.has_, e, True)
        if self.vkind:
            ve = unwrap(self.vkind, v)
            if ve is None:
                raise Unsupported("foreign value stored in symbolic map")
            self.val = z3.Store(self.val, e, ve)
        else:
            for i, (mk, mv) in enumerate(self.memo):
                r = key_eq(mk, k)
                if r is True or (r is not False and bool(r)):
                    self.memo[i] = (mk, v)
                    return
            self.memo.append((k, v))

    def __delitem__(self, k):
        if not STATE.engine.branch(self.haskey(k)):
            raise KeyError(k)
        e = unwrap(self.kind, k)
        self.has_ = z3.Store(self.has_, e, False)

    def pop(self, k, *d):
        if not STATE.engine.branch(self.haskey(k)):
            if d:
                return d[0]
            raise KeyError(k)
        v = self.lookup(k)
        self.has_ = z3.Store(self.has_, unwrap(self.kind, k), False)
        return v

    def setdefault(self, k, default=None):
        if not STATE.engine.branch(self.haskey(k)):
            self[k] = default
            return default
        return self.lookup(k)

    def keyset(self):
        return SymSet(self.name + ".keys", self.kind, self.has_)

    def keys(self):
        return self.keyset()

    def items(self):
        return SymItems(self)

    def values(self):
        return SymItems(self, values=True)

    def copy(self):
        m = SymMap(self.name, self.kind, self.vkind, self.valfn, self.has_, self.val)
        m.memo = list(self.memo)
        return m

    def update(self, o):
        if isinstance(o, SymMap):
            raise Unsupported("update from symbolic map")
        for k in o:
            self[k] = o[k]

    def __bool__(self):
        return STATE.engine.branch(self.has_ != z3.K(zsort(self.kind), False))

    def __len__(self):
        raise Unsupported("len of symbolic map")

    def __iter__(self):
        raise Unsupported("iteration over symbolic map %s without loop contract" % self.name)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SymMap(%s)" % self.name


class SymItems(Sym):
    def __init__(self, m, values=False):
        self.m = m
        self.only_values = values

    def __iter__(self):
        raise Unsupported("iteration over symbolic map items %s without loop contract" % self.m.name)

    __hash__ = Sym.__hash__


SYMBOLIC_ITERABLES = (SymSeq, SymSet, SymMap, SymItems, KeySource)
