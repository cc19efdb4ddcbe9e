"""runtime helpers called by transformed code"""
import builtins
import datetime
import functools
import re
import operator
import sys
import types
import z3
from . import core
from .core import (STATE, Sym, SymBool, SymInt, SymStr, SymBytes, SymVal,
                   Unsupported, BoundExceeded, PathEnd, Poison, Control, ie, is_sym,
                   key_eq, mkstr, to_bool, uf, z3lit, VDict, VSet, VKeys)
from .sym import (KeySource, SymSeq, SymSet, SymMap, SymItems, SYMBOLIC_ITERABLES, wrap,
                  unwrap, zsort)

slice = builtins.slice
_CONCRETE_OK = (str, bytes, int, float, bool, type(None), type)


class VFrozenSet(VSet):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return 0


def has_sym(x, depth=2):
    if is_sym(x):
        return True
    t = type(x)
    if t in (str, bytes, int, float, bool, type(None)):
        return False
    if depth:
        if t in (list, tuple):
            return any(has_sym(y, depth - 1) for y in x)
        if t is VDict:
            return any(has_sym(y, depth - 1) for y in x._k) or any(has_sym(y, depth - 1) for y in x._v)
        if t in (VSet, VFrozenSet):
            return any(has_sym(y, depth - 1) for y in x._k)
        if t is dict:
            return any(has_sym(y, depth - 1) for y in dict.values(x))
    return False


# ------------------------------------------------------------------ strings

def to_str(x, conv=-1, spec=None):
    """str(x) / format(x, spec) with symbolic support"""
    if conv == ord("r"):
        return to_repr(x)
    if conv == ord("a"):
        raise Unsupported("ascii conversion")
    if is_sym(x):
        if spec not in (None, ""):
            f = uf("fmt_%s_%s" % (spec, type(x).__name__), x.e.sort(), z3.StringSort())
            STATE.engine.inexact = True
            return SymStr(f(x.e))
        return sym_to_str(x)
    if type(x) in (VDict, VSet, VFrozenSet, list, tuple) and STATE.engine is not None and has_sym(x):
        return SymStr(z3.String(STATE.engine.fresh("str_of_container")))
    if STATE.engine is not None and isinstance(x, BaseException):
        if len(x.args) == 1 and type(x).__str__ in (BaseException.__str__, Exception.__str__):
            return to_str(x.args[0])
        if has_sym(x.args):
            return SymStr(z3.String(STATE.engine.fresh("str_of_exc")))
    if STATE.engine is not None and not isinstance(x, _CONCRETE_OK):
        # object with python level __str__/__format__: may return a symbolic
        # value, which str() would reject
        m = type(x).__dict__.get("__str__") or _lookup(type(x), "__str__")
        if isinstance(m, types.FunctionType):
            return m(x)
        m = _lookup(type(x), "__repr__")
        if isinstance(m, types.FunctionType) and _lookup(type(x), "__str__") is object.__str__:
            return m(x)
    return format(x, spec or "") if spec else str(x)


def _lookup(t, name):
    for c in t.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def sym_to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        if STATE.engine.entails(x.e >= 0):
            return SymStr(z3.IntToStr(x.e))
        return SymStr(z3.If(x.e >= 0, z3.IntToStr(x.e),
                            z3.Concat(z3lit("-"), z3.IntToStr(-x.e))))
    if t is SymBool:
        return "True" if x else "False"
    if t is SymVal:
        return SymStr(uf("str_of_val", core.U, z3.StringSort())(x.e))
    if t is SymBytes:
        return to_repr(x)
    return SymStr(z3.String(STATE.engine.fresh("str_of_obj")))


def to_repr(x):
    if is_sym(x):
        t = type(x)
        if t in (SymInt, SymBool):
            return sym_to_str(x)
        if t in (SymStr, SymBytes, SymVal):
            STATE.engine.inexact = True
            return SymStr(uf("repr_" + t.__name__, x.e.sort(), z3.StringSort())(x.e))
        return SymStr(z3.String(STATE.engine.fresh("repr")))
    if STATE.engine is not None and has_sym(x):
        return SymStr(z3.String(STATE.engine.fresh("repr")))
    if STATE.engine is not None and not isinstance(x, _CONCRETE_OK):
        m = _lookup(type(x), "__repr__")
        if isinstance(m, types.FunctionType):
            return m(x)
    return repr(x)


def concat_strs(parts):
    if not any(is_sym(p) for p in parts):
        return "".join(parts)
    es = []
    buf = ""
    for p in parts:
        if is_sym(p):
            if buf:
                es.append(z3lit(buf))
                buf = ""
            es.append(p.e)
        else:
            buf += p
    if buf:
        es.append(z3lit(buf))
    return mkstr(z3.Concat(*es) if len(es) > 1 else es[0])


def fstr(*parts):
    if STATE.engine is None:
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec or ""))
            else:
                out.append(p)
        return "".join(out)
    return concat_strs([to_str(*p) if type(p) is tuple else p for p in parts])


def str_join(sep, it):
    items = [x for x in vc_iter(it)]
    if type(sep) is bytes or type(sep) is SymBytes or any(type(x) in (bytes, SymBytes) for x in items):
        if not has_sym(items) and not is_sym(sep):
            return sep.join(items)
        acc = b""
        for i, x in enumerate(items):
            acc = x if i == 0 else acc + sep + x
        return acc
    parts = []
    for i, x in enumerate(items):
        if not (isinstance(x, str)):
            raise TypeError("sequence item %d: expected str instance" % i)
        if i:
            parts.append(sep)
        parts.append(x if is_sym(x) else str(x))
    return concat_strs(parts)


def vc_mod(a, b):
    if STATE.engine is None or not isinstance(a, str) or isinstance(a, bytes):
        return a % b
    if not is_sym(a) and not _deep_fmt(b):
        return a % b
    if is_sym(a):
        return SymStr(z3.String(STATE.engine.fresh("fmt")))
    import re
    pos = 0
    out = []
    mapping = b if not isinstance(b, tuple) and isinstance(b, dict) else None
    args = list(b) if isinstance(b, tuple) else [b]
    ai = 0
    for m in re.finditer(r"%(\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?([sdrifxX%])", a):
        out.append(a[pos:m.start()])
        pos = m.end()
        c = m.group(6)
        if c == "%":
            out.append("%")
            continue
        if m.group(1):
            v = mapping[m.group(2)]
        else:
            if ai >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[ai]
            ai += 1
        if (m.group(3) or m.group(4) or m.group(5)) and has_sym(v):
            out.append(SymStr(z3.String(STATE.engine.fresh("fmt"))))
        elif has_sym(v) or not isinstance(v, _CONCRETE_OK):
            out.append(to_repr(v) if c == "r" else to_str(v))
        else:
            out.append(m.group(0).replace(m.group(1) or "", "") % v)
    out.append(a[pos:])
    if mapping is None and ai < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return concat_strs(out)


def _deep_fmt(b):
    xs = b if isinstance(b, tuple) else (list(b.values()) if isinstance(b, dict) else (b,))
    return has_sym(b) or any(not isinstance(x, _CONCRETE_OK) for x in xs)


def mod(a, b):
    if STATE.engine is None:
        return a % b
    return vc_mod(a, b)


# ------------------------------------------------------------------ containers

def wrapkw(d):
    return d if STATE.engine is None else VDict(d)


def mkdict(*items):
    if STATE.engine is None:
        d = {}
        for it in items:
            if len(it) == 1:
                d.update(it[0])
            else:
                d[it[0]] = it[1]
        return d
    d = VDict()
    for it in items:
        if len(it) == 1:
            if isinstance(it[0], SymMap):
                if len(d):
                    raise Unsupported("dict display unpacking symbolic map")
                d = it[0].copy()
            else:
                d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*elts):
    return set(elts) if STATE.engine is None else VSet(elts)


def getitem(a, k):
    if STATE.engine is None:
        return a[k]
    t = type(a)
    if t in (dict, types.MappingProxyType) and (is_sym(k) or isinstance(k, tuple) and has_sym(k)):
        for kk in a:
            r = key_eq(kk, k)
            if r is not False and r:
                return a[kk]
        raise KeyError(k)
    if t in (str, bytes) and has_sym_slice(k):
        return (SymStr if t is str else SymBytes)(lit_of(a))[k]
    if t in (list, tuple) and has_sym_slice(k):
        return list_sym_getitem(a, k)
    return a[k]


def lit_of(a):
    return z3lit(a if isinstance(a, str) else a.decode("latin1"))


def has_sym_slice(k):
    if isinstance(k, slice):
        return is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)
    return is_sym(k)


def list_sym_getitem(a, k):
    if isinstance(k, slice):
        raise Unsupported("symbolic slice of list")
    n = len(a)
    for i in range(-n, n):
        if k == i:
            return a[i]
    raise IndexError("list index out of range")


def vc_in(x, c):
    if STATE.engine is None:
        return x in c
    t = type(c)
    if t in (str, bytes) and is_sym(x):
        if not isinstance(x, t):
            raise TypeError("'in <string>' requires string as left operand")
        return SymBool(z3.Contains(lit_of(c), x.e))
    if t in (dict, set, frozenset, types.MappingProxyType) and (is_sym(x) or isinstance(x, tuple) and has_sym(x)):
        for kk in c:
            r = key_eq(kk, x)
            if r is not False and r:
                return True
        return False
    if t in (SymSet,):
        return SymBool(c.has(x))
    if t is SymMap:
        return SymBool(c.haskey(x))
    if t is SymStr and not is_sym(x) and isinstance(x, str):
        return SymBool(z3.Contains(c.e, z3lit(x)))
    if t is type({}.keys()) and is_sym(x):
        return vc_in(x, list(c))
    return x in c


in_ = vc_in


def not_in(x, c):
    if STATE.engine is None:
        return x not in c
    return vc_not(vc_in(x, c))


def vc_not(r):
    if type(r) is SymBool:
        return SymBool(z3.Not(r.e))
    return not r


def is_(a, b):
    if type(a) is SymBool:
        return SymBool(a.e if b else z3.Not(a.e))
    return a is b


def is_not(a, b):
    return vc_not(is_(a, b))


# ------------------------------------------------------------------ iteration

def vc_iter(x):
    """python iterator over x; fails on unbounded symbolic iterables"""
    return iter(x)


concrete_iter = vc_iter


def reraise_control():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


class _Native:
    __slots__ = ("it", "sym")

    def __init__(self, it):
        self.it = it
        self.sym = False

    def __iter__(self):
        return iter(self.it)


def sym_source(it):
    """(SymSeq-like description) for symbolic iterables else None"""
    if isinstance(it, _LazyEnum):
        return it
    if hasattr(type(it), "vc_source"):
        return it.vc_source()
    if is_sym(it) and issubclass(type(it), SYMBOLIC_ITERABLES):
        return it
    return None


class _LazyEnum:
    def __init__(self, src, start=0):
        self.src = src
        self.start = start


def loop(lid, it):
    en = STATE.engine
    if en is None:
        return _Native(it)
    src = sym_source(it)
    if src is None:
        return _Native(it)
    spec = en.contract_loops.get(lid) if en.contract_loops else None
    if spec is None:
        raise Unsupported("no loop contract for %s" % lid)
    return ForLoop(lid, src, spec)


class LoopView:
    """what an invariant sees"""

    def __init__(self, lp, vars):
        self.__dict__["lp"] = lp
        self.__dict__["vars"] = vars

    def __getattr__(self, n):
        lp = self.__dict__["lp"]
        v = self.__dict__["vars"]
        if n in v:
            return v[n]
        try:
            return getattr(lp, n)
        except AttributeError:
            raise InapplicableAnnotation("loop contract %s refers to unknown name %r" % (lp.lid, n)) from None


class InapplicableAnnotation(Unsupported):
    pass


class LoopBase:
    sym = True

    def _inv(self, vars, label):
        en = STATE.engine
        for name, e in self.spec.inv(LoopView(self, vars)):
            if name.startswith("!"):
                # what the property demands of every iteration, not only of the proof
                en.prove(name[1:], to_bool(e) if type(e) is not bool else e, kind="post")
                continue
            en.prove("%s: invariant %r %s" % (self.lid, name, label),
                     to_bool(e) if type(e) is not bool else e, kind="inv")

    def _assume_inv(self, vars):
        en = STATE.engine
        for name, e in self.spec.inv(LoopView(self, vars)):
            en.assume(to_bool(e) if not type(e) is bool else e)

    def init(self, lcls, stored):
        self.stored = stored
        self.entry = {k: v for k, v in lcls.items() if not k.startswith("__vc")}
        en = STATE.engine
        en.inexact = True
        self.g = type("G", (), {})()
        if self.spec.ghost:
            self.spec.ghost(LoopView(self, self.entry))
        self.set_initial()
        self._inv(self.entry, "holds on entry")
        # havoc
        self.cur = dict(self.entry)
        self.set_arbitrary()
        hv = self.spec.havoc or {}
        view = LoopView(self, self.cur)
        # names the contract declares modified
        for n, f in hv.items():
            if n.startswith("@"):
                continue
            if n not in self.entry and n not in stored:
                raise InapplicableAnnotation("loop contract %s havocs unknown %r" % (self.lid, n))
            self.cur[n] = f(view)
        for n in stored:
            if n not in hv:
                self.cur[n] = Poison(n)
        if self.spec.havoc_state:
            self.spec.havoc_state(view)
        self._assume_inv(self.cur)
        self.frame = frame_snapshot(self.cur, self.spec)

    def h(self, name):
        return self.cur.get(name, Poison(name))

    def finish_iteration(self, frame_locals):
        vars = {k: v for k, v in frame_locals.items() if not k.startswith("__vc")}
        self.set_next()
        self._inv(vars, "preserved")
        check_frame(self.frame, vars, self.spec, self.lid)
        STATE.engine.kill(PathEnd())


class ForLoop(LoopBase):
    def __init__(self, lid, src, spec):
        self.lid = lid
        self.spec = spec
        self.enum = None
        if isinstance(src, _LazyEnum):
            self.enum = src
            src = src.src
        if getattr(src, "srcset", None) is not None and self.enum is None:
            # a list of the members of a set, in unspecified order
            src = KeySource(src.srcset[1], src.srcset[0], lambda k: k)
        self.src = src
        self.kindof = type(src)
        en = STATE.engine
        if issubclass(self.kindof, SymSeq):
            self.n = SymInt(src.n)
        else:
            if isinstance(src, KeySource):
                self.m = None
                kset = src.arr
                self.kkind = src.kind
            elif isinstance(src, SymItems):
                self.m = src.m
                kset = src.m.has_
                self.kkind = src.m.kind
            elif isinstance(src, SymMap):
                self.m = src
                kset = src.has_
                self.kkind = src.kind
            else:
                self.m = None
                kset = src.arr
                self.kkind = src.kind
            self.all = SymSet(en.fresh("all"), self.kkind, kset)

    def set_initial(self):
        if issubclass(self.kindof, SymSeq):
            self.i = 0
        else:
            self.visited = SymSet("visited0", self.kkind, z3.K(zsort(self.kkind), False))

    def set_arbitrary(self):
        en = STATE.engine
        if issubclass(self.kindof, SymSeq):
            i = z3.Int(en.fresh("i"))
            en.assume(z3.And(i >= 0, i <= self.src.n))
            self.i = SymInt(i)
        else:
            a = z3.Const(en.fresh("visited"), z3.ArraySort(zsort(self.kkind), z3.BoolSort()))
            en.assume(z3.IsSubset(a, self.all.arr))
            self.visited = SymSet("visited", self.kkind, a)

    def set_next(self):
        if issubclass(self.kindof, SymSeq):
            self.i = self.i + 1
        else:
            self.visited = SymSet("visited", self.kkind,
                                  z3.Store(self.visited.arr, self.key_e, True))

    def __iter__(self):
        en = STATE.engine
        if issubclass(self.kindof, SymSeq):
            if en.choose(2) == 0:
                en.assume(self.i.e < self.src.n)
                elem = self.src.at(self.i.e)
                self.elem = elem
                if self.enum is not None:
                    yield (self.i + self.enum.start, elem)
                else:
                    yield elem
                self.finish_iteration(sys._getframe(1).f_locals)
            else:
                en.assume(self.i.e == self.src.n)
        else:
            if en.choose(2) == 0:
                k = z3.Const(en.fresh("k"), zsort(self.kkind))
                en.assume(z3.And(z3.Select(self.all.arr, k), z3.Not(z3.Select(self.visited.arr, k))))
                self.key_e = k
                kp = wrap(self.kkind, k)
                self.key = kp
                if isinstance(self.src, KeySource):
                    yield self.src.fn(kp)
                elif isinstance(self.src, SymItems):
                    v = self.m.lookup(kp)
                    yield v if self.src.only_values else (kp, v)
                else:
                    yield kp
                self.finish_iteration(sys._getframe(1).f_locals)
            else:
                en.assume(self.visited.arr == self.all.arr)


def while_(lid):
    en = STATE.engine
    if en is None:
        return _NativeWhile(None)
    spec = en.contract_loops.get(lid) if en.contract_loops else None
    if spec is None or en.mode == "bounded":
        return _NativeWhile(lid)
    return WhileLoop(lid, spec)


class _NativeWhile:
    __slots__ = ("lid", "k")
    sym = False

    def __init__(self, lid):
        self.lid = lid
        self.k = 0

    def next(self):
        if self.lid is None:
            return True
        self.k += 1
        en = STATE.engine
        lim = (en.bound + 2) * 4 if en is not None and en.mode == "bounded" else 64
        if self.k > lim:
            if en is not None and en.mode == "bounded":
                raise BoundExceeded(self.lid)
            raise Unsupported("no loop contract for %s" % self.lid)
        return True


class WhileLoop(LoopBase):
    def __init__(self, lid, spec):
        self.lid = lid
        self.spec = spec
        self.first = True

    def set_initial(self):
        pass
    set_arbitrary = set_initial

    def set_next(self):
        pass

    def next(self):
        if self.first:
            self.first = False
            if self.spec.variant:
                self.v0 = self.spec.variant(LoopView(self, self.cur))
            return True
        fl = sys._getframe(1).f_locals
        if self.spec.variant:
            vars = {k: v for k, v in fl.items() if not k.startswith("__vc")}
            v1 = self.spec.variant(LoopView(self, vars))
            en = STATE.engine
            en.prove("%s: variant decreases" % self.lid,
                     z3.And(ie(self.v0) >= 0, ie(v1) < ie(self.v0)), kind="variant")
        self.finish_iteration(fl)


def _reach(vars):
    seen = {}

    def walk(o, d):
        if d < 0 or id(o) in seen or type(o) is Poison:
            return
        t = type(o)
        if t is list:
            seen[id(o)] = (o, list(o))
            for x in o:
                walk(x, d - 1)
        elif t is VDict:
            seen[id(o)] = (o, (list(o._k), list(o._v)))
            for x in o._v:
                walk(x, d - 1)
        elif t in (VSet,):
            seen[id(o)] = (o, list(o._k))
        elif t is SymSet:
            seen[id(o)] = (o, o.arr)
        elif t is SymMap:
            seen[id(o)] = (o, (o.has_, o.val))
        elif t in (tuple,):
            for x in o:
                walk(x, d - 1)
        elif isinstance(o, (type, types.ModuleType, types.FunctionType)) or is_sym(o):
            return
        elif hasattr(o, "__dict__") and type(o).__module__.startswith(
                ("devpi", "contracts", "pyvc.mock")):
            seen[id(o)] = (o, dict(o.__dict__))
            for x in list(o.__dict__.values()):
                walk(x, d - 1)
    for v in vars.values():
        walk(v, 4)
    return seen


def frame_snapshot(vars, spec):
    return _reach(vars)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and type(a) is dict:
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if is_sym(a) and is_sym(b) and hasattr(a, "e") and hasattr(b, "e"):
        return a.e.eq(b.e)
    if type(a) in (str, int, bytes, bool) and type(a) is type(b):
        return a == b
    return False


def check_frame(snap, vars, spec, lid):
    allowed = set()
    for n in (spec.modifies or ()):
        n, *attrs = n.split(".")
        if n in vars:
            o = vars[n]
            for a in attrs:
                o = o.__dict__[a]
            allowed.add(id(o))
    for f in (spec.modifies_objs or ()):
        allowed.add(id(f()))
    for n in (spec.havoc or {}):
        if n in vars:
            allowed.add(id(vars[n]))
    now = {}
    for i, (o, old) in snap.items():
        if i in allowed:
            continue
        t = type(o)
        if t is list:
            cur = list(o)
        elif t is VDict:
            cur = (list(o._k), list(o._v))
        elif t is VSet:
            cur = list(o._k)
        elif t is SymSet:
            cur = o.arr
        elif t is SymMap:
            cur = (o.has_, o.val)
        else:
            cur = dict(o.__dict__)
        if not _same(old, cur):
            raise Unsupported("loop %s modifies %s outside its declared frame" % (lid, type(o).__name__))
    return now


# ------------------------------------------------------------------ comprehensions

def _app(unpack, f, x):
    return f(*x) if unpack else f(x)


def comp_list(it, unpack, elt, cond):
    if STATE.engine is not None:
        src = sym_source(it)
        if src is not None:
            return sym_comp(src, unpack, elt, cond, "list")
    return [_app(unpack, elt, x) for x in it if cond is None or _app(unpack, cond, x)]


def comp_set(it, unpack, elt, cond):
    if STATE.engine is not None:
        src = sym_source(it)
        if src is not None:
            return sym_comp(src, unpack, elt, cond, "set")
        return VSet([_app(unpack, elt, x) for x in it if cond is None or _app(unpack, cond, x)])
    return {_app(unpack, elt, x) for x in it if cond is None or _app(unpack, cond, x)}


def comp_dict(it, unpack, elt, cond):
    if STATE.engine is not None:
        src = sym_source(it)
        if src is not None:
            return sym_comp(src, unpack, elt, cond, "dict")
        d = VDict()
        for x in it:
            if cond is None or _app(unpack, cond, x):
                k, v = _app(unpack, elt, x)
                d[k] = v
        return d
    return dict(_app(unpack, elt, x) for x in it if cond is None or _app(unpack, cond, x))


class SymGen:
    """generator expression over a symbolic iterable (consumed by any/all/
    list/set/...)"""

    def __init__(self, src, unpack, elt, cond):
        self.src, self.unpack, self.elt, self.cond = src, unpack, elt, cond

    def __iter__(self):
        raise Unsupported("iteration over symbolic generator expression")


def comp_gen(it, unpack, elt, cond):
    if STATE.engine is not None:
        src = sym_source(it)
        if src is not None:
            return SymGen(src, unpack, elt, cond)
    return (_app(unpack, elt, x) for x in it if cond is None or _app(unpack, cond, x))


def from_gen_dict(g):
    return dict(g) if STATE.engine is None else VDict(g)


def from_gen_set(g):
    return set(g) if STATE.engine is None else VSet(g)


def summarize(f, result="bool"):
    """Evaluate f() (a pure expression on a fresh symbolic element) along all
    of its paths and merge the results into one z3 term.  Exceptions raised by
    the program inside are unsupported here."""
    en = STATE.engine
    saved = (en.prefix, en.trace, en.pos, en.pending, en.pc, en.solver)
    outs = []
    work = [[]]
    n = 0
    try:
        while work:
            n += 1
            if n > 64:
                raise Unsupported("element expression has too many paths")
            en.prefix = work.pop()
            en.trace = list(en.prefix)
            en.pos = 0
            en.pending = []
            base = len(saved[4])
            en.pc = list(saved[4])
            en.solver = z3.Solver()
            en.solver.set("timeout", en.br_timeout)
            en.solver.add(*en.pc)
            try:
                v = f()
            except Control:
                if not en.dead:
                    raise
                en.dead = False
                work.extend(en.pending)
                continue
            except Exception as e:
                raise Unsupported("exception %r in element expression" % e)
            if result == "bool":
                v = to_bool(v)
            cond = en.pc[base:]
            outs.append((z3.And(*cond) if cond else z3.BoolVal(True), v))
            work.extend(en.pending)
    finally:
        en.prefix, en.trace, en.pos, en.pending, en.pc, en.solver = saved
    return outs


def _sum_bool(f):
    outs = summarize(f)
    return z3.Or(*[z3.And(c, v) for c, v in outs]) if outs else z3.BoolVal(False)


def _bound(src):
    """(bound var, membership condition, element proxy)"""
    en = STATE.engine
    if isinstance(src, _LazyEnum):
        raise Unsupported("enumerate in comprehension")
    if issubclass(type(src), SymSeq):
        i = z3.Int(en.fresh("q"))
        return i, z3.And(i >= 0, i < src.n), src.elem(i)
    if type(src) is SymSet:
        k = z3.Const(en.fresh("q"), zsort(src.kind))
        return k, z3.Select(src.arr, k), wrap(src.kind, k)
    m = src.m if type(src) is SymItems else src
    k = z3.Const(en.fresh("q"), zsort(m.kind))
    kp = wrap(m.kind, k)
    if type(src) is SymMap:
        return k, z3.Select(m.has_, k), kp
    v = wrap(m.vkind, z3.Select(m.val, k)) if m.vkind else m.valfn(kp)
    return k, z3.Select(m.has_, k), (v if src.only_values else (kp, v))


def quantify(g, what):
    if type(g.src) is SymGen:
        raise Unsupported("nested symbolic generators")
    b, memb, x = _bound(g.src)
    c = z3.BoolVal(True) if g.cond is None else _sum_bool(lambda: _app(g.unpack, g.cond, x))
    p = _sum_bool(lambda: _app(g.unpack, g.elt, x))
    if what == "any":
        return SymBool(z3.Exists([b], z3.And(memb, c, p)))
    return SymBool(core.Forall([b], z3.Implies(z3.And(memb, c), p)))


def sym_comp(src, unpack, elt, cond, kind):
    en = STATE.engine
    en.inexact = True
    b, memb, x = _bound(src)
    c = z3.BoolVal(True) if cond is None else _sum_bool(lambda: _app(unpack, cond, x))
    if kind == "list" and issubclass(type(src), SymSeq) and cond is None:
        return SymSeq(src.name + ".map", src.n, lambda i: _app(unpack, elt, src.at(i)))
    # value expression
    outs = summarize(lambda: _app(unpack, elt, x), result="obj")
    if len(outs) == 1:
        v = outs[0][1]
    else:
        raise Unsupported("comprehension element with several paths")
    if kind == "list" and len(outs) == 1 and type(src) is SymSet:
        # order is unspecified for set iteration: a sequence with the same members
        k = kind_of(v)
        if k and v.e.eq(b):
            n = z3.Int(en.fresh("n"))
            f = z3.Function(en.fresh("elems"), z3.IntSort(), zsort(k))
            inv = z3.Function(en.fresh("pos"), zsort(k), z3.IntSort())
            i = z3.Int("i!")
            en.assume(n >= 0)
            en.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
                z3.substitute(z3.And(memb, c), (b, f(i))), inv(f(i)) == i)), patterns=[f(i)]))
            en.add(z3.ForAll([b], z3.Implies(z3.And(memb, c), z3.And(inv(b) >= 0, inv(b) < n, f(inv(b)) == b))))
            out = SymSeq(en.fresh("setlist"), n, lambda j: wrap(k, f(j)))
            out.srcset = (z3.Lambda([b], z3.And(memb, c)) if cond is not None else src.arr, k)
            return out
    if kind == "set":
        k = kind_of(v)
        if k is None:
            raise Unsupported("set comprehension element")
        y = z3.Const(en.fresh("y"), zsort(k))
        if v.e.eq(b):
            arr = z3.Lambda([b], z3.And(memb, c))
        else:
            arr = z3.Lambda([y], z3.Exists([b], z3.And(memb, c, v.e == y)))
        return SymSet(en.fresh("setcomp"), k, arr)
    if kind == "dict":
        kk, vv = v
        k = kind_of(kk)
        if k is not None and kk.e.eq(b):
            vk = kind_of(vv)
            has = z3.Lambda([b], z3.And(memb, c))
            if vk:
                return SymMap(en.fresh("dictcomp"), k, vk, has=has,
                              val=z3.Lambda([b], unwrap(vk, vv)))
            srcm = src.m if type(src) is SymItems else src

            def valfn(key):
                if type(src) is SymItems:
                    return _app(unpack, elt, (key, srcm.lookup(key)))[1]
                return _app(unpack, elt, key)[1]
            return SymMap(en.fresh("dictcomp"), k, None, valfn, has=has)
        raise Unsupported("dict comprehension with rewritten keys")
    if kind == "list" and issubclass(type(src), SymSeq):
        return FilteredSeq(src, unpack, elt, cond)
    raise Unsupported("%s comprehension over %s" % (kind, type(src).__name__))


class FilteredSeq(SymSeq):
    """[elt(x) for x in src if cond(x)]: order preserving sub-sequence given by
    a strictly increasing index map"""

    def __init__(self, src, unpack, elt, cond):
        en = STATE.engine
        n = z3.Int(en.fresh("flen"))
        idx = z3.Function(en.fresh("fidx"), z3.IntSort(), z3.IntSort())
        inv = z3.Function(en.fresh("finv"), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints("i! j!")
        q = z3.Int(en.fresh("q"))
        keep = _sum_bool(lambda: _app(unpack, cond, src.elem(q)))
        en.assume(z3.And(n >= 0, n <= src.n))
        en.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n),
               z3.And(idx(i) >= 0, idx(i) < src.n, z3.substitute(keep, (q, idx(i))), inv(idx(i)) == i)),
               patterns=[idx(i)]))
        en.add(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), idx(i) < idx(j)),
               patterns=[z3.MultiPattern(idx(i), idx(j))]))
        pats = core.uf_patterns(keep, q)
        en.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < src.n, keep),
               z3.And(inv(q) >= 0, inv(q) < n, idx(inv(q)) == q)), patterns=pats + [inv(q)]))
        # n == 0 exactly when nothing is kept (ground witness for emptiness tests)
        w = z3.Int(en.fresh("fw"))
        en.add(z3.Or(n == 0, z3.And(w >= 0, w < src.n, z3.substitute(keep, (q, w)), idx(z3.IntVal(0)) == w)))
        SymSeq.__init__(self, en.fresh(src.name + ".filter"), n,
                        lambda k: _app(unpack, elt, src.at(z3.simplify(idx(k)))))
        self.idx, self.inv, self.base = idx, inv, src


def kind_of(v):
    t = type(v)
    return {SymStr: "str", SymBytes: "bytes", SymInt: "int", SymBool: "bool", SymVal: "val"}.get(t) or (
        "str" if t is str else "bytes" if t is bytes else "bool" if t is bool else "int" if t is int else None)


# ------------------------------------------------------------------ calls

def b_len(x):
    if type(x) in (SymStr, SymBytes) or issubclass(type(x), SymSeq):
        return x.slen()
    if not is_sym(x):
        m = _lookup(type(x), "__len__")
        if isinstance(m, types.FunctionType) and type(x) not in (VDict, VSet, VFrozenSet):
            return m(x)
    return len(x)


def b_str(*a, **k):
    if not a:
        return ""
    if len(a) > 1 or k:
        x = a[0]
        if type(x) is SymBytes:
            return x.decode()
        return str(*a, **k)
    return to_str(a[0])


def b_repr(x):
    return to_repr(x)


def b_int(*a, **k):
    if not a or not is_sym(a[0]):
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return SymInt(z3.If(x.e, 1, 0))
    if t in (SymStr, SymBytes):
        if x.e.decl().kind() == z3.Z3_OP_INT_TO_STR and STATE.engine.entails(x.e.arg(0) >= 0):
            return SymInt(x.e.arg(0))
        # ASCII decimal only (python also strips blanks, allows sign, '_')
        d = z3.Plus(z3.Range("0", "9"))
        if STATE.engine.branch(z3.InRe(x.e, d)):
            return SymInt(z3.StrToInt(x.e))
        if STATE.engine.branch(z3.InRe(x.e, z3.Concat(z3.Re("-"), d))):
            return SymInt(-z3.StrToInt(z3.SubString(x.e, 1, z3.Length(x.e) - 1)))
        STATE.engine.notes.add("int(): only plain ASCII decimal accepted, other literal forms treated as ValueError")
        raise ValueError("invalid literal for int() with base 10")
    raise TypeError("int() argument")


def b_bool(*a):
    if a and type(a[0]) in (SymBool, SymInt, SymStr, SymBytes):
        return SymBool(to_bool(a[0]))
    return bool(*a)


def b_list(*a):
    if not a:
        return []
    x = a[0]
    if is_sym(x):
        if issubclass(type(x), SymSeq):
            return SymSeq(x.name, x.n, x.elem)
        if type(x) is SymSet:
            return sym_comp(x, False, lambda y: y, None, "list")
        if type(x) is SymMap:
            return sym_comp(x.keyset(), False, lambda y: y, None, "list")
        if type(x) is SymItems:
            ks = sym_comp(x.m.keyset(), False, lambda y: y, None, "list")
            ov = x.only_values
            return SymSeq(ks.name, ks.n,
                          lambda j: x.m.lookup(ks.at(j)) if ov else (ks.at(j), x.m.lookup(ks.at(j))))
    if isinstance(x, SymGen):
        return sym_comp(x.src, x.unpack, x.elt, x.cond, "list")
    return list(x)


def b_tuple(*a):
    if a and (is_sym(a[0]) or isinstance(a[0], SymGen)):
        r = b_list(a[0])
        return SymSeq(r.name, r.n, r.elem, tuple)
    return tuple(*a)


def is_symgen(x):
    return isinstance(x, SymGen)


def b_set(*a):
    if not a:
        return VSet()
    x = a[0]
    if type(x) is SymChain:
        return x.as_set()
    if type(x) is SymSet:
        return x.copy()
    if type(x) is SymMap:
        return x.keyset()
    if isinstance(x, SymGen):
        return sym_comp(x.src, x.unpack, x.elt, x.cond, "set")
    if isinstance(x, SymSeq) and is_sym(x):
        en = STATE.engine
        v = x.elem(z3.Int(en.fresh("q")))
        k = kind_of(v)
        if k is None:
            raise Unsupported("set() of symbolic sequence")
        y = z3.Const(en.fresh("y"), zsort(k))
        i = z3.Int(en.fresh("q"))
        arr = z3.Lambda([y], z3.Exists([i], z3.And(i >= 0, i < x.n, unwrap(k, x.elem(i)) == y)))
        return SymSet(en.fresh("setof"), k, arr)
    return VSet(x)


def b_frozenset(*a):
    r = b_set(*a)
    if type(r) is VSet:
        f = VFrozenSet()
        f._k = r._k
        return f
    r.frozen = True
    return r


def b_dict(*a, **k):
    if a and type(a[0]) is SymMap:
        m = a[0].copy()
        for kk, v in k.items():
            m[kk] = v
        return m
    if a and isinstance(a[0], SymGen):
        return sym_comp(a[0].src, a[0].unpack, a[0].elt, a[0].cond, "dict")
    return VDict(*a, **k)


def b_any(it):
    if isinstance(it, SymGen):
        return quantify(it, "any")
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    if isinstance(it, SymGen):
        return quantify(it, "all")
    for x in it:
        if not x:
            return False
    return True


def b_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is VDict or t is SymMap:
            return dict
        if t is VSet:
            return set
        if t is VFrozenSet:
            return frozenset
        if issubclass(t, Sym):
            return a[0].__class__
        return t
    return type(*a)


class SymChain:
    """itertools.chain.from_iterable over a symbolic generator"""

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        raise Unsupported("iteration over symbolic chain")

    def as_set(self):
        g = self.gen
        b, memb, x = _bound(g.src)
        c = z3.BoolVal(True) if g.cond is None else _sum_bool(lambda: _app(g.unpack, g.cond, x))
        outs = summarize(lambda: _app(g.unpack, g.elt, x), result="obj")
        en = STATE.engine
        y = z3.Const(en.fresh("y"), z3.StringSort())
        alts = []
        for pc, v in outs:
            if type(v) is SymSet and v.kind == "str":
                alts.append(z3.And(pc, z3.Select(v.arr, y)))
            elif isinstance(v, (list, tuple, set)) and not is_sym(v):
                es = [unwrap("str", z) for z in v]
                alts.append(z3.And(pc, z3.Or(*[y == e for e in es])))
            else:
                raise Unsupported("chain over %s" % type(v).__name__)
        return SymSet(en.fresh("chainset"), "str",
                      z3.Lambda([y], z3.Exists([b], z3.And(memb, c, z3.Or(*alts)))))


class SymSorted(SymSeq):
    """sorted(s): ascending sequence with exactly the members of s"""
    members = None


def b_sorted(it, **k):
    if is_sym(it) and type(it) is SymSet and not k:
        r = sym_comp(it, False, lambda y: y, None, "list")
        # the ascending order is not asserted (no contract depends on it)
        s = SymSorted(r.name, r.n, r.elem)
        s.members = it
        return s
    xs = list(vc_iter(it))
    if len(xs) < 2 or not (has_sym(xs, 3) or k.get("key")):
        return sorted(xs, **k)
    key = k.get("key") or (lambda x: x)
    rev = k.get("reverse", False)
    ks = [key(x) for x in xs]
    out = []
    for kx, x in zip(ks, xs):      # stable insertion sort, forks on comparisons
        i = len(out)
        while i > 0:
            a = out[i - 1][0]
            if (a < kx) if rev else (kx < a):
                i -= 1
            else:
                break
        out.insert(i, (kx, x))
    return [x for _, x in out]


def b_minmax(name, sign):
    def f(*a, **k):
        if len(a) == 1:
            xs = list(vc_iter(a[0]))
        else:
            xs = list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("%s() arg is an empty sequence" % name)
        key = k.get("key") or (lambda x: x)
        best = xs[0]
        for x in xs[1:]:
            kx, kb = key(x), key(best)
            if type(kx) is SymInt or type(kb) is SymInt:
                if best is kb or x is kx:
                    e = ie(kx) < ie(kb) if sign < 0 else ie(kx) > ie(kb)
                    best = SymInt(z3.If(e, ie(kx), ie(kb)))
                    continue
            if (kx < kb) if sign < 0 else (kx > kb):
                best = x
        return best
    return f


def b_sum(it, start=0):
    acc = start
    for x in vc_iter(it):
        acc = acc + x
    return acc


def b_enumerate(it, start=0):
    src = sym_source(it)
    if src is not None:
        return _LazyEnum(src, start)
    return enumerate(it, start)


def b_range(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            lo, hi = z3.IntVal(0), ie(a[0])
        elif len(a) == 2:
            lo, hi = ie(a[0]), ie(a[1])
        else:
            raise Unsupported("range step")
        n = z3.If(hi > lo, hi - lo, 0)
        if STATE.engine.mode == "bounded":
            out = []
            i = 0
            while STATE.engine.branch(n > i):
                out.append(wrap("int", lo + i))
                i += 1
                if i > STATE.engine.bound + 1:
                    raise BoundExceeded("range")
            return out
        return SymSeq(STATE.engine.fresh("range"), z3.simplify(n), lambda i: wrap("int", lo + i), range)
    return range(*a)


def b_isinstance(x, t):
    return isinstance(x, t)


def b_getattr(o, name, *d):
    if is_sym(name):
        raise Unsupported("getattr with symbolic name")
    return getattr(o, name, *d)


def b_setattr(o, name, v):
    if is_sym(name):
        raise Unsupported("setattr with symbolic name")
    return setattr(o, name, v)


def b_hasattr(o, name):
    if is_sym(name):
        raise Unsupported("hasattr with symbolic name")
    return hasattr(o, name)


def b_iter(*a):
    if len(a) == 1 and is_sym(a[0]) and issubclass(type(a[0]), SYMBOLIC_ITERABLES):
        return a[0]
    return iter(*a)


def b_hash(x):
    return hash(x)


def b_format(x, spec=""):
    return to_str(x, -1, spec)


def b_print(*a, **k):
    return None


def b_reversed(x):
    if isinstance(x, SymSeq) and is_sym(x):
        return SymSeq(x.name + ".rev", x.n, lambda i: x.at(z3.simplify(x.n - 1 - i)))
    return reversed(list(x))


def b_zip(*a, **k):
    return zip(*a, **k)


def b_map(f, *its):
    return map(f, *its)


def b_filter(f, it):
    if f is None:
        f = bool
    if STATE.engine is not None and sym_source(it) is not None:
        return comp_gen(it, False, lambda x: x, f)
    return (x for x in vc_iter(it) if f(x))


def b_identity_guard(f):
    return f


BUILTINS = {
    len: b_len, str: b_str, repr: b_repr, int: b_int, bool: b_bool, list: b_list,
    tuple: b_tuple, set: b_set, frozenset: b_frozenset, dict: b_dict, any: b_any,
    all: b_all, type: b_type, sorted: b_sorted, min: b_minmax("min", -1),
    max: b_minmax("max", 1), sum: b_sum, enumerate: b_enumerate, range: b_range,
    isinstance: b_isinstance, getattr: b_getattr, setattr: b_setattr,
    hasattr: b_hasattr, iter: b_iter, format: b_format, print: b_print,
    reversed: b_reversed, zip: b_zip, map: b_map, filter: b_filter,
    hash: b_hash,
}

# builtins that may receive proxies without a special handler
SAFE = {id, callable, issubclass, next, setattr, delattr, object, property,
        staticmethod, classmethod, functools.partial, isinstance,
        operator.itemgetter, operator.attrgetter}

SAFE_LIST_METHODS = {"append", "extend", "insert", "pop", "index", "remove", "count",
                     "clear", "copy", "reverse", "__iter__", "__len__"}

EXTERNAL = {}      # native/third-party callables with symbolic handlers


def register(f):
    def deco(h):
        EXTERNAL[f] = h
        return h
    return deco


BUILTIN_METHOD = type(re.compile('a').match)     # PyCMethod, a subclass of the usual type


def call(f, *a, **k):
    en = STATE.engine
    if en is None:
        return f(*a, **k)
    try:
        h = BUILTINS.get(f)
        if h is None:
            h = EXTERNAL.get(f)
    except (TypeError, Unsupported):
        h = None
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.BuiltinFunctionType or t is BUILTIN_METHOD:
        s = f.__self__
        ts = type(s)
        if ts in (str, bytes):
            if f.__name__ == "join":
                return str_join(s, *a)
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                if f.__name__ == "format":
                    return str_format(s, a, k)
                p = (SymStr if ts is str else SymBytes)(lit_of(s))
                return getattr(p, f.__name__)(*a, **k)
            return f(*a, **k)
        if ts is re.Pattern and any(has_sym(x) for x in a):
            from . import symre
            return symre.apply(s, f.__name__, *a, **k)
        if ts is list:
            if f.__name__ == "sort":
                s[:] = b_sorted(s, **k)
                return None
            if f.__name__ == "extend" and (isinstance(a[0], SymGen) or is_sym(a[0])):
                raise Unsupported("list.extend with symbolic iterable")
            return f(*a, **k)
        if ts in (dict, set, types.MappingProxyType) and any(is_sym(x) for x in a):
            n = f.__name__
            if n == "get":
                for kk in s:
                    r = key_eq(kk, a[0])
                    if r is not False and r:
                        return s[kk]
                return a[1] if len(a) > 1 else None
            if n in ("append",):
                return f(*a)
            if n in ("setdefault", "pop", "add", "discard", "remove", "update") or True:
                raise Unsupported("native %s.%s with symbolic argument" % (ts.__name__, n))
        if ts is types.ModuleType or s is None:
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                if f in SAFE or getattr(f, "__module__", None) in ("_functools", "itertools"):
                    return f(*a, **k)
                raise Unsupported("native function %s.%s with symbolic argument" % (
                    getattr(f, "__module__", "?"), f.__name__))
            return f(*a, **k)
        return f(*a, **k)
    if t is types.FunctionType:
        m = f.__module__ or ""
        if not m.startswith(OWN) and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            if m.split(".")[0] in PASS_MODULES:
                return f(*a, **k)
            raise Unsupported("external function %s.%s with symbolic argument" % (m, f.__qualname__))
        return f(*a, **k)
    if isinstance(f, type):
        m = f.__module__
        if m.startswith(OWN) or issubclass(f, BaseException):
            return f(*a, **k)
        if f in SAFE:
            return f(*a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if m.split(".")[0] in PASS_MODULES:
                return f(*a, **k)
            raise Unsupported("external class %s.%s with symbolic argument" % (m, f.__qualname__))
        return f(*a, **k)
    if t is types.MethodDescriptorType and a:
        # str.lower(x) style
        if is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
    return f(*a, **k)


def str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("str.format field")
        out.append(to_str(v, ord(conv) if conv else -1, spec or None))
    return concat_strs(out)


OWN = ("devpi", "contracts", "pyvc", "functools", "contextlib", "collections")
PASS_MODULES = {"attr", "logging", "abc", "typing", "warnings", "operator",
                "itertools", "functools", "copy", "contextlib", "threading", "weakref", "pluggy", "zope", "pyramid"}
