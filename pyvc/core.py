"""pyvc core: path-splitting symbolic execution engine and value proxies.

The engine never interprets Python itself: CPython runs the (mechanically
transformed) code of /repo on the proxy values defined here.  Every decision
on a symbolic condition is recorded; all feasible decision sequences are
enumerated (by re-execution), so the set of paths explored covers every
input admitted by the contract's precondition.
"""
import time
import z3

STATE = type("STATE", (), {})()
STATE.engine = None


def eng():
    return STATE.engine


def active():
    e = STATE.engine
    return e is not None


class Control(BaseException):
    """engine control flow; never a Python-level exception of the program"""


class PathEnd(Control):
    pass


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class BoundExceeded(Control):
    pass


class Budget(Control):
    pass


class Obligation:
    __slots__ = ("label", "status", "backend", "secs", "model", "kind", "path",
                 "detail", "func")

    def __init__(self, label, status, backend, secs, model=None, kind="post",
                 path=None, detail=None):
        self.label = label
        self.status = status      # discharged | refuted | unknown
        self.backend = backend
        self.secs = secs
        self.model = model
        self.kind = kind
        self.path = path
        self.detail = detail


class Engine:
    def __init__(self, mode="proof", max_paths=4000, deadline=None,
                 vc_timeout=20000, br_timeout=4000, bound=2):
        self.mode = mode
        self.bound = bound
        self.max_paths = max_paths
        self.deadline = deadline
        self.vc_timeout = vc_timeout
        self.br_timeout = br_timeout
        self.obligations = []
        self.covers = {}
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.unsupported = []
        self.notes = set()
        self.axioms = []
        self.stop_on_refute = False
        self.inexact = False      # proof mode abstraction used (havoc/UF)

    # -- exploration ------------------------------------------------------
    def explore(self, fn):
        """fn() is executed once per feasible path"""
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                self.unsupported.append(("path budget exceeded", self.paths))
                return
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append(("time budget exceeded", self.paths))
                return
            prefix = work.pop()
            self.prefix = prefix
            self.trace = list(prefix)
            self.pos = 0
            self.pending = []
            self.solver = z3.Solver()
            self.solver.set("timeout", self.br_timeout)
            self.pc = []
            self.dead = False
            self.names = {}
            self.inputs = {}
            self.depth = 0
            self.paths += 1
            self.cur_notes = []
            prev = STATE.engine
            STATE.engine = self
            try:
                fn()
            except PathEnd:
                pass
            except Infeasible:
                pass
            except Unsupported as e:
                self.unsupported.append((str(e), list(self.trace)))
            except BoundExceeded as e:
                self.notes.add("loop bound reached: %s" % e)
            except RecursionError:
                self.unsupported.append(("recursion", list(self.trace)))
            finally:
                STATE.engine = prev
            work.extend(self.pending)
            if self.stop_on_refute and any(
                    o.status == "refuted" for o in self.obligations):
                return

    def kill(self, exc):
        self.dead = True
        raise exc

    # -- solver -----------------------------------------------------------
    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        # quantified facts are used by the obligations only; leaving them out
        # of the feasibility solver over-approximates the set of paths
        if not has_quantifier(e):
            self.solver.add(e)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def assume(self, e):
        if self.dead:
            return
        if type(e) is bool:
            if not e:
                self.kill(Infeasible())
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.kill(Infeasible())
        self.add(e)
        if self.pos >= len(self.trace) and not has_quantifier(e):
            if self._check() == z3.unsat:
                self.kill(Infeasible())

    def entails(self, e):
        """is e implied by the path condition? (unknown -> False)"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._check(z3.Not(e)) == z3.unsat

    def branch(self, e):
        if type(e) is bool:
            return e
        if self.dead:
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if has_quantifier(e):
            d = not self.choose(2)
            self.add(e if d else z3.Not(e))
            return d
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            self.add(e if d else z3.Not(e))
            return d
        if self.deadline and time.time() > self.deadline:
            self.kill(Unsupported("time budget exceeded"))
        t = self._check(e)
        if t == z3.unsat:
            d = False
            # still record, so replays stay aligned
        else:
            f = self._check(z3.Not(e))
            if f == z3.unsat:
                d = True
            else:
                d = True
                self.pending.append(self.trace[:self.pos] + [False])
        self.trace.append(d)
        self.pos += 1
        self.add(e if d else z3.Not(e))
        return d

    def choose(self, n, what=""):
        """n-way nondeterministic choice (no solver)"""
        if self.dead or n <= 1:
            return 0
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace[:self.pos] + [k])
        self.trace.append(0)
        self.pos += 1
        return 0

    def prove(self, label, e, kind="post", detail=None):
        if self.dead:
            return True
        if type(e) is bool:
            if e:
                self.obligations.append(
                    Obligation(label, "discharged", "evaluation", 0.0, kind=kind))
                return True
            e = z3.BoolVal(False)
        t = time.time()
        s = z3.Solver()
        s.add(*self.pc)
        s.add(z3.Not(e))
        # staged: z3 briefly, then cvc5, then z3 with the full budget
        backend = "z3"
        s.set("timeout", min(2000, self.vc_timeout))
        r = s.check()
        if r == z3.unknown:
            r2 = cvc5_check(s, self.vc_timeout)
            if r2 is not None:
                r, backend = r2, "cvc5"
            else:
                s.set("timeout", self.vc_timeout)
                r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        if r == z3.unsat:
            self.obligations.append(
                Obligation(label, "discharged", backend, dt, kind=kind))
            return True
        if r == z3.sat:
            try:
                m = s.model() if backend == "z3" else None
            except z3.Z3Exception:
                m = None
            inputs = self.model_inputs(m) if m is not None else None
            self.obligations.append(
                Obligation(label, "refuted", backend, dt, model=inputs,
                           kind=kind, path=list(self.trace), detail=detail))
        else:
            self.obligations.append(
                Obligation(label, "unknown", backend, dt, kind=kind,
                           path=list(self.trace), detail=detail))
        return False

    def model_inputs(self, m):
        return {k: concretize(v, m) for k, v in self.inputs.items()}

    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s!%d" % (name, k)


_HQ = {}


def has_quantifier(e):
    """e contains a quantifier or lambda"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def uf_patterns(e, var):
    """trigger candidates: minimal uninterpreted applications mentioning var"""
    out = []
    seen = set()

    def has(x):
        st = [x]
        while st:
            y = st.pop()
            if y.eq(var):
                return True
            st.extend(y.children())
        return False

    def walk(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and has(x):
            n0 = len(out)
            for c in x.children():
                walk(c)
            if len(out) == n0:
                out.append(x)
            return
        for c in x.children():
            walk(c)
    walk(e)
    return out[:4]


def Forall(vs, body, pats=None):
    ps = pats
    if ps is None and len(vs) == 1:
        ps = uf_patterns(body, vs[0])
    if ps:
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def cvc5_check(solver, timeout):
    """decide the same assertions with the cvc5 binary"""
    import subprocess
    import tempfile
    import os
    txt = solver.to_smt2()
    txt = "(set-logic ALL)\n(set-option :strings-exp true)\n" + txt
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        try:
            r = subprocess.run(
                ["cvc5", "--tlimit=%d" % timeout, p],
                capture_output=True, text=True, timeout=timeout / 1000 + 5)
        except (OSError, subprocess.TimeoutExpired):
            return None
        out = r.stdout.strip().splitlines()
        if out and out[0] == "unsat":
            return z3.unsat
        if out and out[0] == "sat":
            return z3.sat
        return None
    finally:
        os.unlink(p)


def z3str_to_py(v):
    s = v.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})",
                  lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


def concretize(v, m):
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBytes):
        return {"__bytes__": z3str_to_py(m.eval(v.e, model_completion=True))}
    if isinstance(v, SymStr):
        return z3str_to_py(m.eval(v.e, model_completion=True))
    if isinstance(v, SymVal):
        return str(m.eval(v.e, model_completion=True))
    return v


# ------------------------------------------------------------------ proxies

class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of symbolic value")


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def to_bool(x):
    """python/sym truth value -> z3 Bool, without forking when possible"""
    if type(x) is bool:
        return z3.BoolVal(x)
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymInt:
        return x.e != 0
    if t in (SymStr, SymBytes):
        return z3.Length(x.e) > 0
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return STATE.engine.branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        if type(o) is bool:
            return SymBool(self.e if o else z3.Not(self.e))
        if type(o) in (int, SymInt):
            return SymInt(z3.If(self.e, 1, 0)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if type(r) is bool else SymBool(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return SymBool(z3.And(self.e, to_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, to_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __repr__(self):
        return "SymBool(%s)" % self.e


def ie(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int) and t is not SymBool:
        return z3.IntVal(x)
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def _lit(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        return None

    def __bool__(self):
        return STATE.engine.branch(self.e != 0)

    def __index__(self):
        v = self._lit()
        if v is None:
            raise Unsupported("concrete integer needed for %s" % self.e)
        return v
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SymInt(%s)" % self.e


def _mkint():
    def arith(name, f):
        def op(self, o):
            b = ie(o)
            if b is None:
                return NotImplemented
            return SymInt(f(self.e, b))

        def rop(self, o):
            b = ie(o)
            if b is None:
                return NotImplemented
            return SymInt(f(b, self.e))
        setattr(SymInt, "__%s__" % name, op)
        setattr(SymInt, "__r%s__" % name, rop)
    arith("add", lambda a, b: a + b)
    arith("sub", lambda a, b: a - b)
    arith("mul", lambda a, b: a * b)

    def fdiv(a, b):
        # python floor division; z3 div is euclidean, equal for b > 0
        return z3.If(b > 0, a / b, -((-a) / b) if False else z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))
    arith("floordiv", fdiv)
    arith("mod", lambda a, b: a - b * fdiv(a, b))

    def cmp(name, f):
        def op(self, o):
            b = ie(o)
            if b is None:
                if isinstance(o, float):
                    b = z3.RealVal(o)
                    return SymBool(f(z3.ToReal(self.e), b))
                if name == "eq":
                    return False
                if name == "ne":
                    return True
                return NotImplemented
            return SymBool(f(self.e, b))
        setattr(SymInt, "__%s__" % name, op)
    cmp("eq", lambda a, b: a == b)
    cmp("ne", lambda a, b: a != b)
    cmp("lt", lambda a, b: a < b)
    cmp("le", lambda a, b: a <= b)
    cmp("gt", lambda a, b: a > b)
    cmp("ge", lambda a, b: a >= b)
    SymInt.__neg__ = lambda self: SymInt(-self.e)
    SymInt.__pos__ = lambda self: self
    SymInt.__abs__ = lambda self: SymInt(z3.If(self.e < 0, -self.e, self.e))
    SymInt.__hash__ = Sym.__hash__


_mkint()


def z3lit(s):
    return z3.StringVal(s)


_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def mkstr(e, cls=None):
    """SymStr or concrete str when literal"""
    cls = cls or SymStr
    e = z3.simplify(e)
    if z3.is_string_value(e):
        v = z3str_to_py(e)
        return v if cls is SymStr else v.encode("latin1")
    return cls(e)


class SymStr(Sym):
    __slots__ = ("e",)
    py = str

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return type(self).py

    def _co(self, o):
        """coerce operand of the same python type to z3 string, else None"""
        if type(o) is type(self):
            return o.e
        if isinstance(o, Sym):
            return None
        if isinstance(o, self.py):
            return z3lit(o) if self.py is str else z3lit(bytes(o).decode("latin1"))
        return None

    def _mk(self, e):
        return mkstr(e, type(self))

    def __bool__(self):
        return STATE.engine.branch(z3.Length(self.e) > 0)

    def __eq__(self, o):
        b = self._co(o)
        if b is None:
            return False
        return SymBool(self.e == b)

    def __ne__(self, o):
        b = self._co(o)
        if b is None:
            return True
        return SymBool(self.e != b)

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else SymBool(self.e < b)

    def __le__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e == b, self.e < b))

    def __gt__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else SymBool(b < self.e)

    def __ge__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e == b, b < self.e))

    def __add__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return self._mk(z3.Concat(self.e, b))

    def __radd__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return self._mk(z3.Concat(b, self.e))

    def __mod__(self, o):
        from . import rt
        return rt.vc_mod(self, o)

    def __contains__(self, o):
        b = self._co(o)
        if b is None:
            raise TypeError("'in <string>' requires string")
        return STATE.engine.branch(z3.Contains(self.e, b))

    def contains(self, o):
        return SymBool(z3.Contains(self.e, self._co(o)))

    def __len__(self):
        v = z3.simplify(z3.Length(self.e))
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("len() of symbolic string outside transformed code")

    def slen(self):
        v = z3.simplify(z3.Length(self.e))
        if z3.is_int_value(v):
            return v.as_long()
        return SymInt(v)

    def __iter__(self):
        raise Unsupported("iteration over symbolic string")

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("string slice step")

            def norm(v, default):
                if v is None:
                    return default
                x = ie(v)
                if isinstance(v, int) and not isinstance(v, Sym):
                    x = z3.IntVal(v) if v >= 0 else n + v
                else:
                    x = z3.If(x < 0, n + x, x)
                x = z3.If(x < 0, 0, z3.If(x > n, n, x))
                return x
            a = norm(k.start, z3.IntVal(0))
            b = norm(k.stop, n)
            return self._mk(z3.If(b > a, z3.SubString(self.e, a, b - a), z3lit("")))
        x = ie(k)
        x = z3.If(x < 0, n + x, x)
        if not STATE.engine.branch(z3.And(x >= 0, x < n)):
            raise IndexError("string index out of range")
        if type(self) is SymBytes:
            return SymInt(z3.StrToCode(z3.SubString(self.e, x, 1)))
        return self._mk(z3.SubString(self.e, x, 1))

    def __str__(self):
        raise Unsupported("str() of symbolic outside transformed code")

    def __format__(self, spec):
        raise Unsupported("format() of symbolic outside transformed code")

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, str(self.e)[:200])

    # -- methods
    def _alt(self, x, f):
        if isinstance(x, tuple):
            r = [f(self._co(p)) for p in x]
            return SymBool(z3.Or(*r)) if r else False
        b = self._co(x)
        if b is None:
            raise TypeError("str expected")
        return SymBool(f(b))

    def startswith(self, p):
        return self._alt(p, lambda b: z3.PrefixOf(b, self.e))

    def endswith(self, p):
        return self._alt(p, lambda b: z3.SuffixOf(b, self.e))

    def find(self, sub, start=0):
        return SymInt(z3.IndexOf(self.e, self._co(sub), ie(start)))

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        return SymInt(z3.LastIndexOf(self.e, self._co(sub)))

    def partition(self, sep):
        b = self._co(sep)
        if STATE.engine.branch(z3.Contains(self.e, b)):
            i = z3.IndexOf(self.e, b, 0)
            return (self._mk(z3.SubString(self.e, 0, i)), sep,
                    self._mk(z3.SubString(self.e, i + z3.Length(b), z3.Length(self.e) - i - z3.Length(b))))
        e = "" if self.py is str else b""
        return (self, e, e)

    def rpartition(self, sep):
        b = self._co(sep)
        e = "" if self.py is str else b""
        r = self._rsplit1(b)
        if r is None:
            return (e, e, self)
        return (r[0], sep, r[1])

    def _rsplit1(self, b):
        if not STATE.engine.branch(z3.Contains(self.e, b)):
            return None
        en = STATE.engine
        h = z3.String(en.fresh("rs_h"))
        t = z3.String(en.fresh("rs_t"))
        # unique decomposition at the last occurrence (single char separator)
        en.add(self.e == z3.Concat(h, b, t))
        en.add(z3.Not(z3.Contains(t, b)))
        return (type(self)(h), type(self)(t))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("whitespace split of symbolic string")
        b = self._co(sep)
        if maxsplit == 0:
            return [self]
        if maxsplit == 1:
            h, s, t = self.partition(sep)
            if not is_sym(s) and not s:
                return [h]
            return [h, t]
        r = self._struct_split(b)
        if r is not None and maxsplit == -1:
            return r
        out = []
        cur = self
        limit = 2 + STATE.engine.bound if STATE.engine.mode == "bounded" else 8
        while True:
            h, s, t = cur.partition(sep) if is_sym(cur) else _cpart(cur, sep)
            if not is_sym(s) and not s:
                out.append(cur)
                return out
            out.append(h)
            cur = t
            if maxsplit != -1 and len(out) >= maxsplit:
                out.append(cur)
                return out
            if len(out) > limit:
                if STATE.engine.mode == "bounded":
                    raise BoundExceeded("split")
                raise Unsupported("unbounded split")
            if not is_sym(cur):
                out.extend(cur.split(sep))
                return out

    def _struct_split(self, b):
        """split along known concat structure"""
        if not z3.is_string_value(b):
            return None
        sep = z3str_to_py(b)
        if len(sep) != 1:
            return None

        def flat(e):
            if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
                for c in e.children():
                    yield from flat(c)
            else:
                yield e
        parts = list(flat(self.e))
        out = [[]]
        for p in parts:
            if z3.is_string_value(p):
                segs = z3str_to_py(p).split(sep)
                out[-1].append(z3lit(segs[0]))
                for s in segs[1:]:
                    out.append([z3lit(s)])
            else:
                if not STATE.engine.entails(z3.Not(z3.Contains(p, b))):
                    return None
                out[-1].append(p)
        return [self._mk(z3.Concat(*x) if len(x) > 1 else x[0]) for x in out]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit")
        if maxsplit == 1:
            r = self._rsplit1(self._co(sep))
            return [self] if r is None else [r[0], r[1]]
        if maxsplit == -1:
            return self.split(sep)
        out = []
        cur = self
        while maxsplit > 0:
            r = cur._rsplit1(self._co(sep))
            if r is None:
                break
            out.insert(0, r[1])
            cur = r[0]
            maxsplit -= 1
        out.insert(0, cur)
        return out

    def _uf(self, name):
        STATE.engine.inexact = True
        return self._mk(uf(name, z3.StringSort(), z3.StringSort())(self.e))

    def lower(self):
        en = STATE.engine
        r = uf("str_lower", z3.StringSort(), z3.StringSort())(self.e)
        en.add(z3.Length(r) == z3.Length(self.e))
        # exact on strings without upper case letters
        noup = z3.Star(z3.Union(z3.Range("\x00", "@"), z3.Range("[", "\x7f")))
        en.add(z3.Implies(z3.InRe(self.e, noup), r == self.e))
        en.add(z3.InRe(r, z3.Star(z3.Union(z3.Range("\x00", "@"), z3.Range("[", "\U0002ffff")))))
        en.inexact = True
        return self._mk(r)

    def upper(self):
        return self._uf("str_upper")

    def title(self):
        return self._uf("str_title")

    def _strip(self, chars, left, right):
        en = STATE.engine
        if chars is None:
            cs = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\xa0"]
            if self.py is bytes:
                cs = cs[:6]
        else:
            if is_sym(chars):
                raise Unsupported("strip of symbolic chars")
            cs = list(chars if self.py is str else chars.decode("latin1"))
        if not cs:
            return self
        rex = z3.Union(*[z3.Re(c) for c in cs]) if len(cs) > 1 else z3.Re(cs[0])
        a = z3.String(en.fresh("st_a")) if left else z3lit("")
        r = z3.String(en.fresh("st_r"))
        b = z3.String(en.fresh("st_b")) if right else z3lit("")
        en.add(self.e == z3.Concat(a, r, b))
        if left:
            en.add(z3.InRe(a, z3.Star(rex)))
            en.add(z3.Not(z3.Or(*[z3.PrefixOf(z3lit(c), r) for c in cs])))
        if right:
            en.add(z3.InRe(b, z3.Star(rex)))
            en.add(z3.Not(z3.Or(*[z3.SuffixOf(z3lit(c), r) for c in cs])))
        return self._mk(r)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def replace(self, a, b, count=-1):
        A, B = self._co(a), self._co(b)
        if count == 1:
            return self._mk(z3.Replace(self.e, A, B))
        if count != -1:
            raise Unsupported("replace count")
        f = z3.Z3_mk_seq_replace_all
        return self._mk(z3.SeqRef(f(self.e.ctx_ref(), self.e.as_ast(), A.as_ast(), B.as_ast())))

    def removeprefix(self, p):
        b = self._co(p)
        return self._mk(z3.If(z3.PrefixOf(b, self.e),
                              z3.SubString(self.e, z3.Length(b), z3.Length(self.e) - z3.Length(b)), self.e))

    def removesuffix(self, p):
        b = self._co(p)
        return self._mk(z3.If(z3.SuffixOf(b, self.e),
                              z3.SubString(self.e, 0, z3.Length(self.e) - z3.Length(b)), self.e))

    def join(self, it):
        from . import rt
        return rt.str_join(self, it)

    def format(self, *a, **k):
        raise Unsupported("str.format on symbolic")

    def isdigit(self):
        return SymBool(z3.InRe(self.e, z3.Plus(z3.Range("0", "9"))))
    isdecimal = isdigit

    def isspace(self):
        return SymBool(z3.InRe(self.e, z3.Plus(z3.Union(*[z3.Re(c) for c in " \t\n\r\x0b\x0c"]))))

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines")

    def count(self, sub):
        raise Unsupported("count")

    def isascii(self):
        return SymBool(z3.InRe(self.e, z3.Star(z3.Range("\x00", "\x7f"))))


def _cpart(s, sep):
    return s.partition(sep)


class SymBytes(SymStr):
    __slots__ = ()
    py = bytes

    def decode(self, *a, **k):
        # the bytes value is represented by the text it encodes
        STATE.engine.notes.add("bytes<->str coding treated as a bijection")
        return SymStr(self.e)


def _encode(self, *a, **k):
    STATE.engine.notes.add("bytes<->str coding treated as a bijection")
    return SymBytes(self.e)


SymStr.encode = _encode

U = z3.DeclareSort("U")


class SymVal(Sym):
    """opaque value: only equality is meaningful"""
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e = e
        self.tag = tag

    def __eq__(self, o):
        if type(o) is SymVal:
            return SymBool(self.e == o.e)
        return False

    def __ne__(self, o):
        if type(o) is SymVal:
            return SymBool(self.e != o.e)
        return True

    __hash__ = Sym.__hash__

    def __bool__(self):
        return STATE.engine.branch(uf("truthy", U, z3.BoolSort())(self.e))

    def __repr__(self):
        return "SymVal(%s)" % self.e


class Poison:
    """value of a variable that is unknown after a loop"""
    __slots__ = ("_n",)

    def __init__(self, n):
        object.__setattr__(self, "_n", n)

    def _bad(self, *a, **k):
        raise Unsupported("use of variable %r with unknown value" % object.__getattribute__(self, "_n"))
    __getattr__ = __bool__ = __eq__ = __ne__ = __iter__ = __len__ = __call__ = _bad
    __getitem__ = __add__ = __radd__ = __lt__ = __gt__ = __contains__ = __setattr__ = _bad

    def __hash__(self):
        return 0


def key_eq(a, b):
    """python == between dict keys, result bool or SymBool"""
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            acc = True
            for x, y in zip(a, b):
                r = key_eq(x, y)
                if r is False:
                    return False
                if r is not True:
                    acc = r if acc is True else SymBool(z3.And(acc.e, r.e))
            return acc
        return a == b
    r = (a == b)
    if r is NotImplemented:
        return False
    return r


_MISSING = object()


class VDict(dict):
    """dict whose keys may be symbolic; association list semantics identical
    to dict (insertion order, last write wins)"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._k = []
        self._v = []
        if a or k:
            self.update(*a, **k)

    @property
    def __class__(self):
        return dict

    def _find(self, key):
        if type(key) in (list, dict, set, bytearray, VDict, VSet):
            raise TypeError("unhashable type")
        for i, k in enumerate(self._k):
            if k is key:
                return i
            r = key_eq(k, key)
            if r is True:
                return i
            if r is False:
                continue
            if r:
                return i
        return -1

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        return self._v[i]

    def __setitem__(self, key, val):
        i = self._find(key)
        if i < 0:
            self._k.append(key)
            self._v.append(val)
        else:
            self._v[i] = val

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self._k[i]
        del self._v[i]

    def __contains__(self, key):
        return self._find(key) >= 0

    def __len__(self):
        return len(self._k)

    def __bool__(self):
        return bool(self._k)

    def __iter__(self):
        n = len(self._k)
        for k in list(self._k):
            if len(self._k) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield k

    def __reversed__(self):
        return iter(list(reversed(self._k)))

    def keys(self):
        return VKeys(self)

    def values(self):
        return list(self._v)

    def items(self):
        return VItems(self)

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self._v[i]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i < 0:
            self[key] = default
            return default
        return self._v[i]

    def pop(self, key, default=_MISSING):
        i = self._find(key)
        if i < 0:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._v[i]
        del self._k[i]
        del self._v[i]
        return v

    def popitem(self):
        if not self._k:
            raise KeyError("popitem(): dictionary is empty")
        return (self._k.pop(), self._v.pop())

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, "keys"):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._k = []
        self._v = []

    def copy(self):
        d = VDict()
        d._k = list(self._k)
        d._v = list(self._v)
        return d
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = VDict()
        d._k = [copy.deepcopy(x, memo) for x in self._k]
        d._v = [copy.deepcopy(x, memo) for x in self._v]
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        for k in self:
            if isinstance(o, VDict):
                i = VDict._find(o, k)
                if i < 0:
                    return False
                ov = o._v[i]
            else:
                ov = _MISSING
                for kk in o:
                    if key_eq(k, kk):
                        ov = o[kk]
                        break
                if ov is _MISSING:
                    return False
            if not (self[k] == ov):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % x for x in zip(self._k, self._v))


class VKeys:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def _set(self):
        return VSet(self.d._k)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __rsub__(self, o):
        return VSet(o) - self._set()

    def __eq__(self, o):
        return self._set() == VSet(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)
    __hash__ = None


class VItems(VKeys):
    def __iter__(self):
        d = self.d
        for k in d:
            yield (k, d[k])

    def __contains__(self, kv):
        k, v = kv
        return k in self.d and bool(self.d[k] == v)

    def _set(self):
        return VSet(list(iter(self)))


class SetLayout:
    """common memory layout of VSet and SymSet"""


class VSet(SetLayout):
    def __init__(self, it=()):
        self._k = []
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    def _find(self, key):
        if type(key) in (list, dict, set, bytearray, VDict, VSet):
            raise TypeError("unhashable type")
        for i, k in enumerate(self._k):
            if k is key:
                return i
            r = key_eq(k, key)
            if r is True:
                return i
            if r is False:
                continue
            if r:
                return i
        return -1

    def add(self, x):
        if self._find(x) < 0:
            self._k.append(x)

    def discard(self, x):
        i = self._find(x)
        if i >= 0:
            del self._k[i]

    def remove(self, x):
        i = self._find(x)
        if i < 0:
            raise KeyError(x)
        del self._k[i]

    def pop(self):
        if not self._k:
            raise KeyError("pop from an empty set")
        return self._k.pop(0)

    def clear(self):
        self._k = []

    def __contains__(self, x):
        return self._find(x) >= 0

    def __len__(self):
        return len(self._k)

    def __bool__(self):
        return bool(self._k)

    def __iter__(self):
        return iter(list(self._k))

    def copy(self):
        s = VSet()
        s._k = list(self._k)
        return s
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, *its):
        for it in its:
            if type(self) is VSet:
                from . import sym, rt
                if rt.is_symgen(it):
                    it = rt.b_set(it)
                if type(it) is sym.SymSet:
                    # from here on this object is a set of unknown size
                    arr = it._lift(self) if self._k else None
                    del self._k
                    sym.become(self, sym.SymSet, name=STATE.engine.fresh("upd"), kind=it.kind,
                               arr=it.arr if arr is None else sym.z3.SetUnion(it.arr, arr), frozen=False)
                    continue
            elif rt_is_symset(self):
                self.update(it)
                continue
            for x in it:
                self.add(x)

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def difference(self, *its):
        s = VSet()
        s._k = [x for x in self._k if not any(_isin(x, o) for o in its)]
        return s

    def difference_update(self, *its):
        self._k = self.difference(*its)._k

    def intersection(self, *its):
        s = VSet()
        s._k = [x for x in self._k if all(_isin(x, o) for o in its)]
        return s

    def intersection_update(self, *its):
        self._k = self.intersection(*its)._k

    def symmetric_difference(self, o):
        return self.difference(o) | VSet(o).difference(self)

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return VSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)
    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def issubset(self, o):
        return all(_isin(x, o) for x in self._k)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(_isin(x, o) for x in self._k)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)) and not isinstance(o, VKeys):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return "VSet(%r)" % (self._k,)


def rt_is_symset(o):
    from . import sym
    return type(o) is sym.SymSet


def _isin(x, o):
    from . import rt
    return rt.vc_in(x, o)
