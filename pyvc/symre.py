"""re.Pattern.match/fullmatch/search on symbolic text

The pattern is translated to a z3 regular expression (exact for the supported
subset).  Group contents are only offered when the decomposition is unique:
every variable part is followed by a literal that cannot start inside it."""
import re
import z3
from re import _constants as K
from re import _parser as P
from . import core
from .core import STATE, SymStr, SymBytes, Unsupported, mkstr, is_sym

ANYCH = z3.Full(z3.ReSort(z3.StringSort()))
MAXC = 0x2FFFF


def _ch(c):
    if c > 0xFFFF:
        raise Unsupported("regex character")
    return z3.StringVal("\\u{%x}" % c) if (c < 32 or c > 126 or c == 92) else z3.StringVal(chr(c))


def anychar():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def _range(a, b):
    return z3.Range(_ch(a), _ch(b))


def _union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


CATS = {
    K.CATEGORY_DIGIT: lambda: _range(48, 57),
    K.CATEGORY_SPACE: lambda: _union([_range(9, 13), z3.Re(_ch(32)), _range(28, 31)]),
    K.CATEGORY_WORD: lambda: _union([_range(48, 57), _range(65, 90), _range(97, 122), z3.Re(_ch(95))]),
}


class Tr:
    def __init__(self, flags):
        self.flags = flags
        # unicode categories/case folding are not modelled
        self.ascii_only = False
        self.ignorecase = bool(flags & re.I)

    def lit(self, c):
        if self.ignorecase and chr(c).lower() != chr(c).upper():
            self.ascii_only = True
            return z3.Union(z3.Re(_ch(ord(chr(c).lower()))), z3.Re(_ch(ord(chr(c).upper()))))
        return z3.Re(_ch(c))

    def cls(self, items):
        neg = False
        out = []
        for op, av in items:
            if op is K.NEGATE:
                neg = True
            elif op is K.LITERAL:
                out.append(self.lit(av))
            elif op is K.RANGE:
                out.append(_range(*av))
                if self.ignorecase:
                    self.ascii_only = True
                    for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                        a, b = max(lo, av[0]), min(hi, av[1])
                        if a <= b:
                            out.append(_range(a + d, b + d))
            elif op is K.CATEGORY:
                if av not in CATS:
                    raise Unsupported("regex category")
                if not self.flags & re.A:
                    self.ascii_only = True
                out.append(CATS[av]())
            else:
                raise Unsupported("regex class item %s" % op)
        u = _union(out)
        return z3.Intersect(anychar(), z3.Complement(u)) if neg else u

    def seq(self, tree):
        xs = [self.node(op, av) for op, av in tree]
        if not xs:
            return z3.Re(z3.StringVal(""))
        return xs[0] if len(xs) == 1 else z3.Concat(*xs)

    def node(self, op, av):
        if op is K.LITERAL:
            return self.lit(av)
        if op is K.NOT_LITERAL:
            return z3.Intersect(anychar(), z3.Complement(z3.Re(_ch(av))))
        if op is K.ANY:
            return anychar() if self.flags & re.S else z3.Intersect(anychar(), z3.Complement(z3.Re(_ch(10))))
        if op is K.IN:
            return self.cls(av)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is K.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if lo == 0 and hi == 1:
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("regex inline flags")
            return self.seq(av[3])
        if op is K.BRANCH:
            return _union([self.seq(b) for b in av[1]])
        raise Unsupported("regex node %s" % op)


def _firstchars(op, av):
    """set of the possible first characters if the node is one literal"""
    if op is K.LITERAL:
        return av
    return None


class SymMatch:
    def __init__(self, pat, s, groups, why, span0):
        self._pat, self._s, self._groups, self._why, self._span0 = pat, s, groups, why, span0

    def __bool__(self):
        return True

    def _get(self, g):
        if g == 0:
            if self._span0 is None:
                raise Unsupported("extent of regex match")
            return self._span0
        if self._groups is None:
            raise Unsupported("regex groups of %r: %s" % (self._pat.pattern, self._why))
        if isinstance(g, str):
            g = self._pat.groupindex[g]
        return self._groups[g]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r
    __getitem__ = group

    def groups(self):
        return tuple(self._get(i) for i in range(1, self._pat.groups + 1))

    def groupdict(self):
        d = core.VDict()
        for n in self._pat.groupindex:
            d[n] = self._get(n)
        return d


def flat_concat(e):
    if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in e.children() for x in flat_concat(c)]
    return [e]


def char_parts(e):
    """flattened concatenation: characters and symbolic parts (None if the
    literal needs escapes)"""
    parts = []
    for x in flat_concat(z3.simplify(e)):
        if z3.is_string_value(x):
            v = x.as_string()
            if "\\u" in v or "\\x" in v:
                return None
            parts.extend(v)
        else:
            parts.append(x)
    return parts


def join_parts(xs):
    out, buf = [], ""
    for x in xs:
        if isinstance(x, str):
            buf += x
        else:
            if buf:
                out.append(z3.StringVal(buf))
                buf = ""
            out.append(x)
    if buf:
        out.append(z3.StringVal(buf))
    if not out:
        return z3.StringVal("")
    return out[0] if len(out) == 1 else z3.Concat(*out)


def split_eq(en, a, b, ch):
    """a == b, stated segment by segment if no symbolic part of either can
    contain the separator (then both sides split uniquely)"""
    segs = []
    for e in (a, b):
        ps = char_parts(e)
        if ps is None:
            return a == b
        cur = [[]]
        for x in ps:
            if isinstance(x, str) and x == ch:
                cur.append([])
            else:
                if not isinstance(x, str) and not en.entails(z3.Not(z3.Contains(x, z3.StringVal(ch)))):
                    return a == b
                cur[-1].append(x)
        segs.append([join_parts(x) for x in cur])
    if len(segs[0]) != len(segs[1]):
        return z3.BoolVal(False)
    return z3.And(*[x == y for x, y in zip(*segs)])


def align(en, e, toks, end):
    """read the groups off the structure of a concatenation, if every part
    provably lies on one side of each delimiter; the caller has established
    that the string matches and that the decomposition is unique"""
    if end is None:
        return None
    parts = char_parts(e)
    if parts is None:
        return None
    res = []
    pos = 0
    for i, t in enumerate(toks):
        if t[0] == "lit":
            for ch in t[1]:
                if pos >= len(parts) or parts[pos] != ch or not isinstance(parts[pos], str):
                    return None
                pos += 1
            res.append(z3.StringVal(t[1]))
        elif t[0] == "one":
            if pos >= len(parts) or not isinstance(parts[pos], str):
                return None
            z = z3.Solver()
            z.add(z3.InRe(_ch(ord(parts[pos])), t[1]))
            if z.check() != z3.sat:
                return None
            res.append(_ch(ord(parts[pos])))
            pos += 1
        else:
            start = pos
            if i + 1 == len(toks):
                if end == "$":
                    z = z3.Solver()
                    z.add(z3.InRe(z3.StringVal("\\u{a}"), t[3]))
                    if z.check() != z3.sat:
                        return None
                pos = len(parts)
            else:
                ch = toks[i + 1][1][0]
                while pos < len(parts):
                    x = parts[pos]
                    if isinstance(x, str):
                        if x == ch:
                            break
                    elif not en.entails(z3.Not(z3.Contains(x, z3.StringVal(ch)))):
                        return None
                    pos += 1
                else:
                    return None
            res.append(join_parts(parts[start:pos]))
    if pos != len(parts):
        return None
    return res


def excluded(av):
    """(min, char) of a repetition [^char]* or [^char]+, else None"""
    lo, hi, ((op, x),) = av
    if hi is not K.MAXREPEAT or lo > 1:
        return None
    if op is K.NOT_LITERAL:
        return lo, x
    if op is K.IN and len(x) == 2 and x[0][0] is K.NEGATE and x[1][0] is K.LITERAL:
        return lo, x[1][1]
    return None


def cond(t, e):
    if t[5] is None:
        return z3.InRe(e, t[1])
    lo, ch = t[5]
    c = z3.Not(z3.Contains(e, _ch(ch)))
    return z3.And(z3.Length(e) > 0, c) if lo else c


def apply(pat, meth, s, *rest):
    if rest or meth not in ("match", "fullmatch", "search"):
        raise Unsupported("re.Pattern.%s with symbolic argument" % meth)
    if not is_sym(s):
        return getattr(pat, meth)(s)
    if isinstance(pat.pattern, bytes) or type(s) is not SymStr:
        raise Unsupported("bytes regex")
    if pat.flags & re.M:
        raise Unsupported("multiline regex")
    en = STATE.engine
    tr = Tr(pat.flags)
    tree = list(P.parse(pat.pattern, pat.flags))
    begin = meth in ("match", "fullmatch")
    if tree and tree[0][0] is K.AT and tree[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        begin = True
        tree = tree[1:]
    end = "" if meth == "fullmatch" else None
    if tree and tree[-1][0] is K.AT and tree[-1][1] in (K.AT_END, K.AT_END_STRING):
        if end is None:
            end = "$" if tree[-1][1] is K.AT_END else ""
        tree = tree[:-1]
    if any(op is K.AT for op, av in tree):
        raise Unsupported("regex anchor")
    allre = z3.Star(anychar())
    parts = []
    if not begin:
        parts.append(allre)
    body = tr.seq(tree)
    parts.append(body)
    if end is None:
        parts.append(allre)
    elif end == "$":
        parts.append(z3.Option(z3.Re(_ch(10))))
    full = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    if tr.ascii_only:
        # non-ascii text would need unicode tables
        asc = z3.Star(_range(0, 127))
        if not en.branch(z3.InRe(s.e, asc)):
            raise Unsupported("regex with unicode categories on non-ascii text")
    # unique decomposition
    toks = []          # ("lit", str) | ("var", re, groups)
    why = None
    try:
        if not begin:
            raise Unsupported("unanchored")

        def flat(t, groups):
            for op, av in t:
                if op is K.LITERAL and not tr.ignorecase:
                    if toks and toks[-1][0] == "lit" and toks[-1][2] == groups:
                        toks[-1] = ("lit", toks[-1][1] + chr(av), groups)
                    else:
                        toks.append(("lit", chr(av), groups))
                elif op is K.SUBPATTERN and not av[1] and not av[2]:
                    flat(av[3], groups + ([av[0]] if av[0] else []))
                elif op in (K.MAX_REPEAT, K.MIN_REPEAT) and len(av[2]) == 1 and av[2][0][0] in (
                        K.IN, K.NOT_LITERAL, K.ANY, K.LITERAL):
                    toks.append(("var", tr.node(op, av), groups, tr.node(*av[2][0]), op is K.MIN_REPEAT,
                                 excluded(av)))
                elif op in (K.IN, K.NOT_LITERAL, K.ANY):
                    toks.append(("one", tr.node(op, av), groups))
                else:
                    raise Unsupported("regex part %s" % op)
        flat(tree, [])
        for i, t in enumerate(toks):
            if t[0] != "var":
                continue
            if i + 1 < len(toks):
                nx = toks[i + 1]
                if nx[0] != "lit":
                    raise Unsupported("adjacent variable parts")
                z = z3.Solver()
                z.add(z3.InRe(_ch(ord(nx[1][0])), t[3]))
                if z.check() != z3.unsat:
                    raise Unsupported("ambiguous decomposition")
            elif end is None or t[4]:
                raise Unsupported("open ended")
    except Unsupported as e:
        why = str(e)
    al = align(en, s.e, toks, end) if why is None else None
    if al is not None:
        # with every delimiter located, matching is matching part by part
        conds = [cond(t, e) for t, e in zip(toks, al) if t[0] == "var"]
        if not en.branch(z3.And(*conds) if conds else z3.BoolVal(True)):
            return None
    elif not en.branch(z3.InRe(s.e, full)):
        return None
    if why is not None:
        return SymMatch(pat, s, None, why, None)
    if al is not None:
        gs = {}
        for i in range(1, pat.groups + 1):
            es = [e for t, e in zip(toks, al) if i in t[2]]
            gs[i] = mkstr(es[0] if len(es) == 1 else z3.Concat(*es)) if es else ""
        return SymMatch(pat, s, gs, None, s if end is not None else None)
    segs = []
    groups = {i: [] for i in range(1, pat.groups + 1)}
    for t in toks:
        if t[0] == "lit":
            e = z3.StringVal(t[1]) if t[1].isascii() and t[1].isprintable() and "\\" not in t[1] else \
                z3.Concat(*[_ch(ord(x)) for x in t[1]], z3.StringVal(""))
        else:
            e = z3.String(en.fresh("rx"))
            en.assume(z3.InRe(e, t[1]))
        segs.append(e)
        for g in t[2]:
            groups[g].append(e)
    whole = segs[0] if len(segs) == 1 else z3.Concat(*segs)
    if end == "$":
        tail = z3.String(en.fresh("rxtail"))
        last = toks[-1]
        nl = z3.StringVal("\\u{a}")
        if last[0] == "var":
            # greedy: the last part takes a trailing newline if it can
            z = z3.Solver()
            z.add(z3.InRe(nl, last[3]))
            en.assume(tail == z3.StringVal("") if z.check() == z3.sat else z3.Or(tail == z3.StringVal(""), tail == nl))
        else:
            en.assume(z3.Or(tail == z3.StringVal(""), tail == nl))
        en.assume(s.e == z3.Concat(whole, tail))
    else:
        en.assume(s.e == whole if end == "" else z3.PrefixOf(whole, s.e))
    gs = {g: mkstr(es[0] if len(es) == 1 else z3.Concat(*es)) if es else "" for g, es in groups.items()}
    return SymMatch(pat, s, gs, None, mkstr(whole))
