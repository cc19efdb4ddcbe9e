"""stored values round-trip (fileutil.py)"""
import io
import math
import pickle
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, length
from contracts.mocks import Obj
from contracts.c_readonly import same

MOD = "devpi_server.fileutil"


class Stream:
    """ghost stream: what was written, chunk by chunk; a read has to take
    exactly one written chunk (reads of constant chunks may split them)"""

    def __init__(self, c):
        self.c, self.chunks, self.pos = c, [], 0

    def write(self, data):
        self.chunks.append(data)

    def read(self, n=-1):
        c = self.c
        if self.pos >= len(self.chunks):
            return b""
        x = self.chunks[self.pos]
        if type(x) is bytes:
            if type(n) is int:
                if n < len(x):
                    self.chunks[self.pos] = x[n:]
                    return x[:n]
                if n > len(x):
                    self.chunks.insert(self.pos, b"")
                    y = x
                    self.pos += 2
                    while len(y) < n and self.pos < len(self.chunks) and type(self.chunks[self.pos]) is bytes:
                        z = self.chunks[self.pos]
                        y += z[:n - len(y)]
                        self.chunks[self.pos] = z[n - (len(y) - len(z[:n - len(y)])):]
                    return y
        c.ensures("the reader takes exactly what the writer wrote", Eq(n, length(x)))
        self.pos += 1
        return x


def leaf(c, kind, tag):
    if kind == "bytes":
        return c.bytes(tag, [b"", b"\x00", b"Q", b"abc\xff"])
    if kind == "str":
        return c.str(tag, ["", "a", "\u00e9\u4e2d", "\U0001f600", "Q"])
    if kind == "int":
        n = c.int(tag)
        # python refuses to print numbers of more than 4300 digits
        if n > 2147483647:
            c.assume(length(str(n)) <= 4300)
        return n
    if kind == "bool":
        return c.bool(tag)
    if kind == "none":
        return None
    if kind == "float":
        return c.pick(tag, [0.0, -0.0, 1.5, float("inf"), 1e308])
    return c.pick(tag, [0j, 1 - 2.5j])


LEAVES = ["bytes", "str", "int", "bool", "none", "float", "complex"]


def roundtrip(c, x):
    import devpi_server.fileutil as m
    s = Stream(c) if c.proof or c.bounded else io.BytesIO()
    r = c.call(m.dump, s, x)
    if not r.ok:
        return r, None
    if not isinstance(s, Stream):
        s.seek(0)
    y = c.call(m.load, s)
    c.ensures("what was written can be read", y.ok, y)
    c.ensures("nothing is left to read", s.read(1) == b"")
    return r, y.value


@contract("S04", [MOD + ":load", MOD + ":dump", MOD + ":_dump*"], params=LEAVES, cross=60, covers=["read"])
def leaf_roundtrip(c):
    """values without parts: any text, bytes, number"""
    x = leaf(c, c.param, "x")
    if c.param in ("bytes", "str"):
        c.assume(length(x) <= 2147483647)
    r, y = roundtrip(c, x)
    if not r.ok:
        from devpi_server.fileutil import DumpError
        c.ensures("only numbers below the supported range are refused",
                  And(r.raised(DumpError), x < -2147483648) if c.param == "int" else False)
        return
    c.cover("read")
    c.ensures("read back equal", Eq(x, y))
    c.ensures("of the same type", isinstance(y, type(x)) and isinstance(x, bool) == isinstance(y, bool))


SHAPES = {
    "tuple0": lambda a: (), "tuple1": lambda a: (a(),), "tuple2": lambda a: (a(), a()), "tuple3": lambda a: (a(), a(), a()),
    "list0": lambda a: [], "list1": lambda a: [a()], "list2": lambda a: [a(), a()], "list3": lambda a: [a(), a(), a()],
    "dict0": lambda a: {}, "dict1": lambda a: {"k": a()}, "dict2": lambda a: {"k": a(), 7: a()},
    "nested1": lambda a: [(a(),), {"k": [a()]}], "nested2": lambda a: ((), (a(), [])), "nested3": lambda a: {"a": {}, "b": (a(), {"c": a()})},
    "nested4": lambda a: (([a()],), [({},)], None),
}


def ssame(a, b):
    if type(a) in (tuple, list, dict):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        if type(a) is dict:
            return And(list(a) == list(b), *[ssame(a[k], b[k]) for k in a if k in b])
        return And(*[ssame(x, y) for x, y in zip(a, b)])
    return And(isinstance(b, type(a)), Eq(a, b))


@contract("S04", [MOD + ":load", MOD + ":dump", MOD + ":_dump*"], mode="bounded", bound=3, cross=30,
          params=list(SHAPES))
def nested_roundtrip(c):
    """containers of the listed shapes, arbitrary leaves"""
    n = [0]

    def a():
        n[0] += 1
        x = leaf(c, c.pick("k%d" % n[0], ["bytes", "int"]), "x%d" % n[0])
        if isinstance(x, bytes):
            c.assume(length(x) <= 2147483647)
        else:
            c.assume(And(x >= -2147483648, x <= 2147483647))
        return x
    x = SHAPES[c.param](a)
    r, y = roundtrip(c, x)
    c.ensures("can be written", r.ok, r)
    c.ensures("read back equal, of the same types", ssame(x, y))


ATOMS = [None, True, False, 0, 1, -1, 2**31 - 1, 2**31, -2**31, 2**63, 10**40, 1.5, -0.0, float("inf"), 1e-300, "", "a", "é中",
         "\U0001f600", "\x00", b"", b"\x00\xff", b"Q", "Q" * 300, b"x" * 70000]
HASHABLE = [None, True, 0, 2, 2**40, 1.5, "a", "é", b"b", (), (1, "x"), frozenset({1, "y"}), ("a", (b"", None))]


def gen(c, tag, depth, ro=False):
    t = c.pick(tag + ".t", ["atom", "atom", "list", "tuple", "dict", "set", "frozenset", "dict", "ro"])
    if t == "atom" or depth == 0:
        return c.pick(tag, ATOMS if ro else ATOMS + [1j, -0j, 2 - 3.5j])
    n = c.pick(tag + ".n", [0, 1, 2, 3, 4])
    if t in ("set", "frozenset"):
        xs = [c.pick("%s.%d" % (tag, i), HASHABLE) for i in range(n)]
        return set(xs) if t == "set" else frozenset(xs)
    if t == "dict":
        return {c.pick("%s.k%d" % (tag, i), HASHABLE): gen(c, "%s.%d" % (tag, i), depth - 1, ro or t == "ro") for i in range(n)}
    xs = [gen(c, "%s.%d" % (tag, i), depth - 1, ro or t == "ro") for i in range(n)]
    if t == "ro":
        from devpi_server.readonly import ensure_deeply_readonly
        return ensure_deeply_readonly({"r": xs})
    return tuple(xs) if t == "tuple" else xs


def plain(x):
    from devpi_server.readonly import get_mutable_deepcopy, ReadonlyView
    if isinstance(x, ReadonlyView):
        return get_mutable_deepcopy(x)
    if type(x) is dict:
        return {k: plain(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(plain(v) for v in x)
    return x


class Weird:
    pass


class IntSub(int):
    pass


class ListSub(list):
    pass


@contract("S04", [MOD + ":load", MOD + ":loads", MOD + ":dump", MOD + ":dumps", MOD + ":dumplen", MOD + ":_dump*"],
          mode="concrete", cross=600)
def serial_history(c):
    from devpi_server import fileutil as m
    xs = [gen(c, "x%d" % i, 4) for i in range(c.pick("n", [1, 2]))]
    fp = io.BytesIO()
    ends = []
    for x in xs:
        r = c.call(m.dump, fp, x)
        c.ensures("supported values can be written", r.ok, (r, x))
        ends.append(fp.tell())
    raw = fp.getvalue()
    fp.seek(0)
    for x, e in zip(xs, ends):
        y = c.call(m.load, fp)
        c.ensures("read back equal and of the same types", y.ok and same(plain(x), y.value), (x, y))
        c.ensures("reading takes exactly the bytes written", fp.tell() == e)
        s = m.dumps(x)
        c.ensures("announced length", m.dumplen(x) == len(s))
        for lim in (0, 1, len(s) - 1, len(s), len(s) + 1, 10 * len(s)):
            n = m.dumplen(x, lim)
            c.ensures("announced length with a limit", n == (len(s) if len(s) <= lim else None), (n, lim, len(s)))
        c.ensures("same bytes", s == raw[:ends[0]] if x is xs[0] else True)
        y = m.loads(s)
        c.ensures("numbers keep sign and kind", repr(plain(x)) == repr(y) or isinstance(plain(x), (set, frozenset, dict, list, tuple)))
        cuts = {0, 1, len(s) - 1, len(s) // 2} | {c.int("cut", 0, 70000) % len(s) for i in range(6)}
        for k in cuts:
            t = c.call(m.loads, s[:k])
            c.ensures("truncated data is never read as a value", not t.ok, (k, s[:60], t))
        # unknown opcode at the start
        t = c.call(m.loads, bytes([c.pick("op", [0, 1, 32, 48, 64 + 21, 97, 255])]) + s)
        c.ensures("unknown opcodes are rejected", not t.ok, t)
        t = c.call(m.loads, s[:-1] + m.dumps(1))
        c.ensures("two values before the end are rejected", not t.ok, t)
    bad = c.pick("bad", [Weird(), IntSub(3), ListSub(), object, "\ud800", -2**31 - 1, -10**30, bytearray(b"x"), range(3), iter(())])
    place = c.pick("place", ["top", "list", "dict", "tuple", "deep"])
    v = {"top": bad, "list": [1, bad], "dict": {"a": bad}, "tuple": (bad, 2), "deep": {"a": [({"x": bad},)]}}[place]
    r = c.call(m.dumps, v)
    c.ensures("unsupported values are rejected when writing", not r.ok, (r, place))
    r = c.call(m.dumplen, v)
    c.ensures("also when only the length is asked", not r.ok, (r, place))
