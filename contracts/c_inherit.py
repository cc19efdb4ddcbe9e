"""index inheritance and mirror whitelists (model.py)"""
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem
from pyvc.core import STATE
from contracts.mocks import Obj, NullLog

MODES = ["intersection", "union"]


class W:
    """what is going on in the current run"""


class Boom(Exception):
    """UpstreamError of the mocked stages"""


def sbool(tag):
    import z3
    from pyvc.core import SymBool
    return SymBool(z3.Bool(STATE.engine.fresh(tag)))


class St:
    """an index in the resolution order: arbitrary type, whitelist and contents"""

    def __init__(self, c, e, idx):
        from pyvc.sym import SymSet
        self.name = "index"
        self.idx = idx
        self.mirror = e.bool("mirror")
        self.has = e.bool("has project")
        self.unknown = e.bool("project unknown")
        self.op_fails = And(e.bool("operation fails"), e.bool("fails 1"), e.bool("fails 2"))
        self.has_fails = And(e.bool("listing fails"), e.bool("fails 3"), self.mirror)
        self.no_project_list = e.bool("no project list")
        if e.idx is not None:
            import z3
            from pyvc.core import uf
            from pyvc.sym import zsort
            S = zsort("str")
            f = uf("whitelist", z3.IntSort(), z3.ArraySort(S, z3.BoolSort()))
            self.wl = SymSet(STATE.engine.fresh("wl"), "str", f(e.idx))
        else:
            self.wl = c.set("whitelist[%s]" % e.j, pool=["*", "pkg", "other"], maxlen=2)
        self.star, self.proj = mem("*", self.wl), mem("pkg", self.wl)
        self.nowl = e.bool("no whitelist configured")
        self.star, self.proj = And(self.star, Not(self.nowl)), And(self.proj, Not(self.nowl))
        self.unknown = And(self.mirror, self.unknown, Not(self.has))

    @property
    def ixconfig(self):
        d = W.c.dict()
        d["type"] = "mirror" if self.mirror else "stage"
        d["mirror_whitelist_inheritance"] = W.mode
        if not self.nowl:
            d["mirror_whitelist"] = self.wl
        return d

    def has_project_perstage(self, project):
        W.asked.append(project)
        W.cur = self
        if self.has_fails:
            raise Boom()
        if self.unknown:
            return W.m.Unknown
        return self.has

    def op(self, **kw):
        W.ops.append((self, kw))
        if self.op_fails:
            raise Boom()
        return ("result", self.idx)

    def same(self, other):
        return Eq(self.idx, other.idx)


def first():
    return dict(any=False, star=False, proj=False, W=False, P=False)


def step(s, e):
    """the combined whitelist and what is known of the project after one more index"""
    star = (lambda a, b: Or(a, b)) if W.mode == "union" else (lambda a, b: And(a, b))
    n = dict(any=Or(s["any"], Not(e.mirror)))
    for k, v in (("star", e.star), ("proj", e.proj)):
        n[k] = And(Implies(e.mirror, s[k]),
                   Implies(Not(e.mirror), Or(And(Not(s["any"]), v), And(s["any"], star(s[k], v)))))
    n["W"] = Or(s["W"], And(Not(e.mirror), Or(n["star"], n["proj"])))
    n["P"] = Or(s["P"], And(Not(e.mirror), e.has, Not(n["star"]), Not(n["proj"])))
    return n


def answers(s, e, n):
    """does the index take part in the result"""
    blocked = And(e.mirror, s["P"], Not(s["W"]))
    known = Or(e.has, And(Not(n["P"]), e.unknown, e.no_project_list))
    return And(Not(blocked), Not(e.has_fails), known, Not(e.op_fails)), blocked


def ghost(i):
    from pyvc.core import SymBool, uf, ie
    import z3
    return {k: SymBool(uf("g." + k, z3.IntSort(), z3.BoolSort())(ie(i))) for k in first()}


def mk_elem(c):
    def mk(e):
        if e.idx is not None:
            from pyvc.core import SymInt
            idx = SymInt(e.idx)
        else:
            idx = e.j
        if Eq(idx, 0):
            st = W.me
            st.__dict__.update(St(c, e, idx).__dict__)
            c.assume(Not(And(st.mirror, W.notmirror)))
        else:
            st = St(c, e, idx)
        W.now = st
        if c.proof and not c.concrete:
            s, n = ghost(idx), ghost(idx + 1)
            for k, v in step(s, st).items():
                c.assume(Iff(n[k], v))
        return st
    return mk


def wl_inv(v):
    g = ghost(v.i)
    out = [("a private release was found without being whitelisted", Iff(v.private_hit, g["P"])),
           ("the project was whitelisted", Iff(v.whitelisted is not False, g["W"])),
           ("a whitelist was seen", Iff(v.whitelist is not None, g["any"]))]
    if v.whitelist is not None:
        out += [("combined whitelist: all", Iff(mem("*", v.whitelist), g["star"])),
                ("combined whitelist: project", Iff(mem("pkg", v.whitelist), g["proj"]))]
    out.append(("!each index contributes exactly if it may", judged(v.i)))
    return out


def judged(i):
    if W.start is None or W.start is i:
        return True
    e = W.now
    s = ghost(e.idx)
    want, blocked = answers(s, e, ghost(e.idx + 1))
    got = len(W.out) == 1 and W.out[0][0] is e and W.out[0][1] == ("result", e.idx)
    if len(W.ops) > 1 or len(W.out) > 1:
        return False
    if W.ops and (W.ops[0][0] is not e or W.ops[0][1] != W.kw):
        return False
    return And(Iff(got, want), Implies(blocked, not W.asked and not W.ops))


def wl_havoc(v):
    W.out.clear()
    W.ops.clear()
    W.asked.clear()
    W.cur = W.now = None
    W.start = v.i


def some_set(v):
    from pyvc.sym import SymSet
    if STATE.engine.branch(ghost(v.i)["any"].e):
        return SymSet(STATE.engine.fresh("combined"), "str")
    return None


def some_stage(v):
    return Obj(name="whitelisting index") if STATE.engine.branch(ghost(v.i)["W"].e) else False


def setup(c):
    import devpi_server.model as m
    W.c, W.m = c, m
    W.mode = c.pick("mode", MODES)
    W.out, W.ops, W.asked, W.cur, W.start, W.now = [], [], [], None, None, None
    W.filtered = False

    class Me(St, m.BaseStage):
        def __init__(self):
            pass
        UpstreamError = Boom
        filtered = []

        def sro(self):
            return W.order

        def filter_projects(self, projects):
            assert list(projects) == ["pkg"]
            return [] if W.filtered else projects
    W.me = Me()
    W.me.__dict__["idx"] = 0
    W.notmirror = False
    c.patch(m, "threadlog", NullLog())
    c.patch(m, "normalize_name", lambda n: {"pkg": "pkg", "Pkg": "pkg"}[n])
    W.order = c.seq("order", mk_elem(c), minlen=1, maxlen=5 if c.concrete else None)
    if c.proof and not c.concrete:
        import z3
        W.order.at(z3.IntVal(0))
    W.cur = None
    W.kw = dict(project="Pkg", extra=1)
    return m


@contract("I01", "devpi_server.model:BaseStage.op_sro_check_mirror_whitelist", cross=6000, bound=3,
          loops={"devpi_server.model:BaseStage.op_sro_check_mirror_whitelist#0": LoopSpec(
              wl_inv, havoc={"private_hit": lambda v: sbool("private_hit"), "whitelisted": some_stage,
                             "whitelist": some_set}, havoc_state=wl_havoc, modifies_objs=[lambda: W.me])},
          assumed=["BaseStage.sro is any sequence of indexes starting with the index itself (contract sro)"])
def mirror_whitelist(c):
    """an index contributes exactly if it has the project and is not a mirror from which
    the project is withheld"""
    setup(c)
    W.filtered = c.flag("filtered")
    if not c.concrete and c.proof:
        for k, v in ghost(0).items():
            c.assume(Not(v))

    def consume():
        for st, res in W.me.op_sro_check_mirror_whitelist("op", **W.kw):
            W.out.append((st, res))
    r = c.call(consume)
    if W.filtered:
        c.ensures("a filtered project comes from nowhere", r.ok and not W.out and not W.ops, r)
        return
    if not r.ok and not isinstance(r.exc, Boom):
        c.ensures("no other exception", False, r)
        return
    if not r.ok:
        c.ensures("only the failing index itself makes the operation fail",
                  And(isinstance(r.exc, Boom), W.cur is W.me, Or(W.me.op_fails, W.me.has_fails)), r)
        return
    if c.proof and not c.concrete:
        return
    s = first()
    want = []
    for e in W.order:
        n = step(s, e)
        w, blocked = answers(s, e, n)
        if w:
            want.append(e)
        s = n
    c.ensures("each index contributes exactly if it may",
              len(want) == len(W.out) and all(a is b[0] for a, b in zip(want, W.out)), (len(want), len(W.out)))
    c.ensures("asked with the given arguments", all(kw == W.kw for _, kw in W.ops))


def info_inv(v):
    g = ghost(v.i)
    out = [("no mirror so far", Not(ghost_mirror(v.i))),
           ("a private release was found", Iff(v.private_hit, gp(v.i))),
           ("the project was whitelisted", Iff(v.whitelisted, g["W"])),
           ("both notions of a private release agree", Or(g["W"], Iff(g["P"], gp(v.i)))),
           ("a whitelist was seen", Iff(v.whitelist is not None, g["any"]))]
    if v.whitelist is not None:
        out += [("combined whitelist: all", Iff(mem("*", v.whitelist), g["star"])),
                ("combined whitelist: project", Iff(mem("pkg", v.whitelist), g["proj"]))]
    return out


def _gb(name, i):
    from pyvc.core import SymBool, uf, ie
    import z3
    return SymBool(uf(name, z3.IntSort(), z3.BoolSort())(ie(i)))


def ghost_mirror(i):
    return _gb("g.mirror", i)


def gp(i):
    return _gb("g.private", i)


@contract("I01", "devpi_server.model:BaseStage.get_mirror_whitelist_info", cross=2000, bound=3,
          loops={"devpi_server.model:BaseStage.get_mirror_whitelist_info#0": LoopSpec(
              info_inv, havoc={"private_hit": lambda v: sbool("private_hit"), "whitelisted": lambda v: sbool("whitelisted"),
                               "whitelist": some_set}, havoc_state=wl_havoc, modifies_objs=[lambda: W.me])},
          assumed=["BaseStage.sro puts mirrors after all other indexes (contract sro)"])
def whitelist_info(c):
    """what is reported about a project agrees with what is served"""
    setup(c)
    old = W.order
    if not c.concrete and c.proof:
        for k, v in ghost(0).items():
            c.assume(Not(v))
        c.assume(And(Not(ghost_mirror(0)), Not(gp(0))))
        inner = old.at

        def at(i):
            st = inner(i)
            from pyvc.core import SymInt
            i = SymInt(i)
            c.assume(Iff(ghost_mirror(i + 1), Or(ghost_mirror(i), st.mirror)))
            c.assume(Iff(gp(i + 1), Or(gp(i), And(Not(st.mirror), st.has))))
            return st
        old.at = at
    else:
        seen = False
        for e in old:
            c.assume(Or(e.mirror, Not(seen)))
            seen = Or(seen, e.mirror)
    r = c.call(W.me.get_mirror_whitelist_info, "pkg")
    if not r.ok and not isinstance(r.exc, Boom):
        c.ensures("no other exception", False, r)
        return
    if not r.ok:
        c.ensures("fails only when the upstream fails", And(isinstance(r.exc, Boom), W.cur.has_fails), r)
        return
    v = r.value
    if c.proof and not c.concrete:
        e = W.now
        last = e is None or bool(Not(e.mirror))
        if last:
            c.ensures("without a mirror nothing comes from a mirror",
                      v["has_mirror_base"] is False and v["blocked_by_mirror_whitelist"] is None)
            return
        s = ghost(e.idx)
    else:
        s = first()
        for e in W.order:
            if e.mirror:
                break
            s = step(s, e)
        else:
            c.ensures("without a mirror nothing comes from a mirror",
                      v["has_mirror_base"] is False and v["blocked_by_mirror_whitelist"] is None)
            return
    blocked = And(Or(s["P"]), Not(s["W"]))
    if v["has_mirror_base"] is W.m.Unknown:
        has = False
        c.ensures("unknown only for a withheld project or an unknown one", Or(blocked, e.unknown))
    else:
        has = v["has_mirror_base"]
        c.ensures("reported as coming from the mirror exactly if it may", Iff(has, And(e.has, Not(blocked))))
    if v["blocked_by_mirror_whitelist"] is None or v["blocked_by_mirror_whitelist"] is False:
        c.ensures("not reported as withheld", Or(Not(blocked)))
    else:
        c.ensures("reported as withheld only if it is", blocked)
        c.ensures("by that mirror", v["blocked_by_mirror_whitelist"] == e.name)


# ------------------------------------------------------- resolution order

class G:
    """the graph of indexes: which exist, which are mirrors, what they inherit from"""


def _p(name, *ks):
    import z3
    from pyvc.core import SymBool, uf
    from pyvc.sym import unwrap, zsort
    S = zsort("str")
    return SymBool(uf("graph." + name, *[S] * len(ks), z3.BoolSort())(*[unwrap("str", k) for k in ks]))


def _bases(k):
    import z3
    from pyvc.core import uf
    from pyvc.sym import SymSet, unwrap, zsort
    S = zsort("str")
    return SymSet(STATE.engine.fresh("bases"), "str", uf("graph.bases", S, z3.ArraySort(S, z3.BoolSort()))(unwrap("str", k)))


def edge(k, b):
    return And(mem(b, _bases(k)), _p("exists", b), Not(_p("skip", G.me.name, b)))


class Bag:
    """list of stages of which only the names matter"""

    def __init__(self, names):
        self.names = names

    def __bool__(self):
        return bool(self.names)

    def append(self, st):
        if self is G.mirrors:
            STATE.engine.prove("a mirror is scheduled once", (~ mem(st.name, self.names)).e
                               if hasattr(mem(st.name, self.names), "e") else True, kind="post")
        self.names.add(st.name)

    def pop(self, i):
        import z3
        from pyvc.sym import SymSet, wrap, zsort
        assert i == 0
        en = STATE.engine
        k = z3.Const(en.fresh("popped"), zsort("str"))
        rest = z3.Const(en.fresh("rest"), z3.ArraySort(zsort("str"), z3.BoolSort()))
        old = self.names.arr
        en.assume(z3.And(z3.Select(old, k), z3.IsSubset(rest, old), z3.IsSubset(old, z3.Store(rest, k, True))))
        self.names.arr = rest
        return mk_stage(wrap("str", k))

    def __iter__(self):
        return iter([self])


def mk_stage(name):
    if bool(Eq(name, G.me.name)):
        return G.me
    return Obj(name=name, ixconfig=G.config(name))


def has(x, k):
    if type(x) is list:
        return Or(False, *[Eq(s.name, k) for s in x])
    if type(x) is Bag:
        return mem(k, x.names)
    return mem(k, x)


def sro_inv(v, pending=None):
    from pyvc.ctx import forall_key
    Y, S, T, M, n0 = G.Y, v.seen, v.todo, v.todo_mirrors, G.me.name
    late = pending or (lambda k, b: False)
    Mb, Tb = (lambda k: has(M, k)), (lambda k: has(T, k))
    out = [
        ("what was returned is remembered", forall_key("str", lambda k: Implies(mem(k, Y), mem(k, S)))),
        ("what is remembered was returned or is a scheduled mirror",
         forall_key("str", lambda k: Implies(mem(k, S), Or(mem(k, Y), Mb(k))))),
        ("scheduled mirrors are existing mirrors",
         forall_key("str", lambda k: Implies(Mb(k), And(mem(k, S), Not(mem(k, Y)), _p("exists", k), _p("mirror", k), _p("reach", k))))),
        ("other scheduled indexes are existing non-mirrors",
         forall_key("str", lambda k: Implies(Tb(k), Or(Eq(k, n0), And(_p("exists", k), Not(_p("mirror", k)), _p("reach", k)))))),
        ("only reachable indexes are returned",
         forall_key("str", lambda k: Implies(mem(k, Y), Or(Eq(k, n0), And(_p("exists", k), Not(_p("mirror", k)), _p("reach", k)))))),
        ("bases of returned indexes are not forgotten",
         forall_key("str", lambda k: forall_key("str", lambda b: Implies(
             And(mem(k, Y), edge(k, b)), Or(mem(b, S), Tb(b), late(k, b)))))),
        ("the index itself comes first",
         Or(mem(n0, Y), forall_key("str", lambda k: And(Not(mem(k, S)), Not(Mb(k)), Iff(Tb(k), Eq(k, n0)))))),
    ]
    return out


def arb(tag):
    from pyvc.sym import SymSet
    return SymSet(STATE.engine.fresh(tag), "str")


def sro_havoc(v):
    G.Y.arr = arb("returned").arr
    v.lp.cur["todo"] = Bag(arb("todo"))
    G.mirrors = v.lp.cur["todo_mirrors"] = Bag(arb("mirrors"))
    v.lp.cur["seen"] = arb("seen")


def bases_inv(v):
    st = v.stage
    return sro_inv(v, lambda k, b: And(Eq(k, st.name), Not(mem(b, v.visited)))) + [
        ("the current index was returned", mem(st.name, G.Y))]


def bases_havoc(v):
    v.todo.names.arr = arb("todo").arr
    v.todo_mirrors.names.arr = arb("mirrors").arr
    v.seen.arr = arb("seen").arr


SRO = "devpi_server.model:BaseStage.sro"


def sro_proof(c):
    import devpi_server.model as m
    from pyvc.ctx import forall_key

    def config(name):
        d = c.dict()
        d["type"] = "mirror" if _p("mirror", name) else "stage"
        d["bases"] = _bases(name)
        return d
    G.config, G.mirrors = config, None
    me = c.blank(m.BaseStage)
    G.me = me
    me.__dict__["name"] = n0 = c.str("name")
    me.__dict__["ixconfig"] = config(n0)
    model = Obj(getstage=lambda b: mk_stage(b) if _p("exists", b) else None)
    me.__dict__["xom"] = Obj(model=model, config=Obj(hook=Obj(devpiserver_sro_skip=lambda stage, base_stage: _p("skip", stage.name, base_stage.name))))
    c.patch(m, "threadlog", NullLog())
    c.assume(_p("exists", n0))
    c.assume(forall_key("str", lambda k: forall_key("str", lambda b: Implies(
        And(Or(Eq(k, n0), _p("reach", k)), edge(k, b)), _p("reach", b)))))
    from pyvc.sym import SymSet, zsort
    import z3
    G.Y = SymSet("nothing", "str", z3.K(zsort("str"), False))
    final = []

    def consume():
        for st in me.sro():
            if type(st) is Bag:
                final.append(st)
                continue
            c.ensures("no index is returned twice", And(Not(mem(st.name, G.Y)), Not(mem(st.name, G.mirrors.names))))
            c.ensures("no mirror among the others", Or(Eq(st.name, n0), Not(_p("mirror", st.name))))
            c.ensures("only existing indexes", _p("exists", st.name))
            G.Y.add(st.name)
    r = c.call(consume)
    c.ensures("no exception", r.ok, r)
    M = final[0].names if final else arb("never")
    c.ensures("the mirrors come last", len(final) == 1)
    c.ensures("the index itself is returned", mem(n0, G.Y))
    c.ensures("every reachable index is returned", forall_key("str", lambda k: forall_key("str", lambda b: Implies(
        And(mem(k, G.Y), edge(k, b)), Or(mem(b, G.Y), mem(b, M))))))
    c.ensures("only reachable ones", forall_key("str", lambda k: Implies(Or(mem(k, G.Y), mem(k, M)), Or(Eq(k, n0), _p("reach", k)))))


def sro_graph(c):
    import random
    import devpi_server.model as m
    rnd = random.Random(c.int("seed", 0, 10 ** 9))
    n = c.int("indexes", 1, 7)
    names = ["u/i%d" % i for i in range(n)]
    mirror = {x: rnd.random() < .3 for x in names}
    missing = {x: x != names[0] and rnd.random() < .1 for x in names}
    bases = {x: [] if mirror[x] else [rnd.choice(names) for _ in range(rnd.randint(0, 3))] for x in names}
    skip = {(a, b) for a in names for b in names if rnd.random() < .05}
    hook = Obj(devpiserver_sro_skip=lambda stage, base_stage: (stage.name, base_stage.name) in skip)

    class S(m.BaseStage):
        def __init__(self, name):
            self.__dict__.update(name=name, ixconfig=dict(type="mirror" if mirror[name] else "stage", bases=tuple(bases[name])),
                                 model=model, xom=Obj(config=Obj(hook=hook)))
        name = ixconfig = model = xom = None
    model = Obj(getstage=lambda x: None if missing[x] else S(x))
    got = [s.name for s in S(names[0]).sro()]
    dist = {names[0]: 0}
    level = [names[0]]
    while level:
        nxt = []
        for x in level:
            for b in bases[x]:
                if b not in dist and not missing[b] and (names[0], b) not in skip:
                    dist[b] = dist[x] + 1
                    if not mirror[b]:
                        nxt.append(b)
        level = nxt
    c.ensures("starts with the index itself", got[:1] == [names[0]])
    c.ensures("every reachable index exactly once", sorted(got) == sorted(dist), (got, dist))
    plain = [x for x in got[1:] if not mirror[x]]
    c.ensures("mirrors last", got[1:] == plain + [x for x in got[1:] if mirror[x]], got)
    c.ensures("nearest first", all(dist[a] <= dist[b] for a, b in zip(plain, plain[1:])), (got, dist))
    direct = [b for b in dict.fromkeys(bases[names[0]]) if b in dist and dist[b] == 1]
    c.ensures("bases in the configured order", [x for x in plain if dist[x] == 1] == [b for b in direct if not mirror[b]])
    c.ensures("mirrors too", [x for x in got[1:] if mirror[x] and dist[x] == 1] == [b for b in direct if mirror[b]] or
              any(mirror[x] and dist[x] != 1 for x in got))


@contract("I02", SRO, cross=600,
          loops={SRO + "#0": LoopSpec(sro_inv, havoc={}, havoc_state=sro_havoc, modifies=["seen", "todo", "todo_mirrors", "todo.names", "todo_mirrors.names"],
                                      modifies_objs=[lambda: G.Y, lambda: G.mirrors]),
                 SRO + "#1": LoopSpec(bases_inv, havoc={}, havoc_state=bases_havoc,
                                      modifies=["seen", "todo", "todo_mirrors", "todo.names", "todo_mirrors.names"])},
          assumed=["mirror indexes have no bases", "RootModel.getstage gives the index of that name or None"])
def sro(c):
    """the resolution order"""
    if c.concrete or c.bounded:
        sro_graph(c)
    else:
        sro_proof(c)


# ------------------------------------------------- what is merged from them

MERGE = ["devpi_server.model:BaseStage.list_versions", "devpi_server.model:BaseStage.get_versiondata",
         "devpi_server.model:BaseStage.get_simplelinks", "devpi_server.model:BaseStage.list_projects",
         "devpi_server.model:BaseStage.has_project", "devpi_server.model:BaseStage.op_sro",
         "devpi_server.model:BaseStage.get_latest_version", "devpi_server.model:apply_filter_iter"]


@contract("I02", MERGE, mode="concrete", cross=500, strict=True,
          bound="up to 5 generated contributions with up to 4 files each, with and without filters")
def merged(c):
    """merged answers contain exactly the contributions, the nearest one wins"""
    import random
    import devpi_server.model as m
    rnd = random.Random(c.int("seed", 0, 10 ** 9))
    n = c.int("indexes", 0, 5)
    files = ["pkg-1.0.tar.gz", "pkg-1.0.zip", "pkg-2.0.tar.gz", "pkg-1.1-py3-none-any.whl", "pkg-0.9.tar.gz", "pkg-3.0a1.zip"]
    vers = ["1.0", "2.0", "1.1", "0.9", "3.0a1"]
    stages = [Obj(name="u/i%d" % i) for i in range(n)]
    hidden = set(rnd.sample(files, rnd.randint(0, 2))) if c.flag("filter links") else None
    novers = set(rnd.sample(vers, rnd.randint(0, 2))) if c.flag("filter versions") else None
    noproj = {"secret"} if c.flag("filter projects") else None
    links = [[(f, "/u/i%d/+f/%s#sha256=%d" % (i, f, i), rnd.choice([None, ">=3"]), rnd.choice([None, "", "bad"]))
              for f in rnd.sample(files, rnd.randint(0, 4))] for i in range(n)]
    stale = [rnd.random() < .3 for _ in range(n)]
    versions = [frozenset(rnd.sample(vers, rnd.randint(0, 3))) for _ in range(n)]
    data = [{"name": "pkg", "version": "1.0", "from": i} if rnd.random() < .6 else {} for i in range(n)]
    projects = [frozenset(rnd.sample(["pkg", "other", "secret"], rnd.randint(0, 3))) for _ in range(n)]
    has = [rnd.choice([True, False, m.Unknown]) for _ in range(n)]
    args = []

    def flt(bad):
        return None if bad is None else (lambda items: (x not in bad for x in items))
    fl, fv, fp = flt(hidden), flt(novers), flt(noproj)

    class S(m.BaseStage):
        SimpleLinks = m.SimpleLinks
        ixconfig = {"type": "stage"}

        def __init__(self):
            pass
        customizer = Obj(
            get_simple_links_filter_iter=lambda project, ls: None if fl is None else (x.key not in hidden for x in ls),
            get_versions_filter_iter=lambda project, vs: None if fv is None else fv(vs),
            get_projects_filter_iter=lambda ps: None if fp is None else fp(ps))

        def sro(self):
            return iter(stages)

        def op_sro_check_mirror_whitelist(self, opname, **kw):
            args.append((opname, kw))
            src = dict(list_versions_perstage=versions, get_simplelinks_perstage=[m.SimpleLinks(x, stale=s) for x, s in zip(links, stale)],
                       get_versiondata_perstage=data)[opname]
            return zip(stages, src)
    for i, st in enumerate(stages):
        st.__dict__["list_projects_perstage"] = lambda i=i: projects[i]
        st.__dict__["has_project_perstage"] = lambda project, i=i: has[i]
    s = S()
    what = c.pick("what", ["links", "versions", "data", "projects", "has", "latest"])
    if what == "links":
        srt = c.flag("sorted")
        got = s.get_simplelinks("pkg", sorted_links=srt)
        want, seen = [], set()
        for ls in links:
            for x in ls:
                if x[0] not in seen and not (hidden and x[0] in hidden):
                    seen.add(x[0])
                    want.append(x)
        g = [(x.key, x.href, x.require_python, x.yanked) for x in got]
        c.ensures("every file once, taken from the nearest index", sorted(g, key=str) == sorted(want, key=str), (g, want))
        c.ensures("in the order they were found", srt or g == want)
        c.ensures("stale if any contribution is", bool(got.stale) == any(stale))
        if srt:
            from packaging.version import Version
            vs = [Version(x.version) for x in got]
            c.ensures("newest first", all(a >= b for a, b in zip(vs, vs[1:])), vs)
        c.ensures("for that project", args == [("get_simplelinks_perstage", dict(project="pkg"))])
    elif what in ("versions", "latest"):
        want = set().union(*versions) - (novers or set())
        if what == "versions":
            c.ensures("exactly the versions of the contributing indexes", set(s.list_versions("pkg")) == want)
        else:
            from packaging.version import Version
            stable = c.flag("stable")
            cand = [v for v in want if not stable or not Version(v).is_prerelease]
            got = s.get_latest_version("pkg", stable=stable)
            c.ensures("the newest of all versions", got == (max(cand, key=Version) if cand else None), (got, cand))
        c.ensures("for that project", args == [("list_versions_perstage", dict(project="pkg"))])
    elif what == "data":
        got = s.get_versiondata("pkg", "1.0")
        if novers and "1.0" in novers:
            c.ensures("nothing is known of a filtered version", not got)
            return
        found = [d for d in data if d]
        c.ensures("the nearest index decides", {k: v for k, v in got.items() if k != "+shadowing"} == (found[0] if found else {}))
        c.ensures("all others are named as shadowed", list(got.get("+shadowing", [])) == found[1:])
        c.ensures("for that project and version", args == [("get_versiondata_perstage", dict(project="pkg", version="1.0"))])
        c.ensures("the stored data is not changed", all("+shadowing" not in d for d in data))
    elif what == "projects":
        got = [(st, set(p)) for st, p in s.list_projects()]
        c.ensures("the projects of each index", got == [(st, set(p) - (noproj or set())) for st, p in zip(stages, projects)])
    else:
        got = s.has_project("pkg")
        first_ = next((h for h in has if h is m.Unknown or h), False)
        c.ensures("the first index which knows decides", got is first_ or got == first_)
        c.ensures("a filtered project does not exist", noproj is None or s.has_project("secret") is False)


MPROJ = {"pkg": "pkg", "Foo.Bar": "foo-bar"}


@contract(["I01", "I02"], [SRO, "devpi_server.model:BaseStage.op_sro_check_mirror_whitelist",
                           "devpi_server.model:BaseStage.get_mirror_whitelist_info",
                           "devpi_server.model:BaseStage.get_simplelinks", "devpi_server.model:BaseStage.list_versions",
                           "devpi_server.model:PrivateStage.normalize_indexconfig_value",
                           "devpi_server.mirror:MirrorStage.has_project_perstage",
                           "devpi_server.views:PyPIView.simple_list_project", "devpi_server.views:PyPIView.simple_list_all",
                           "devpi_server.views:PyPIView.project_get"],
          mode="concrete", cross=30, strict=True, bound="generated inheritance of 3 indexes and 2 mirrors on a real server, 6 configurations each")
def inheritance(c):
    import random
    import re
    from urllib.parse import urljoin
    from contracts import app
    rnd = random.Random(c.int("seed", 0, 10 ** 9))
    with app.server() as xom:
        cl = app.Client(xom)
        cl.user("joe")
        up = xom.upstream.table
        remote = {}
        for k in ("m1", "m2"):
            base = "http://%s.example/simple/" % k
            mine = [p for p in MPROJ if rnd.random() < .8]
            noproj = rnd.random() < .2
            up[base] = dict(text="".join('<a href="%s/">%s</a>\n' % (p, p) for p in mine))
            for p in mine:
                v = {"m1": "1.1", "m2": "1.2"}[k]
                fs = ["%s-%s.tar.gz" % (p, x) for x in (v, "5.0")]
                remote.setdefault("joe/" + k, {})[MPROJ[p]] = fs
                up[base + MPROJ[p] + "/"] = dict(
                    text="".join('<a href="../../files/%s">%s</a>\n' % (f, f) for f in fs), headers={})
            remote.setdefault("joe/" + k, {})
            cl.index("joe/" + k, type="mirror", mirror_url=base, **({"mirror_no_project_list": True} if noproj else {}))
            remote["joe/" + k]["no list"] = noproj
        private = {}
        for i in "abc":
            r = cl.index("joe/" + i, volatile=True)
            c.ensures("index created", r.status_code == 200, r.body)
            private["joe/" + i] = {}
        names = ["joe/a", "joe/b", "joe/c"]
        for rnd_no in range(6):
            cfg = {}
            for i in names:
                if rnd.random() < .3:
                    p = rnd.choice(list(MPROJ))
                    f = "%s-%s.tar.gz" % (p, rnd.choice(["1.0", "1.1", "2.%d" % rnd_no]))
                    r = cl.upload(i, "joe", f, b"content of " + f.encode() + i.encode(), p, f[len(p) + 1:-7])
                    c.ensures("uploaded", r.status_code == 200, r.body)
                    private[i].setdefault(MPROJ[p], []).append(f)
                    private[i][MPROJ[p]] = list(dict.fromkeys(private[i][MPROJ[p]]))
                bases = rnd.sample([x for x in names if x != i] + ["joe/m1", "joe/m2"], rnd.randint(0, 3))
                wl = rnd.choice([[], [], ["*"], ["pkg"], ["Foo_Bar"], ["other"], ["pkg", "foo.bar"]])
                mode = rnd.choice(MODES)
                r = cl.req("PATCH", "/" + i, "joe", json=["bases=" + ",".join(bases), "mirror_whitelist=" + ",".join(wl),
                                                          "mirror_whitelist_inheritance=" + mode])
                c.ensures("configured", r.status_code == 200, r.body)
                cfg[i] = (bases, {re.sub(r"[-_.]+", "-", x).lower() for x in wl}, mode)

            def order(i):
                todo, out, mirrors = [i], [], []
                while todo:
                    x = todo.pop(0)
                    if x in out:
                        continue
                    out.append(x)
                    for b in cfg[x][0] if x in cfg else ():
                        if b in remote:
                            if b not in mirrors:
                                mirrors.append(b)
                        elif b not in out:
                            todo.append(b)
                return out, mirrors

            def want_links(i, p):
                plain, mirrors = order(i)
                mode = cfg[i][2]
                comb, white, hit = None, False, False
                out = {}
                for x in plain:
                    w = cfg[x][1]
                    comb = w if comb is None else (comb | w if mode == "union" else comb & w)
                    if comb & {"*", p}:
                        white = True
                    elif p in private[x]:
                        hit = True
                    for f in private[x].get(p, ()):
                        out.setdefault(f, x)
                for mi in mirrors:
                    if hit and not white:
                        continue
                    if remote[mi]["no list"] and hit and (mi, p) not in known:
                        continue
                    for f in remote[mi].get(p, ()):
                        out.setdefault(f, mi)
                return out, hit and not white
            known = set()

            def links(i, n, r):
                out = {}
                for h in re.findall(r'href="([^"#]+)', r.text):
                    parts = urljoin("/%s/+simple/%s/" % (i, n), h).split("/")
                    out[parts[-1]] = "/".join(parts[1:3])
                return out
            for i in rnd.sample(names, 3):
                plain, mirrors = order(i)
                r = cl.req("GET", "/%s/+simple/" % i, headers={"Accept": "text/html", "User-Agent": "pip/20"})
                got = [h.strip("/").rsplit("/", 1)[-1] for h in re.findall(r'<a href="([^"]+)"', r.text)]
                want = {p for x in plain for p in private[x]}
                loose = {p for x in mirrors for p in remote[x] if p != "no list" and remote[x]["no list"]}
                want |= {p for x in mirrors for p in remote[x] if p != "no list" and not remote[x]["no list"]}
                c.ensures("the projects of all inherited indexes, each once", len(set(got)) == len(got) and want <= set(got) <= want | loose,
                          (i, cfg, got, want))
                for p, n in MPROJ.items():
                    want, blocked = want_links(i, n)
                    r = cl.req("GET", "/%s/+simple/%s/" % (i, n), headers={"Accept": "text/html", "User-Agent": "pip/20"})
                    got = links(i, n, r)
                    loose = any(remote[mi]["no list"] for mi in order(i)[1])
                    if not loose:
                        c.ensures("exactly the files of the indexes which may contribute, nearest first", got == want, (i, n, cfg, got, want, r.text))
                    bad = {f: x for f, x in got.items() if x in remote}
                    c.ensures("a private project is never mixed with releases of a mirror", not (blocked and bad), (i, n, cfg, bad))
                    if p == "Foo.Bar":
                        r = cl.req("GET", "/%s/+simple/%s/" % (i, p), headers={"Accept": "text/html", "User-Agent": "pip/20"})
                        c.ensures("however it is spelled", r.status_code in (301, 302) or got == links(i, n, r), r.status)
                    r = cl.req("GET", "/%s/%s" % (i, n))
                    vs = set(r.json["result"]) if r.status_code == 200 else set()
                    if not loose:
                        c.ensures("and exactly their versions", vs == {f.rsplit("-", 1)[1][:-7] for f in want}, (i, n, vs, want))
                    with xom.keyfs.read_transaction():
                        st = xom.model.getstage(i)
                        info = st.get_mirror_whitelist_info(n)
                        mirror_links = [x for x in bad]
                        if info["blocked_by_mirror_whitelist"]:
                            c.ensures("what is reported as withheld is not served", not mirror_links, (info, bad))
