"""index and user permissions (model.py, view_auth.py)"""
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem
from pyvc.core import STATE
from contracts import app
from contracts.mocks import Obj, CM, NullLog

EVERYONE, AUTHENTICATED = "system.Everyone", "system.Authenticated"
PERMS = ("pkg_read", "toxresult_upload", "upload", "index_delete", "index_modify",
         "del_entry", "del_project", "del_verdata")
POOL = ["root", "joe", "ann", ":dev", ":ANONYMOUS:", ":AUTHENTICATED:", EVERYONE, AUTHENTICATED, "+replica"]


class Cur:
    g = None      # one arbitrary principal
    acl = None    # what the loop started from


class Acl:
    """arbitrary access list built by a loop; known by what it says about Cur.g"""

    def __init__(self, has):
        for p, v in has.items():
            setattr(self, "has_" + p, v)

    def grants(self, perm):
        return getattr(self, "has_" + perm, False)

    def append(self, entry):
        action, principal, perm = entry
        if action == "Allow":
            setattr(self, "has_" + perm, Or(self.grants(perm), Eq(principal, Cur.g)))
        else:
            raise NotImplementedError

    def extend(self, entries):
        for e in entries:
            self.append(e)

    def __iter__(self):
        return iter([("Allow", self, None)])


def allows(acl, perm):
    """does the list contain a grant of perm to Cur.g"""
    if isinstance(acl, Acl):
        return acl.grants(perm)
    out = []
    for e in acl:
        if isinstance(e[1], Acl):
            out.append(e[1].grants(perm))
        elif e[0] == "Allow" and e[2] == perm:
            out.append(Eq(e[1], Cur.g))
    return Or(*out) if out else False


def fresh_acl(perms):
    from pyvc.core import SymBool
    import z3
    return Acl({p: SymBool(z3.Bool(STATE.engine.fresh("acl." + p))) for p in perms})


def principals_of(s, g):
    """membership of g in what an access list means: the two special names stand
    for everyone and for all who are logged in"""
    return Or(And(Eq(g, EVERYONE), mem(":ANONYMOUS:", s)),
              And(Eq(g, AUTHENTICATED), mem(":AUTHENTICATED:", s)),
              And(Not(Eq(g, ":ANONYMOUS:")), Not(Eq(g, ":AUTHENTICATED:")), mem(g, s)))


@contract("A03", "devpi_server.model:get_principals", cross=60)
def principals(c):
    import devpi_server.model as m
    s = c.set("acl", pool=POOL)
    g = c.str("g", POOL)
    before = principals_of(s, g)
    has = mem(g, s)
    r = c.call(m.get_principals, s)
    c.ensures("no exception", r.ok, r)
    c.ensures("exactly the listed users and groups, special names resolved", Iff(mem(g, r.value), before))
    c.ensures("the stored list is not changed", Iff(mem(g, s), has))


CUSTOMIZERS = ["private", "mirror", "unknown"]


def mk_customizer(c, ixconfig, owner, hooks, primary=True):
    import devpi_server.model as m
    cls = {"private": m.PrivateStage, "base": m.BaseStageCustomizer}["base"]
    stage = Obj(ixconfig=ixconfig, username=owner, name="o/i",
                xom=Obj(config=Obj(hook=hooks), is_primary=lambda: primary, is_replica=lambda: not primary))
    if c.param == "unknown":
        cls = m.UnknownCustomizer
    return c.blank(cls, stage=stage, hooks=hooks), stage


def mk_restrict(c):
    return c.set("restrict_modify", pool=POOL) if c.flag("restricted") else None


@contract("A03", ["devpi_server.model:BaseStageCustomizer.get_principals_for_pkg_read",
                  "devpi_server.model:BaseStageCustomizer.get_principals_for_upload",
                  "devpi_server.model:BaseStageCustomizer.get_principals_for_toxresult_upload",
                  "devpi_server.model:BaseStageCustomizer.get_principals_for_index_delete",
                  "devpi_server.model:BaseStageCustomizer.get_principals_for_del_entry"],
          params=["known", "unknown"], cross=120,
          assumed=["plugins answer devpiserver_stage_get_principals_for_pkg_read with None or names"])
def stage_principals(c):
    """every permission of an index names exactly the documented users and groups"""
    g = c.str("g", POOL)
    owner = c.str("owner", ["joe", "ann", "root"])
    cfg = c.dict()
    upload = tox = None
    if c.flag("has acl_upload"):
        cfg["acl_upload"] = upload = c.set("acl_upload", pool=POOL)
    if c.flag("has acl_toxresult_upload"):
        cfg["acl_toxresult_upload"] = tox = c.set("acl_toxresult_upload", pool=POOL)
    restrict = mk_restrict(c)
    read = c.set("pkg_read", pool=POOL) if c.flag("plugin decides reading") else None
    primary = c.flag("primary")
    asked = []

    def hook(ixconfig):
        asked.append(ixconfig)
        return read
    cust, stage = mk_customizer(c, cfg, owner, Obj(devpiserver_stage_get_principals_for_pkg_read=hook), primary)
    in_restrict = mem(g, restrict) if restrict is not None else False
    in_upload = mem(g, upload) if upload is not None else False
    in_tox = mem(g, tox) if tox is not None else Eq(g, ":ANONYMOUS:")
    in_read = mem(g, read) if read is not None else Eq(g, ":ANONYMOUS:")
    admin = in_restrict if restrict is not None else Eq(g, "root")
    modify = in_restrict if restrict is not None else Or(Eq(g, "root"), Eq(g, owner))
    want = dict(
        pkg_read=Or(in_read, admin, And(primary, Eq(g, "+replica"))),
        upload=in_upload, toxresult_upload=in_tox,
        index_delete=modify, index_modify=modify,
        del_entry=Or(in_upload, modify), del_project=Or(in_upload, modify), del_verdata=Or(in_upload, modify))
    perm = c.pick("permission", PERMS)
    if c.param == "unknown" and perm not in ("pkg_read", "index_delete"):
        want[perm] = False
    r = c.call(getattr(cust, "get_principals_for_" + perm), restrict_modify=restrict)
    c.ensures("no exception", r.ok, r)
    c.ensures("the permission is granted to exactly those it is meant for", Iff(mem(g, r.value), want[perm]))
    if upload is not None:
        c.ensures("the configuration is not changed", Iff(mem(g, upload), in_upload))
    if tox is not None:
        c.ensures("nor the list for test results", Iff(mem(g, tox), in_tox))
    if restrict is not None:
        c.ensures("nor the server's restriction", Iff(mem(g, restrict), in_restrict))


def acl_inv(v):
    out = []
    perm, src = Cur.perm, Cur.src
    for p in set(PERMS) | {"pypi_submit"}:
        acl = v.acl
        base = Cur.base.get(p)
        name = "upload" if p == "pypi_submit" else p
        if name in Cur.done:
            want = base_want(p)
        elif name == Cur.perm:
            want = Or(False, mem(Cur.g, v.visited))
        else:
            want = False
        out.append(("grants so far for " + p, Iff(allows(acl, p), want)))
    return out


def base_want(p):
    return Cur.want["upload" if p == "pypi_submit" else p]


@contract("A03", "devpi_server.model:BaseStage.__acl__", cross=60,
          loops={"devpi_server.model:BaseStage.__acl__#1": LoopSpec(
              acl_inv, havoc={"acl": lambda v: fresh_acl(list(PERMS) + ["pypi_submit"])},
              modifies=["acl"])})
def stage_acl(c):
    """the access list of an index grants every permission to exactly the principals
    its customizer names for it"""
    import devpi_server.model as m
    Cur.g = c.str("g", POOL)
    Cur.base, Cur.src = {}, None
    restrict = c.set("restrict", pool=POOL)
    Cur.done = []
    Cur.perm = None
    sets = {p: c.set("for_" + p, pool=POOL) for p in PERMS}
    Cur.want = {p: mem(Cur.g, s) for p, s in sets.items()}
    passed = []

    def method(p):
        def get(restrict_modify=None):
            passed.append(restrict_modify)
            if Cur.perm is not None:
                Cur.done.append(Cur.perm)
            Cur.perm = p
            return sets[p]
        return get
    cust = Obj(**{"get_principals_for_" + p: method(p) for p in PERMS})
    stage = c.blank(m.PrivateStage, customizer=cust, xom=Obj(config=Obj(restrict_modify=restrict)))
    c.patch(m, "get_principals", lambda v: v)
    r = c.call(stage.__acl__)
    c.ensures("no exception", r.ok, r)
    c.ensures("the restriction of the server is passed on", all(x is restrict for x in passed))
    for p in PERMS:
        c.ensures("exactly the named principals get " + p, Iff(allows(r.value, p), Cur.want[p]))
    c.ensures("the old name of upload means upload", Iff(allows(r.value, "pypi_submit"), Cur.want["upload"]))


USER_PERMS = ("user_create", "user_modify", "user_delete", "index_create")


def root_acl_inv(v):
    g, u, acl = Cur.g, Cur.username, v.acl
    inl = mem(g, v.visited)
    has_user = Cur.has_user
    return [
        ("creation", Iff(allows(acl, "user_create"), inl)),
        ("modification", Iff(allows(acl, "user_modify"), inl)),
        ("index creation", Iff(allows(acl, "index_create"), inl)),
        ("deletion", Iff(allows(acl, "user_delete"), And(inl, has_user, Not(Eq(g, u)) if has_user else False))),
        ("login", Iff(allows(acl, "user_login"), Eq(g, EVERYONE))),
    ]


@contract("A03", "devpi_server.view_auth:RootFactory.__acl__", cross=150,
          loops={"devpi_server.view_auth:RootFactory.__acl__#0": LoopSpec(
              root_acl_inv, havoc={"acl": lambda v: fresh_acl(USER_PERMS + ("user_login",))},
              modifies=["acl"], modifies_objs=[lambda: Cur.rf])},
          covers=["restricted", "open", "denied"],
          assumed=["devpiserver_auth_denials plugins return sets of (principal, permission) pairs"])
def root_acl(c):
    """permissions on users and the creation of indexes"""
    import devpi_server.view_auth as m
    Cur.g = g = c.str("g", POOL)
    restrict = c.set("restrict", pool=POOL) if c.flag("restricted") else None
    in_restrict = mem(g, restrict) if restrict is not None else False
    kind = c.pick("target", ["none", "root", "user"])
    username = None
    if kind == "root":
        username = "root"
    elif kind == "user":
        username = c.str("username", ["joe", "ann", ":dev", "x"])
        c.assume(And(Not(Eq(username, "root")), Not(Eq(username, ""))))
    Cur.username, Cur.has_user = username, username is not None
    stage = None
    stage_perm = None
    entries = []
    if username is not None and c.flag("stage"):
        for j in range(c.pick("stage entries", [0, 1])):
            entries.append(("Allow", c.str("sp", POOL), c.pick("perm", PERMS[1:4])))
        stage = Obj(**{"__acl__": lambda: list(entries)})
    denials = []
    if c.flag("plugin"):
        for j in range(c.pick("plugins", [0, 2])):
            s = c.newset([])
            for k in range(c.pick("denials", [0, 1])):
                s.add((c.str("dp", POOL), c.pick("dperm", ("user_delete", "upload"))))
            denials.append(s)
    asked = []

    def hook(request, acl, user, stage):
        asked.append((acl, user, stage))
        return denials
    user = Obj() if username is not None else None
    req = Obj()
    rf = c.blank(m.RootFactory, request=req, restrict_modify=restrict, hook=Obj(devpiserver_auth_denials=hook),
                 context=Obj(username=username, index="i" if stage is not None else None),
                 xom=Obj(model=Obj(get_user=lambda n: user, getstage=lambda u, i: stage)))
    Cur.rf = rf    # caches the parts of the request it looked at
    r = c.call(lambda: rf.__acl__)
    c.ensures("no exception", r.ok, r)
    acl = r.value
    self_ = Eq(g, username) if username is not None else False
    root = Eq(g, "root")
    named = username is not None
    if restrict is not None:
        c.cover("restricted")
        want = dict(user_create=in_restrict, user_modify=in_restrict, index_create=in_restrict,
                    user_delete=And(in_restrict, named, Not(self_)))
    else:
        c.cover("open")
        want = dict(user_create=Eq(g, EVERYONE), user_modify=Or(root, self_), index_create=Or(root, self_),
                    user_delete=And(kind == "user", Or(root, self_)))
    for p in USER_PERMS:
        c.ensures("exactly the right ones get " + p, Iff(allows(acl, p), want[p]))
    c.ensures("everyone may try to log in", Iff(allows(acl, "user_login"), Eq(g, EVERYONE)))
    for p in PERMS:
        c.ensures("permissions on the index are those of the index: " + p,
                  Iff(allows(acl, p), Or(False, *[Eq(e[1], g) for e in entries if e[2] == p])))
    c.ensures("plugins are asked about this user and index", len(asked) == 1 and
              asked[0][1] is user and asked[0][2] is stage)
    # first match decides: denials come before every grant
    nden = 0
    for e in acl:
        if e[0] == "Deny":
            nden += 1
        else:
            break
    c.ensures("no denial after a grant", all(e[0] == "Allow" for e in acl[nden:]))
    every = [d for s in denials for d in s]
    if every:
        c.cover("denied")
    for d in every:
        c.ensures("every denial counts", Or(False, *[And(Eq(e[1], d[0]), e[2] == d[1]) for e in acl[:nden]]))
    for e in acl[:nden]:
        c.ensures("and no other", Or(False, *[And(Eq(e[1], d[0]), e[2] == d[1]) for d in every]))


@contract("A03", "devpi_server.view_auth:DevpiSecurityPolicy.permits", cross=80,
          covers=["anonymous", "user"],
          assumed=["pyramid.authorization.ACLHelper.permits: the first entry of the access list whose principal "
                   "is among the given ones and which names the permission decides; no entry denies"])
def permits(c):
    """the principals of a request are its user and the user's groups, nothing else"""
    import devpi_server.view_auth as m
    g = c.str("g", POOL)
    identity = None
    gname = c.str("group", ["dev", "adm", "root", ""])
    if c.flag("logged in"):
        identity = Obj(username=c.str("username", ["root", "joe"]), groups=c.seq("groups", lambda e: e.str("name")))
    calls = []
    verdict = object()

    class Helper:
        def permits(self, context, principals, permission):
            calls.append((context, principals, permission))
            return verdict
    c.patch(m, "ACLHelper", Helper)
    wrapped = c.flag("context is a stage")
    ctx = c.blank(m.RootFactory, request=None) if not wrapped else Obj(_name="stage")
    made = []

    class RF(m.RootFactory):
        def __init__(self, request, context=None):
            made.append((request, context))
    if wrapped:
        c.patch(m, "RootFactory", RF)
    req = Obj(identity=identity)
    perm = c.str("permission", ["upload", "user_delete"])
    pol = c.blank(m.DevpiSecurityPolicy)
    r = c.call(pol.permits, req, ctx, perm)
    c.ensures("no exception", r.ok, r)
    c.ensures("the verdict of the access list is returned", r.value is verdict and len(calls) == 1)
    got, principals, p = calls[0]
    c.ensures("for the permission asked for", Eq(p, perm))
    if wrapped:
        c.ensures("on the object asked about", len(made) == 1 and made[0][0] is req and made[0][1] is ctx and type(got) is RF)
    else:
        c.ensures("on the object asked about", got is ctx)
    if identity is None:
        c.cover("anonymous")
        c.ensures("nobody is nobody", Iff(mem(g, principals), Eq(g, EVERYONE)))
    else:
        c.cover("user")
        from pyvc.ctx import exists_in
        base = Or(Eq(g, EVERYONE), Eq(g, AUTHENTICATED), Eq(g, identity.username))
        c.ensures("the user and the user's groups",
                  Iff(mem(g, principals), Or(base, exists_in(identity.groups, lambda x: Eq(g, ":" + x)))))
