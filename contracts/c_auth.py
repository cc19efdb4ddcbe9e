"""authentication contracts (auth.py, auth_basic.py, auth_devpi.py)"""
import itsdangerous
from pyvc.ctx import contract, And, Or, Not, Implies, Iff, Eq, mem, length, LoopSpec
from contracts.mocks import Obj, Raiser


def mk_auth(c, serializer=None, hook=None, legacy=None, users=None):
    from devpi_server.auth import Auth
    a = Auth.__new__(Auth)
    a.xom = Obj(model=Obj(get_user=users or (lambda n: None)))
    a.serializer = serializer
    a.hook = hook
    a.legacy_hook = legacy
    return a


# the serializer (itsdangerous.TimedSerializer) is the trusted oracle: loads()
# either raises or returns a value this server signed not longer than max_age
# ago.  Every possible signed value is enumerated by the precondition.

def token_value(c):
    k = c.pick("shape", ["list", "str", "int", "none", "dict"])
    if k == "str":
        return c.str("tok")
    if k == "int":
        return c.int("tok")
    if k == "none":
        return None
    if k == "dict":
        return c.dict()
    n = c.pick("n", [0, 1, 2, 3, 4])
    val = []
    if n >= 1:
        val.append(c.str("tok_user"))
    if n >= 2:
        val.append(c.pick("groups", [[], ["g"], ["g", "h"]]))
    if n >= 3:
        val.append(c.bool("from_user_object"))
    if n >= 4:
        val.append(c.int("extra"))
    return val


@contract("A01", "devpi_server.auth:Auth._get_auth_status",
          covers=["ok", "expired", "fallback", "rejected"],
          assumed=["itsdangerous.TimedSerializer.loads(s, max_age) returns only values signed with this server's "
                   "secret at most max_age seconds ago; SignatureExpired for older ones; BadData otherwise"])
def auth_status_token(c):
    import devpi_server.auth as m
    authuser = c.str("authuser")
    password = c.str("authpassword")
    outcome = c.pick("loads", ["value", "expired", "bad"])
    exists = c.flag("user_exists")
    calls = []
    val = token_value(c) if outcome == "value" else None

    def loads(s, **kw):
        calls.append((s, kw))
        if outcome == "expired":
            raise itsdangerous.SignatureExpired("x")
        if outcome == "bad":
            raise itsdangerous.BadSignature("x")
        return val
    validated = []
    sentinel = c.dict(status="reject")

    def validate(u, p, request=None):
        validated.append((u, p))
        return sentinel

    def get_user(name):
        queried.append(name)
        return Obj() if exists else None
    queried = []
    a = mk_auth(c, Obj(loads=loads), users=get_user)
    c.patch(a, "_validate", validate)
    r = c.call(a._get_auth_status, authuser, password)
    c.ensures("no exception", r.ok, r)
    c.ensures("the signature and age are checked on the presented credential",
              len(calls) >= 1 and And(*[Eq(s, password) for s, kw in calls]))
    c.ensures("tokens live at most the advertised ten hours",
              all(kw.get("max_age") is not None and 0 < kw["max_age"] <= 36000 and
                  kw["max_age"] <= m.Auth.LOGIN_EXPIRATION for s, kw in calls))
    st = r.value["status"]
    if outcome == "expired":
        c.cover("expired")
        c.ensures("an expired token never authenticates", And(Not(Eq(st, "ok")), not validated))
    elif outcome == "bad":
        c.cover("fallback")
        c.ensures("a non-token credential is decided by password validation of the same user and password",
                  len(validated) == 1 and And(Eq(validated[0][0], authuser), Eq(validated[0][1], password)))
        c.ensures("and its verdict is returned", r.value is sentinel)
    else:
        good = (isinstance(val, list) and len(val) == 3)
        ok = False
        if good:
            ok = And(Eq(val[0], authuser), Or(Not(val[2]), exists))
        c.ensures("a token authenticates exactly its own user", Iff(Eq(st, "ok"), ok))
        c.ensures("a token is never tried as a password", not validated)
        if r.value["status"] == "ok":
            c.cover("ok")
            c.ensures("groups are those recorded in the token", good and r.value["groups"] is val[1])
            c.ensures("account existence is checked for the token's user",
                      And(*[Eq(q, authuser) for q in queried]))
        else:
            c.cover("rejected")


@contract("A01", "devpi_server.auth:Auth.new_proxy_auth", covers=["issued", "refused"],
          assumed=["itsdangerous.TimedSerializer.dumps is an injective signed encoding"])
def new_proxy_auth(c):
    username = c.str("username")
    password = c.str("password")
    status = c.pick("status", ["ok", "reject", "nouser", "expired", "unknown"])
    d = c.dict(status=status)
    groups = None
    if c.flag("has_groups"):
        groups = c.pick("groups", [[], ["a"], ["a", "b"]])
        d["groups"] = groups
    fuo = None
    if c.flag("has_fuo"):
        fuo = c.flag("fuo")
        d["from_user_object"] = fuo
    dumped = []

    def dumps(v):
        dumped.append(v)
        return "TOKEN"
    seen = []

    def validate(u, p, request=None):
        seen.append((u, p))
        return d
    a = mk_auth(c, Obj(dumps=dumps))
    c.patch(a, "_validate", validate)
    r = c.call(a.new_proxy_auth, username, password)
    c.ensures("no exception", r.ok, r)
    c.ensures("credentials are validated", len(seen) == 1 and And(Eq(seen[0][0], username), Eq(seen[0][1], password)))
    if status != "ok":
        c.cover("refused")
        c.ensures("no token without successful validation", r.value is None and not dumped)
    else:
        c.cover("issued")
        c.ensures("one token", len(dumped) == 1 and len(dumped[0]) == 3)
        t = dumped[0]
        c.ensures("token names the validated user", Eq(t[0], username))
        c.ensures("token groups are the validated groups", t[1] == (groups or []))
        c.ensures("token records whether the account is the server's own", bool(t[2]) == bool(fuo))
        c.ensures("token is returned with its lifetime",
                  r.value["password"] == "TOKEN" and r.value["expiration"] == a.LOGIN_EXPIRATION)


@contract("A02", "devpi_server.auth:Auth._legacy_auth", covers=["root", "reject", "ok", "none", "error"], cross=80)
def legacy_auth(c):
    import devpi_server.auth as m
    from pyvc.ctx import exists_in
    is_root = c.flag("is_root")
    authuser, password = c.str("user"), c.str("password")
    fails = c.flag("plugin_error")
    if c.proof:
        def rec(e):
            from pyvc.sym import SymSet, zsort
            from pyvc.core import uf
            import z3
            arr = uf("plugin.groups", z3.IntSort(), z3.ArraySort(z3.StringSort(), z3.BoolSort()))(e.idx)
            return c.dict(status=e.str("status"), groups=SymSet("groups", "str", arr))
    else:
        def rec(e):
            d = c.dict(status=c.str("%s[%s].status" % (e.name, e.j), ["ok", "ok", "unknown", "reject", "nouser"]))
            if c.flag("has_groups"):
                d["groups"] = [c.str("g", ["g1", "g2"]) for i in range(c.pick("ng", [0, 1, 2]))]
            return d
    results = c.seq("plugin", rec)
    called = []

    def hook(**kw):
        called.append(kw)
        if fails:
            raise m.AuthException("x")
        return results
    a = mk_auth(c, legacy=hook)
    user = Obj(get=lambda **kw: {"username": "x"}) if c.flag("user_exists") else None
    r = c.call(a._legacy_auth, authuser, password, is_root, user)
    c.ensures("no exception", r.ok, r)
    if is_root:
        c.cover("root")
        c.ensures("root is never authenticated by plugins", r.value is None and not called)
        return
    c.ensures("plugins get the presented credentials",
              len(called) == 1 and And(Eq(called[0]["username"], authuser), Eq(called[0]["password"], password)))
    if fails:
        c.cover("error")
        c.ensures("a failing plugin does not authenticate", r.value is not None and r.value["status"] != "ok")
        return
    bad = exists_in(results, lambda x: And(x["status"] != "unknown", x["status"] != "ok"))
    good = exists_in(results, lambda x: Eq(x["status"], "ok"))
    if r.value is None:
        c.cover("none")
        c.ensures("undecided only if no plugin has an opinion", And(Not(bad), Not(good)))
    elif r.value["status"] == "ok":
        c.cover("ok")
        c.ensures("ok needs an accepting plugin and no rejecting one", And(good, Not(bad)))
        g = c.str("g0", ["g1", "g2"])
        member = mem(g, r.value["groups"]) if not c.proof else mem(g, r.value["groups"].members)
        want = exists_in(results, lambda x: And(Eq(x["status"], "ok"), mem(g, x.get("groups", []))))
        c.ensures("groups are exactly the union of the accepting plugins' groups", Iff(member, want))
    else:
        c.cover("reject")
        c.ensures("rejected iff some plugin rejects", And(bad, r.value["status"] == "reject"))


@contract("A02", "devpi_server.auth:Auth._validate",
          covers=["plugin ok", "plugin reject", "legacy", "nouser", "own ok", "own reject"], cross=100)
def validate(c):
    authuser = c.str("user", ["root", "joe", "root ", "ROOT"])
    password = c.str("password")
    exists = c.flag("user_exists")
    plugin = None
    if c.flag("plugin_answers"):
        plugin = c.dict(status=c.str("pstatus", ["ok", "reject", "unknown"]))
        if c.flag("plugin_groups"):
            plugin["groups"] = ["g"]
        if c.flag("plugin_fuo"):
            plugin["from_user_object"] = c.flag("plugin_fuo_value")
    legacy = None
    if c.flag("legacy_answers"):
        legacy = c.dict(status=c.str("lstatus", ["ok", "reject", "nouser"]))
        if c.flag("legacy_fuo"):
            legacy["from_user_object"] = True
    valid = c.flag("password_valid")
    hooks, legs, vals, got = [], [], [], []

    def hook(**kw):
        hooks.append(kw)
        return plugin

    def uvalidate(p):
        vals.append(p)
        return valid
    user = Obj(validate=uvalidate, get=lambda credentials=False: {}) if exists else None

    def get_user(n):
        got.append(n)
        return user

    def leg(u, p, is_root, userobj):
        legs.append((u, p, is_root, userobj))
        # contract of _legacy_auth: None for root, else any verdict
        if is_root:
            return None
        return legacy
    a = mk_auth(c, hook=hook, users=get_user)
    c.patch(a, "_legacy_auth", leg)
    req = Obj() if c.flag("has_request") else None
    r = c.call(a._validate, authuser, password, request=req)
    c.ensures("no exception", r.ok, r)
    v = r.value
    is_root = bool(authuser == "root")
    c.ensures("the account looked up is the presented one", len(got) >= 1 and And(*[Eq(g, authuser) for g in got]))
    c.ensures("root is never decided by plugins",
              Implies(is_root, And(not hooks, And(*[Eq(x[2], True) for x in legs]))))
    c.ensures("plugins see exactly the presented credentials",
              And(*[And(Eq(h["username"], authuser), Eq(h["password"], password)) for h in hooks]))
    c.ensures("legacy plugins see exactly the presented credentials",
              And(*[And(Eq(x[0], authuser), Eq(x[1], password), x[2] == is_root) for x in legs]))
    c.ensures("only the presented password is checked against the account", And(*[Eq(p, password) for p in vals]))
    if not is_root and plugin is not None:
        ok = plugin["status"] == "ok"
        c.ensures("a plugin verdict is final", (v["status"] == "ok") if ok else (v["status"] != "ok"))
        c.ensures("plugin verdicts are never passed off as the server's own account", not v.get("from_user_object"))
        if v["status"] == "ok":
            c.cover("plugin ok")
            c.ensures("plugin groups kept", v.get("groups") == plugin.get("groups"))
        else:
            c.cover("plugin reject")
        return
    if not is_root and legacy is not None:
        c.cover("legacy")
        c.ensures("a legacy plugin verdict is final", Eq(v["status"], legacy["status"]))
        c.ensures("legacy verdicts are never passed off as the server's own account", not v.get("from_user_object"))
        return
    if not exists:
        c.cover("nouser")
        c.ensures("unknown users are not authenticated", v["status"] != "ok")
    elif valid:
        c.cover("own ok")
        c.ensures("the right password authenticates, recorded as own account",
                  v["status"] == "ok" and bool(v.get("from_user_object")) and not v.get("groups"))
        c.ensures("the password was really checked", len(vals) == 1)
    else:
        c.cover("own reject")
        c.ensures("a wrong password does not", v["status"] != "ok")
