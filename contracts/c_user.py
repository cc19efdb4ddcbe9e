"""user accounts (model.py, auth.py, auth_basic.py, auth_devpi.py, view_auth.py)"""
import base64
from pyvc.ctx import contract, LoopSpec, And, Or, Not, Implies, Iff, Eq, mem, forall_key
from pyvc.core import STATE
from contracts import app, real
from contracts.mocks import Obj, CM, NullLog

HIDDEN = ("password", "pwhash", "pwsalt")
PUBLIC = ("custom_data", "description", "email", "title")
INFO = ("created", "modified")
SHOWN = PUBLIC + INFO + ("indexes", "username")
KEYS = list(HIDDEN + SHOWN) + ["legacy", "token", "Password"]


class Cur:
    d0 = None


def get_inv(v):
    def f(k):
        gone = And(mem(k, v.visited), Not(Or(*[Eq(k, s) for s in SHOWN])))
        return And(Iff(mem(k, v.d), And(mem(k, Cur.d0), Not(gone))))
    return [("keys left", forall_key("str", f) if STATE.engine is not None and STATE.engine.mode == "proof" else True)]


@contract("A05", "devpi_server.model:User.get", cross=80, covers=["empty", "credentials", "public"],
          loops={"devpi_server.model:User.get#0": LoopSpec(
              get_inv, modifies_objs=[lambda: Cur.d], havoc_state=lambda v: Cur.havoc())},
          assumed=["get_mutable_deepcopy returns an equal copy that shares nothing (contract deepcopy of S05)"])
def user_get(c):
    """whatever a stored account contains, only the public fields are shown"""
    import devpi_server.model as m
    d = c.map("record", "str", "str") if not c.native() else {c.str("key", KEYS): "value" for i in range(4)}
    Cur.d0 = d.copy()
    g = c.str("g", KEYS)
    had = mem(g, Cur.d0)
    Cur.d = d

    def havoc():
        from pyvc.sym import SymMap
        n = SymMap(STATE.engine.fresh("d"), "str", "str")
        d.__dict__.update({k: x for k, x in n.__dict__.items() if k in ("has_", "val", "memo")})
    Cur.havoc = havoc
    c.patch(m, "get_mutable_deepcopy", lambda x: x)
    u = c.blank(m.User, name=c.str("name", ["joe"]), keyfs=Obj(USER=lambda user: Obj(get=lambda: d)))
    cred = c.flag("credentials")
    empty = Not(mem(g, d)) if False else None
    del empty
    r = c.call(u.get, credentials=cred)
    c.ensures("no exception", r.ok, r)
    if not r.value:
        c.cover("empty")
        c.ensures("nothing known, nothing shown", Not(had))
        return
    if cred:
        c.cover("credentials")
        c.ensures("explicitly everything", Implies(had, mem(g, r.value)))
    else:
        c.cover("public")
        c.ensures("never the password, its hash or salt, nor anything else that is not public",
                  Implies(mem(g, r.value), Or(*[Eq(g, s) for s in SHOWN])))
        c.ensures("all public fields", Implies(And(had, Or(*[Eq(g, s) for s in SHOWN])), mem(g, r.value)))
    c.ensures("under the user's own name", Eq(r.value["username"], u.name))


@contract("A02", "devpi_server.model:User.validate", cross=60, covers=["valid", "invalid", "none", "rehash"])
def user_validate(c):
    """exactly the stored hash (and salt) decides about exactly the given password"""
    import devpi_server.model as m
    exists, has_hash = c.flag("exists"), c.flag("has hash")
    rec = c.dict()
    pwhash = c.str("pwhash", ["h1", "h2"])
    if exists:
        rec["indexes"] = c.dict()
        if has_hash:
            c.assume(Not(Eq(pwhash, "")))
            rec["pwhash"] = pwhash
        if c.flag("has salt"):
            rec["pwsalt"] = c.str("salt", ["s1", "s2"])
    salt = rec.get("pwsalt")
    password = c.str("password", ["p1", "p2"])
    valid = c.flag("hash matches")
    newhash = c.opt("newhash", lambda n: c.str(n, ["new"])) if valid else None
    asked, stored = [], []

    def verify(p, h, s=None):
        asked.append((p, h, s))
        return (valid, newhash)
    c.patch(m, "verify_and_update_password_hash", verify)
    tx = Obj(write=c.flag("write"))
    u = c.blank(m.User, name=c.str("name", ["joe"]),
                keyfs=Obj(USER=lambda user: Obj(get=lambda: rec), tx=tx))
    c.patch(u, "modify", lambda **kw: stored.append(kw))
    r = c.call(u.validate, password)
    c.ensures("no exception", r.ok, r)
    if not exists or not has_hash:
        c.cover("none")
        c.ensures("without account or password nobody is authenticated", not r.value)
        return
    c.ensures("the stored hash decides", len(asked) == 1 and And(Eq(asked[0][0], password), Eq(asked[0][1], pwhash))
              and (asked[0][2] is None if salt is None else Eq(asked[0][2], salt)))
    c.ensures("valid exactly if it matches", bool(r.value) == valid)
    c.cover("valid" if valid else "invalid")
    if stored:
        c.cover("rehash")
        c.ensures("only a better hash of the same password is stored", valid and len(stored) == 1 and
                  Eq(stored[0].get("pwhash"), newhash) and not (set(stored[0]) - {"pwhash", "pwsalt"}))


@contract("A02", ["devpi_server.auth:verify_and_update_password_hash", "devpi_server.auth:DevpiHandler.verify",
                  "devpi_server.auth:DevpiHandler.identify", "devpi_server.auth:DevpiHandler._get_salt_and_hash"],
          cross=60, assumed=["passlib CryptContext.verify_and_update(password, hash) is (True, ..) exactly if hash was made from password"])
def password_hash(c):
    import devpi_server.auth as m
    pw, hsh = c.str("password", ["a", "b"]), c.str("hash", ["x", "s:x", "s:", ":x", "s:a/s"])
    f = c.func("sha", ["str", "str"], "str") if not c.native() else (lambda p, s: p + "/" + s)
    calls = []

    def gph(p, s):
        calls.append((p, s))
        return f(p, s)
    c.patch(m, "getpwhash", gph)
    k = c.pick("what", ["context", "verify"])
    if k == "context":
        ask = []
        valid = c.flag("valid")
        new = c.opt("new", lambda n: c.str(n, ["n"]))
        c.patch(m, "pwd_context", Obj(verify_and_update=lambda p, h: (ask.append((p, h)), (valid, new))[1]))
        salt = c.opt("salt", lambda n: c.str(n, ["s"]))
        r = c.call(m.verify_and_update_password_hash, pw, hsh, salt)
        c.ensures("no exception", r.ok, r)
        full = hsh if salt is None else salt + ":" + hsh
        c.ensures("password and hash are handed to the hash library",
                  len(ask) == 1 and And(Eq(ask[0][0], pw), Eq(ask[0][1], full)))
        c.ensures("its verdict counts", r.value[0] == valid and r.value[1] is new)
        return
    s, h = c.str("salt", ["s", "t"]), c.str("stored", ["a/s", "b/s", "x"])
    c.assume(And(Not(mem(":", s)), Not(Eq(s, "")), Not(Eq(h, ""))))
    r = c.call(m.DevpiHandler.verify, pw, s + ":" + h)
    c.ensures("no exception", r.ok, r)
    c.ensures("a salted hash matches exactly the password it was made from", Iff(r.value, Eq(h, f(pw, s))))
    c.ensures("with its salt", len(calls) == 1 and And(Eq(calls[0][0], pw), Eq(calls[0][1], s)))


@contract("A02", ["devpi_server.auth_basic:devpiserver_get_credentials", "devpi_server.auth_devpi:devpiserver_get_credentials"],
          params=["basic", "devpi"], cross=150, covers=["none", "given"],
          assumed=["pyramid.authentication.b64decode decodes base64 or raises binascii.Error/TypeError; "
                   "WebOb parses the Authorization header into type and parameters"])
def credentials(c):
    """the user name is everything before the first colon, the password everything after"""
    import binascii
    import importlib
    mod = importlib.import_module("devpi_server.auth_" + c.param)
    raw = c.str("header", ["QQ==", "x", ""])
    text = c.str("decoded", ["joe:pw", "joe:p:w", "joe", ":", "joe:", ":pw", "", "a:b::c"])
    bad = c.flag("not base64")
    utf8 = c.flag("utf-8")
    decoded = []

    def decode(enc):
        if enc == "utf-8" and not utf8:
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "x")
        return text

    def b64(x):
        decoded.append(x)
        if bad:
            raise binascii.Error("x")
        return Obj(decode=decode)
    c.patch(mod, "b64decode", b64)
    present = c.flag("present")
    other = False
    if c.param == "basic":
        kind = c.pick("kind", ["Basic", "basic", "Bearer", "Digest"])
        other = kind.lower() != "basic"
        req = Obj(authorization=Obj(authtype=kind, params=raw) if present else None)
    else:
        c.assume(Not(Eq(raw, "")))
        hdr = Obj(strip=lambda: raw)
        req = Obj(headers=Obj(get=lambda n, d=None: hdr if present and n.lower() == "x-devpi-auth" else d))
    r = c.call(mod.devpiserver_get_credentials, request=req)
    c.ensures("no exception", r.ok, r)
    c.ensures("only the header's own value is decoded", And(True, *[Eq(x, raw) for x in decoded]))
    if r.value is None:
        c.cover("none")
        c.ensures("no credentials only if there are none", Or(not present, bad, other, Not(mem(":", text))))
    else:
        c.cover("given")
        user, pw = r.value
        c.ensures("credentials come from the header", present and not bad and not other)
        c.ensures("nothing is lost", Eq(text, user + ":" + pw))
        c.ensures("split at the first colon", Not(mem(":", user)))


@contract("A02", "devpi_server.view_auth:devpiserver_get_identity", cross=40, covers=["identity", "none"])
def identity(c):
    import devpi_server.view_auth as m
    cred = None
    if c.flag("credentials"):
        cred = (c.str("user", ["joe"]), c.str("password", ["pw"]))
    st = c.dict(status=c.str("status", ["ok", "ok", "reject", "nouser", "expired", "OK"]))
    groups = None
    if c.flag("has groups"):
        groups = st["groups"] = ["g1"]
    asked = []

    def status(u, p, request=None):
        asked.append((u, p, request))
        return st
    req = Obj(registry=Obj(getUtility=lambda i: Obj(auth=Obj(_get_auth_status=status))))
    r = c.call(m.devpiserver_get_identity, request=req, credentials=cred)
    c.ensures("no exception", r.ok, r)
    if cred is None:
        c.ensures("no identity without credentials", r.value is None and not asked)
        return
    c.ensures("exactly the given credentials are checked",
              len(asked) == 1 and And(Eq(asked[0][0], cred[0]), Eq(asked[0][1], cred[1])))
    if r.value is None:
        c.cover("none")
        c.ensures("an accepted user has an identity", Not(Eq(st["status"], "ok")))
    else:
        c.cover("identity")
        c.ensures("only accepted credentials give an identity", Eq(st["status"], "ok"))
        c.ensures("of the user who presented them", Eq(r.value.username, cred[0]))
        c.ensures("with the granted groups", r.value.groups is groups if groups is not None else r.value.groups == [])


@contract(["A02", "A01"], "devpi_server.auth:Auth._validate", cross=80, covers=["same", "different"])
def validate_twice(c):
    """several credentials may be checked during one request; each by itself"""
    from contracts.c_auth import mk_auth
    u1, p1 = c.str("user1", ["joe", "root"]), c.str("password1", ["a", "b"])
    u2, p2 = c.str("user2", ["joe", "root"]), c.str("password2", ["a", "b"])
    ok = c.func("valid", ["str", "str"], "bool")
    a = mk_auth(c, hook=lambda **kw: None,
                users=lambda n: Obj(validate=lambda p: ok(n, p), get=lambda credentials=False: {}))
    c.patch(a, "_legacy_auth", lambda *args: None)
    req = Obj()
    r1 = c.call(a._validate, u1, p1, request=req)
    r2 = c.call(a._validate, u2, p2, request=req)
    c.ensures("no exception", r1.ok and r2.ok, (r1, r2))
    c.ensures("the first by its own password", Iff(Eq(r1.value["status"], "ok"), ok(u1, p1)))
    c.ensures("the second by its own password", Iff(Eq(r2.value["status"], "ok"), ok(u2, p2)))
    c.cover("same" if And(Eq(u1, u2), Eq(p1, p2)) else "different")


MODKEYS = ["email", "custom_data", "bogus", "created", "indexes"]


@contract(["A05", "I06"], ["devpi_server.model:User._modify", "devpi_server.model:User.modify",
                           "devpi_server.model:User._setpassword", "devpi_server.model:User.validate_config",
                           "devpi_server.model:User.get_cleaned_config"], params=["create", "modify"], cross=150,
          covers=["changed", "password"],
          assumed=["hash_password returns a salted one-way hash (passlib)"])
def user_modify(c):
    """an account changes only in the attributes named, and never contains a plain password"""
    import devpi_server.model as m
    c.patch(m, "threadlog", NullLog())
    c.patch(m, "gmtime", lambda: 0)
    c.patch(m, "strftime", lambda f, t: "NOW")
    hashed = c.func("hash", ["str"], "str")
    c.patch(m, "hash_password", hashed)
    rec = c.map("record", "str", "str") if not c.native() else {c.str("key", KEYS): c.str("v", ["v", "w"]) for i in range(3)}
    if c.native():
        rec.pop("password", None)
        rec.setdefault("indexes", "ix")
    c.assume(And(Not(mem("password", rec)), mem("indexes", rec)))
    before = rec.copy()
    password = c.opt("password", lambda n: c.str(n, ["secret"]))
    kw = c.dict()
    for j in range(c.pick("n", [0, 1] if not c.native() else [0, 1, 2, 3])):
        k = c.pick("attr", [a for a in MODKEYS if a != "indexes" or c.param == "modify"])
        kw[k] = c.str("value", ["", "v", "x"])
    named = list(kw)
    if c.flag("own hash"):
        kw["pwhash"] = c.str("pwhash", ["h"])
    u = c.blank(m.User, name="joe", keyfs=Obj(USER=lambda user: Obj(update=lambda: CM(rec))))
    new = c.param == "create"
    if new:
        r = c.call(u._modify, password=password, **dict(kw))
    else:
        r = c.call(u.modify, **dict(kw, **({"password": password} if password is not None else {})))
    g = c.str("g", KEYS + MODKEYS)
    had, has = mem(g, before), mem(g, rec)
    unknown = "bogus" in named
    if new and unknown:
        c.cover("rejected")
        c.ensures("unknown attributes are rejected", r.raised(m.InvalidUserconfig))
    if not r.ok:
        c.ensures("only for unknown attributes", new and unknown and r.raised(m.InvalidUserconfig), r)
        c.ensures("and change nothing", And(Iff(had, has), Implies(had, Eq(before.get(g, ""), rec.get(g, "")))))
        return
    c.cover("changed")
    auto = ("created", "modified", "indexes")
    touched = [k for k in named if new or k in m.User.allowed_keys]
    own = [k for k in ("pwhash", "pwsalt") if password is not None or "pwhash" in kw]
    free = And(*[Not(Eq(g, k)) for k in list(touched) + list(auto) + own]) if True else None
    c.ensures("attributes not named keep their value",
              Implies(free, And(Iff(had, has), Implies(had, Eq(before.get(g, ""), rec.get(g, ""))))))
    if not new:
        c.ensures("creation time is kept", Implies(And(Eq(g, "created"), had), And(has, Eq(before.get(g, ""), rec.get(g, "")))))
        c.ensures("indexes are kept", Implies(And(Eq(g, "indexes"), had), And(has, Eq(before.get(g, ""), rec.get(g, "")))))
    for k in touched:
        if k in auto:
            continue
        v = kw[k]
        c.ensures("a named attribute gets its value", Implies(Not(Eq(v, "")), Eq(rec.get(k, None), v)) if k in rec else Eq(v, ""))
    c.ensures("the plain password is never stored", Not(mem("password", rec)))
    if password is not None:
        c.cover("password")
        want = kw["pwhash"] if "pwhash" in kw and Not(Eq(kw["pwhash"], "")) else hashed(password)
        c.ensures("but its hash", Eq(rec.get("pwhash", None), want))
        c.ensures("an old salt is gone", Not(mem("pwsalt", rec)))
    for line in r.value or ():
        c.ensures("the log line hides passwords", not (str(line).startswith("pw") and "*" not in str(line) and "None" not in str(line)))


BAD = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#$%&'()*+,/:;<=>?[\\]^`{|}~"
NAMES = ["joe", "ann", "a/b", "", ".", "..", "a b", "a:b", "x-.@_y", "\u00e4", "a\x00", "...", ".a", "a^"]


@contract(["I06", "S08"], "devpi_server.model:is_valid_name", cross=150)
def valid_name(c):
    """accepted names cannot be confused in URLs or paths"""
    import devpi_server.model as m
    s = c.str("name", NAMES)
    r = c.call(m.is_valid_name, s)
    c.ensures("no exception", r.ok, r)
    ok = r.value
    for ch in BAD:
        c.ensures("no name with %r" % ch, Not(And(ok, mem(ch, s))))
    c.ensures("no empty name", Not(And(ok, Eq(s, ""))))
    c.ensures("no relative path", Not(And(ok, Or(Eq(s, "."), Eq(s, "..")))))
    plain = Or(*[Eq(s, n) for n in ("joe", "x-.@_y", "...", ".a", "\u00e4")])
    c.ensures("harmless names are accepted", Implies(plain, ok))


@contract("I06", ["devpi_server.model:RootModel.create_user", "devpi_server.model:RootModel.delete_user"], cross=150,
          covers=["exists", "invalid", "created"])
def create_user(c):
    """a user is created only under a free and valid name, with exactly the given attributes"""
    import devpi_server.model as m
    c.patch(m, "threadlog", NullLog())
    c.patch(m, "gmtime", lambda: 0)
    c.patch(m, "strftime", lambda f, t: "NOW")
    users = c.set("users", pool=NAMES)
    name = c.str("name", NAMES)
    g = c.str("g", NAMES)
    had, taken = mem(g, users), mem(name, users)
    valid = c.func("valid", ["str"], "bool")
    c.patch(m, "is_valid_name", valid)
    password = c.opt("password", lambda n: c.str(n, ["pw"]))
    kw = c.dict()
    for k in ("email", "created", "modified", "indexes", "bogus", "pwhash"):
        if c.flag("has " + k):
            kw[k] = c.str(k, ["v"])
    stored, modified = [], []
    fails = c.flag("attributes rejected")

    class FakeUser:
        ignored_keys, info_keys = m.User.ignored_keys, m.User.info_keys

        def __init__(self, parent, name):
            self.name = name

        def _modify(self, **k):
            modified.append((self.name, k))
            if fails:
                raise m.InvalidUserconfig("x")
            return []
    c.patch(m, "User", FakeUser)
    ul = Obj(get=lambda readonly=True: users, set=lambda v: stored.append(v), update=lambda: CM(users))
    root = c.blank(m.RootModel, keyfs=Obj(USERLIST=ul), xom=Obj())
    r = c.call(root.create_user, name, password=password, **dict(kw))
    if not r.ok:
        c.ensures("refusals are reported", r.raised(m.InvalidUser) or (fails and r.raised(m.InvalidUserconfig)), r)
        c.ensures("refused only if taken, invalid or with invalid attributes", Or(taken, Not(valid(name)), fails))
        c.ensures("nothing is stored", not stored)
        if taken:
            c.cover("exists")
        elif Not(valid(name)):
            c.cover("invalid")
        return
    c.cover("created")
    c.ensures("only under a free name", Not(taken))
    c.ensures("only under a valid name", valid(name))
    c.ensures("the attributes are checked and stored once", len(modified) == 1 and not fails)
    n, k = modified[0]
    c.ensures("for this user", And(Eq(n, name), Eq(r.value.name, name)))
    c.ensures("with the given password", (k.get("password") is None) if password is None else Eq(k["password"], password))
    c.ensures("creation time is the server's", Eq(k["created"], "NOW"))
    c.ensures("indexes and modification time are never taken from the input", "indexes" not in k and "modified" not in k)
    for x in ("email", "bogus", "pwhash"):
        c.ensures("attributes are passed on as given", (x in k) == (x in kw) and (x not in kw or Eq(k[x], kw[x])))
    c.ensures("the user is listed, and nobody else is added or lost",
              len(stored) == 1 and Iff(mem(g, stored[0]), Or(had, Eq(g, name))))
