"""a real server (XOM + WSGI application) in a scratch directory, for the
bounded stand-ins; upstream HTTP is answered by a table"""
import base64
import contextlib
import io
import os
import requests
from contracts import real

_cheap = []


def cheap_hashes():
    """one cheap argon2 parameter set, so account creation costs microseconds"""
    if not _cheap:
        from devpi_server.config import Config
        import argon2
        from passlib.hash import argon2 as A  # noqa: F401
        _cheap.append(1)
        del Config, argon2


class Response:
    def __init__(self, url, d, allow_redirects):
        d = dict(d)
        self.status_code = d.get("status_code", 200)
        self.reason = d.get("reason", "OK")
        self.headers = requests.structures.CaseInsensitiveDict(d.get("headers", {}))
        self.headers.setdefault("content-type", d.get("content_type", "text/html"))
        self.url = d.get("url", url)
        self.allow_redirects = allow_redirects
        self.content = d.get("content", b"")
        self.text = d.get("text", "")
        self.raw = io.BytesIO(self.content)
        self.closed = False

    def iter_content(self, size=1):
        chunk = self.raw.read(size)
        while chunk:
            yield chunk
            chunk = self.raw.read(size)

    def json(self):
        import json
        return json.loads(self.text)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Upstream:
    """table url -> answer (or callable); unknown urls are 404"""

    def __init__(self):
        self.table = {}
        self.log = []

    def __call__(self, url, *, allow_redirects=False, extra_headers=None, **kw):
        url = str(url)
        self.log.append((url, dict(extra_headers or {})))
        d = self.table.get(url, dict(status_code=404, reason="Not Found"))
        if callable(d):
            d = d(url, extra_headers)
        if isinstance(d, BaseException):
            raise d
        return Response(url, d, allow_redirects)

    async def async_httpget(self, url, *, allow_redirects, timeout=None, extra_headers=None):
        r = self(url, allow_redirects=allow_redirects, extra_headers=extra_headers, timeout=timeout)
        return (r, r.text if r.status_code < 300 else None)


def plugins(storage="sqlite", web=False):
    from devpi_server import auth_basic, auth_devpi, mirror, model, replica, view_auth, views
    from devpi_server import keyfs_sqlite, keyfs_sqlite_fs
    ps = [auth_basic, auth_devpi, mirror, model, replica, view_auth, views,
          keyfs_sqlite_fs if storage == "sqlite" else keyfs_sqlite]
    if web:
        import devpi_web.main
        import devpi_web.null_index
        ps += [devpi_web.main, devpi_web.null_index]
    return ps


def weaken_argon2(config):
    """cheapest argon2 parameters: hashing cost is not what is checked here"""
    pm = config.pluginmanager
    del pm


@contextlib.contextmanager
def server(opts=(), storage="sqlite", web=False, extra_plugins=(), serverdir=None, init=True):
    """yields the XOM; everything lives in a scratch directory"""
    from devpi_server.config import get_pluginmanager, parseoptions
    from devpi_server.main import XOM, init_default_indexes
    real.warm()
    with contextlib.ExitStack() as st:
        d = serverdir or st.enter_context(real.scratch())
        pm = get_pluginmanager(load_entrypoints=False)
        for p in plugins(storage, web) + list(extra_plugins):
            pm.register(p)
        o = ["devpi-server", "--serverdir", d, "--storage", storage,
             "--argon2-memory-cost", "8", "--argon2-time-cost", "1", "--argon2-parallelism", "1", *opts]
        if web:
            o += ["--indexer-backend", "null"]
        config = parseoptions(pm, o)
        config.init_nodeinfo()
        up = Upstream()
        xom = XOM(config, httpget=up)
        xom.upstream = up
        try:
            with xom.keyfs.get_connection():
                pass
            if init and not config.primary_url:
                init_default_indexes(xom)
            xom.thread_pool.start_one(xom.async_thread)
            yield xom
        finally:
            xom.thread_pool.kill()
            with contextlib.suppress(Exception):
                xom._close_sessions()


def testapp(xom):
    import webtest
    return webtest.TestApp(xom.create_app(), lint=False)


def auth_header(user, password):
    v = base64.b64encode(("%s:%s" % (user, password)).encode()).decode()
    return {"X-Devpi-Auth": v}


class Client:
    """webtest client with one login per user"""

    def __init__(self, xom, app=None):
        self.xom = xom
        self.app = app or testapp(xom)
        self.tokens = {}
        self.passwords = {"root": ""}

    def headers(self, user):
        if user is None:
            return {}
        if user not in self.tokens:
            r = self.req("POST", "/+login", None, json={"user": user, "password": self.passwords[user]})
            if r.status_code != 200:
                return auth_header(user, "nonsense")
            self.tokens[user] = r.json["result"]["password"]
        return auth_header(user, self.tokens[user])

    def req(self, method, url, user=None, json=None, params=None, headers=None, upload_files=None):
        h = {"Accept": "application/json", **self.headers(user), **(headers or {})}
        kw = dict(headers=h, expect_errors=True)
        if json is not None:
            fn = getattr(self.app, method.lower() + "_json")
            return fn(url, json, **kw)
        if method in ("POST", "PUT", "PATCH"):
            if upload_files:
                kw["upload_files"] = upload_files
            return getattr(self.app, method.lower())(url, params or {}, **kw)
        if method in ("PUSH", "OTHER"):
            return self.app.request(url, method=method, **kw)
        return getattr(self.app, method.lower())(url, **kw)

    def user(self, name, password="pw"):
        self.passwords[name] = password
        return self.req("PUT", "/" + name, "root", json={"password": password})

    def index(self, path, user=None, **config):
        return self.req("PUT", "/" + path, user or path.split("/")[0], json=config)

    def upload(self, index, user, filename, content, project, version, action="file_upload", **extra):
        p = {":action": action, "name": project, "version": version, **extra}
        return self.req("POST", "/%s/" % index, user, params=p,
                        upload_files=[("content", filename, content)])


def walk_files(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


class WireResponse:
    """answer of an in-process WSGI application with the interface of requests"""

    def __init__(self, url, resp, chunk=None):
        self.url = url
        self.status_code = resp.status_int
        self.reason = resp.status.split(" ", 1)[1] if " " in resp.status else ""
        self.headers = requests.structures.CaseInsensitiveDict(resp.headers)
        self.content = resp.body
        self.chunk = chunk
        self.closed = False
        self.next = None
        self.raw = self

    @property
    def text(self):
        return self.content.decode()

    def json(self):
        import json
        return json.loads(self.content)

    def iter_content(self, chunk_size=None):
        n = self.chunk or chunk_size or max(len(self.content), 1)
        for i in range(0, len(self.content), n):
            yield self.content[i:i + n]

    def stream(self, size=65536, decode_content=None):
        yield from self.iter_content(size)

    def read(self, n=-1):
        c, self.content = (self.content, b"") if n is None or n < 0 else (self.content[:n], self.content[n:])
        return c

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Wire:
    """requests session whose only reachable host is the given WSGI application"""
    Errors = (requests.exceptions.RequestException, OSError)

    def __init__(self, app, base="http://primary"):
        self.app = app
        self.base = base
        self.log = []
        self.chunk = None
        self.tamper = None
        self.down = False

    def request(self, method, url, data=None, headers=None, **kw):
        import threading
        from webob import Request
        if self.down:
            raise requests.exceptions.ConnectionError("down")
        assert url.startswith(self.base), url
        if hasattr(data, "read"):
            data = data.read()
        r = Request.blank(url[len(self.base):], base_url=self.base, method=method,
                          headers=dict(headers or {}), body=data or b"")
        out = {}

        def go():
            out["r"] = r.get_response(self.app)
            out["r"].body
        # the caller may have a transaction open in its thread
        t = threading.Thread(target=go)
        t.start()
        t.join()
        resp = WireResponse(url, out["r"], self.chunk)
        self.log.append((method, url, dict(headers or {}), resp.status_code))
        if self.tamper is not None:
            resp = self.tamper(method, url, resp) or resp
        return resp

    def get(self, url, **kw):
        return self.request("GET", url, **kw)

    def close(self):
        pass


def secret(d):
    import secrets
    p = os.path.join(d, "shared.secret")
    with open(p, "wb") as f:
        f.write(base64.b64encode(secrets.token_bytes(32)))
    os.chmod(p, 0o600)
    return p


class Pair:
    """a primary and a replica; pull() replicates synchronously"""

    def __init__(self, primary, replica):
        from devpi_server.replica import PrimaryChangelogRequest
        PrimaryChangelogRequest.MAX_REPLICA_BLOCK_TIME = 0.05
        self.primary = primary
        self.replica = replica
        self.papp = primary.create_app()
        self.wire = Wire(self.papp)
        rt = self.rt = replica.replica_thread
        from contracts.mocks import NullLog
        rt.log = NullLog()
        rt.session = self.wire
        rt.thread = Quiet()
        for f in rt.file_replication_threads:
            f.session = self.wire
            f.thread = rt.thread
        replica._httpsession = self.wire
        self.rapp = replica.create_app()
        replica.keyfs.restart_as_write_transaction = None
        rt.replica_in_sync_at = 0
        rt.initial_fetch = True
        sd = rt.shared_data
        sd.QUEUE_TIMEOUT = 0.01
        self.clock = 0
        sd.is_in_future = lambda ts: False
        self.waits = []

    def changes(self, serial=None):
        """one round of asking the primary for changes"""
        return self.in_thread(lambda: self.rt.fetch_multi(
            self.replica.keyfs.get_next_serial() if serial is None else serial))

    def in_thread(self, f):
        import threading
        out = {}

        def go():
            try:
                out["v"] = f()
            except BaseException as e:
                out["e"] = e
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if "e" in out:
            raise out["e"]
        return out["v"]

    def files(self, rounds=100):
        def go():
            sd = self.rt.shared_data
            ft = self.rt.file_replication_threads[0]
            n = 0
            while (sd.queue.qsize() or sd.error_queue.qsize()) and n < rounds:
                sd.process_next(ft.handler)
                n += 1
        self.in_thread(go)

    def pull(self, files=True):
        def go():
            n = 0
            while self.replica.keyfs.get_current_serial() < self.primary.keyfs.get_current_serial() and n < 50:
                self.rt.fetch_multi(self.replica.keyfs.get_next_serial())
                n += 1
        self.in_thread(go)
        if files:
            self.files()

    def autopull(self):
        """replicate as soon as somebody waits for a serial on the replica"""
        kf = self.replica.keyfs
        orig = type(kf).wait_tx_serial

        def wait(serial, **k):
            self.waits.append((serial, kf.get_current_serial()))
            self.pull(files=False)
            return orig(kf, serial, **dict(k, timeout=1))
        kf.wait_tx_serial = wait


class Quiet:
    def sleep(self, *a):
        pass

    def exit_if_shutdown(self):
        pass


@contextlib.contextmanager
def replica_pair(storage="sqlite", ropts=(), popts=(), streaming=True):
    with real.scratch() as d:
        s = secret(d)
        pd, rd = os.path.join(d, "p"), os.path.join(d, "r")
        os.mkdir(pd)
        os.mkdir(rd)
        o = list(ropts)
        if not streaming:
            o.append("--no-replica-streaming")
        with server(["--role", "primary", "--secretfile", s, *popts], storage=storage, serverdir=pd) as p:
            with server(["--primary-url", "http://primary", "--secretfile", s, *o], storage=storage, serverdir=rd) as r:
                yield Pair(p, r)
