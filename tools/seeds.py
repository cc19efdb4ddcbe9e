"""planted changes; see seed.py"""
SEEDS = {}


def seed(id, property, edits, demo, needs, breaks):
    assert id not in SEEDS
    SEEDS[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


S = "server/devpi_server/"

seed("A01-token-case", "A01",
     [(S + "auth.py", "            if val[0] != authuser:\n", "            if val[0].lower() != authuser.lower():\n")],
     '''
     from dsrv import server
     with server() as xom:
         auth = xom_auth = __import__("devpi_server.auth", fromlist=["Auth"]).Auth(xom, "secret")
         with xom.keyfs.write_transaction():
             xom.model.create_user("alice", "pa")
             xom.model.create_user("Alice", "pA")
         with xom.keyfs.read_transaction():
             t = auth.new_proxy_auth("alice", "pa")["password"]
             assert auth._get_auth_status("alice", t)["status"] == "ok"
             assert auth._get_auth_status("Alice", t)["status"] != "ok", "token of another user accepted"
     ''',
     "two accounts whose names differ only in case; the token of one is sent with the name of the other",
     "a token authenticates a different user than the one it was issued for")

seed("I03-doczip", "I03",
     [(S + "model.py", """            if not self.stage.ixconfig.get("volatile"):
                exc = NonVolatile(""", """            if not self.stage.ixconfig.get("volatile") and not (
                    rel == "releasefile" and len(self.get_links(rel="toxresult", for_entrypath=link)) == 0
                    and link.entry.file_get_content() == b""):
                exc = NonVolatile(""")],
     '''
     from dsrv import server, Client
     with server() as xom:
         c = Client(xom)
         c.user("u")
         c.index("u/dev", bases=[], volatile=False)
         assert c.upload("u/dev", "u", "p-1.0.tar.gz", b"", "p", "1.0").status_code == 200
         r = c.upload("u/dev", "u", "p-1.0.tar.gz", b"other", "p", "1.0")
         assert r.status_code == 409, r.status
     ''',
     "the first upload of the file was empty (aborted), then different content is uploaded under the same name",
     "a release file on a non-volatile index is replaced by different content")

seed("I05-requires-python", "I05",
     [(S + "model.py", """            require_python = self.get_versiondata_perstage(project,
                    version).get('requires_python')
            requires_python.extend([require_python] * len(releases))
""", """            require_python = self.get_versiondata_perstage(project,
                    version).get('requires_python')
            if not releases:
                continue
            requires_python.append(require_python)
            requires_python.extend(requires_python[:1] * (len(releases) - 1))
""")],
     '''
     from dsrv import server, Client
     with server() as xom:
         c = Client(xom)
         c.user("u")
         c.index("u/dev", bases=[])
         for v, rp in (("1.0", ">=3.1"), ("2.0", ">=3.2"), ("3.0", ">=3.3")):
             for e in ("tar.gz", "zip"):
                 assert c.upload("u/dev", "u", "p-%s.%s" % (v, e), v.encode(), "p", v, requires_python=rp).status_code == 200
         want = {"1.0": ">=3.1", "2.0": ">=3.2", "3.0": ">=3.3"}
         with xom.keyfs.read_transaction():
             for l in xom.model.getstage("u/dev").get_simplelinks("p"):
                 assert l.require_python == want[l.version], (l.key, l.require_python)
     ''',
     "several versions with several files each and different requires_python",
     "the simple page announces the Python requirement of another version for a file")


seed("S05-tuple-fast", "S05",
     [(S + "readonly.py", """    return tuple(get_mutable_deepcopy(item) for item in val)
""", """    if not any(isinstance(item, (dict, list, tuple, ReadonlyView)) for item in val):
        # nothing mutable in there
        return val
    return tuple(get_mutable_deepcopy(item) for item in val)
""")],
     """
     from dsrv import mk_keyfs, scratch
     with scratch() as d:
         k = mk_keyfs(d)
         key = k.add_key("NAME", "a", dict)
         with k.write_transaction():
             key.set({"x": (1, {2})})
         with k.write_transaction():
             v = key.get(readonly=False)
             v["x"][1].add(3)
             assert key.get() == {"x": (1, {2})}, key.get()
     """,
     "a set nested in a tuple, changed in place without writing it back",
     "the committed value changes for all readers")

seed("S03-stop-at-first", "S03",
     [(S + "filestore_fs.py", """            elif not os.path.exists(dst):
                raise OSError("missing file %s" % dst)
        else:
            with suppress(OSError):
                os.remove(path)  # was already removed
""", """            elif not os.path.exists(dst):
                raise OSError("missing file %s" % dst)
            else:
                # was already completed
                return
        else:
            with suppress(OSError):
                os.remove(path)  # was already removed
""")],
     """
     import os
     from dsrv import scratch
     from devpi_server.filestore_fs import check_pending_renames
     with scratch() as d:
         h = "0a" * 32
         with open(os.path.join(d, "a"), "w") as f:
             f.write("a")
         with open(os.path.join(d, "b-%s-tmp" % h), "w") as f:
             f.write("b")
         check_pending_renames(d, ["a-%s-tmp" % h, "b-%s-tmp" % h])
         assert sorted(os.listdir(d)) == ["a", "b"], os.listdir(d)
     """,
     "the server stops in the middle of a commit with several files, after the first was moved into place",
     "the remaining committed files are missing after the restart")

seed("A02-cache-key", "A02",
     [(S + "auth.py", "        credentials = (authuser, authpassword)\n        if getattr", "        credentials = (authuser, authpassword is not None)\n        if getattr")],
     """
     from dsrv import server, Client
     from devpi_server.auth import Auth

     class Request:
         pass
     with server() as xom:
         Client(xom).user("u", "right")
         auth = Auth(xom, "secret")
         with xom.keyfs.read_transaction():
             r = Request()
             assert auth._get_auth_status("u", "right", request=r)["status"] == "ok"
             assert auth.new_proxy_auth("u", "right", request=r) is not None
             t = auth.new_proxy_auth("u", "wrong", request=r)
         assert t is None, t
     """,
     "two validations of the same user with different passwords during one request",
     "a wrong password is accepted and a login token issued")

seed("S07-gap", "S07",
     [(S + "keyfs.py", "                assert next_serial == serial, (next_serial, serial)\n", "                assert serial >= next_serial, (next_serial, serial)\n")],
     """
     from dsrv import mk_keyfs, scratch
     with scratch() as d:
         k = mk_keyfs(d)
         key = k.add_key("NAME", "a", dict)
         k.import_changes(0, {"a": ("NAME", -1, {"x": 1})})
         try:
             k.import_changes(3, {"a": ("NAME", 0, {"x": 2})})
         except Exception:
             pass
         with k.read_transaction():
             assert key.get() == {"x": 1}, key.get()
         assert k.get_current_serial() == 0
     """,
     "the primary's answer misses change sets (a later serial than the next one arrives)",
     "a replica applies a change set although earlier ones are missing")

seed("S08-trailing-slash", "S08",
     [(S + "keyfs_types.py", '            if "/" in val:\n', '            if "/" in val.rstrip("/"):\n')],
     """
     from dsrv import mk_keyfs, scratch
     with scratch() as d:
         k = mk_keyfs(d)
         key = k.add_key("NAME", "{user}/{index}/.x", dict)
         try:
             t = key(user="a", index="b/")
         except ValueError:
             pass
         else:
             assert False, t.relpath
     """,
     "a key parameter ending in a slash",
     "two different parameter values address the same path on disk")

seed("S06-skip-missing", "S06",
     [(S + "keyfs.py", """            self._execute_hooks(event_serial, self.log)
            with self.cv_new_event_serial:
                self.write_event_serial(event_serial)
                self.cv_new_event_serial.notify_all()
""", """            try:
                self._execute_hooks(event_serial, self.log)
            finally:
                with self.cv_new_event_serial:
                    self.write_event_serial(event_serial)
                    self.cv_new_event_serial.notify_all()
""")],
     """
     from dsrv import mk_keyfs, scratch
     from devpi_server.log import threadlog

     class Interrupted(BaseException):
         pass
     with scratch() as d:
         k = mk_keyfs(d)
         key = k.add_key("NAME", "a", dict)
         seen = []
         stop = []

         def sub(ev):
             if not stop:
                 stop.append(1)
                 raise Interrupted()
             seen.append(ev.at_serial)
         key_ = k.notifier.on_key_change("NAME", sub)
         with k.write_transaction():
             key.set({"x": 1})

         class T:
             def exit_if_shutdown(self):
                 pass
         n = k.notifier
         n.thread = T()
         n.log = threadlog
         k.wait_tx_serial = lambda *a, **kw: None
         for i in range(2):
             try:
                 n.tick()
             except BaseException as e:
                 assert isinstance(e, Interrupted), e
         assert seen == [0], seen
     """,
     "processing of an event is interrupted (shutdown or missing file) before its subscribers have run",
     "the event position moves past a serial whose subscribers never ran")

