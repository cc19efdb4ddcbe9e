From b7815b1a0a68c5e16ba0703e79f8e3ae0e88e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 01/12] fix: don't expose the underlying dict through keys() of
 read-only dict views

---
 server/devpi_server/readonly.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/readonly.py b/server/devpi_server/readonly.py
index ff5c105..28fe5f1 100644
--- a/server/devpi_server/readonly.py
+++ b/server/devpi_server/readonly.py
@@ -75,7 +75,7 @@ class DictViewReadonly(ReadonlyView, Mapping[Hashable, Readonly]):
         return DictItemsViewReadonly(self)
 
     def keys(self) -> KeysView[Hashable]:
-        return self._data.keys()
+        return DictKeysViewReadonly(self)
 
     @overload
     def get(self, key: Hashable) -> Readonly:
@@ -93,6 +93,12 @@ class DictViewReadonly(ReadonlyView, Mapping[Hashable, Readonly]):
         return DictValuesViewReadonly(self)
 
 
+class DictKeysViewReadonly(KeysView[Hashable]):
+    # the native view exposes the underlying dict through its "mapping" attribute
+    __slots__ = ()
+    _mapping: DictViewReadonly
+
+
 class DictItemsViewReadonly(ItemsView[Hashable, Readonly]):
     __slots__ = ()
     _mapping: DictViewReadonly
-- 
2.43.0


From 3f036b1e029d2dd7ae4fb741aca7bba8488a6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 02/12] fix: refuse zip archive members which point outside the
 extraction directory

---
 common/devpi_common/archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/devpi_common/archive.py b/common/devpi_common/archive.py
index 6877b6e..01433d3 100644
--- a/common/devpi_common/archive.py
+++ b/common/devpi_common/archive.py
@@ -123,11 +123,12 @@ class ZipArchive(BaseArchive):
 
     def extract(self, to_path='', safe=False):
         # XXX unify with TarFile.extract
-        basedir = Path(to_path)
+        basedir = Path(os.path.abspath(to_path))  # noqa: PTH100
         unzipfile = self._archive
         members = unzipfile.namelist()
         for name in members:
-            fpath = basedir.joinpath(name)
+            # normalize, as the name may contain ".." parts
+            fpath = Path(os.path.abspath(basedir / name))  # noqa: PTH100
             try:
                 fpath.relative_to(basedir)
             except ValueError as e:
-- 
2.43.0


From 6e23183f014fa70680fb18bd1ff38d3f7165327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:33 +0000
Subject: [PATCH 03/12] fix: don't serve files outside of the unpacked
 documentation

---
 web/devpi_web/doczip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/devpi_web/doczip.py b/web/devpi_web/doczip.py
index 3eceec4..b78b5d2 100644
--- a/web/devpi_web/doczip.py
+++ b/web/devpi_web/doczip.py
@@ -76,7 +76,9 @@ def docs_file_exists(stage, name, version, entry, relpath):
                     return False
     else:
         doc_path = unpack_docs(stage, name, version, entry)
-        if doc_path.join(relpath).isfile():
+        file_path = doc_path.join(relpath)
+        # don't expose files outside of the unpacked documentation
+        if file_path.relto(doc_path) and file_path.isfile():
             return True
     return False
 
-- 
2.43.0


From ebfcade241fe7a52031c309c8b03851ced1a9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:33 +0000
Subject: [PATCH 04/12] fix: strip whole prefix from URL.sha256

---
 common/devpi_common/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index fa9da97..6ac78a0 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -218,7 +218,7 @@ class URL:
     def sha256(self):
         val = self.fragment
         if val.startswith("sha256="):
-            return ensure_unicode(val[4:])
+            return ensure_unicode(val[7:])
 
     def joinpath(self, *args, **kwargs):
         newurl = _joinpath(self.url, args, **kwargs)
-- 
2.43.0


From 003b4979968a02da50dcb0c804b8982bfc5afe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:16 +0000
Subject: [PATCH 05/12] fix: refuse user and index names which address other
 locations in paths and URLs

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 6605057..75294d4 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -295,6 +295,9 @@ name_char_blocklist_regexp = re.compile(
 
 
 def is_valid_name(name):
+    if name in ("", ".", ".."):
+        # these would address a different location in paths and URLs
+        return False
     return not name_char_blocklist_regexp.search(name)
 
 
-- 
2.43.0


From ca565d9de83d7db759f02e51ccb7edd572fa8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:16 +0000
Subject: [PATCH 06/12] fix: refuse versions which address other locations in
 paths and URLs

---
 common/devpi_common/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/devpi_common/validation.py b/common/devpi_common/validation.py
index 0c2595b..873b360 100644
--- a/common/devpi_common/validation.py
+++ b/common/devpi_common/validation.py
@@ -75,6 +75,10 @@ def validate_metadata(data):
     if '/' in data['name']:
         raise ValueError("Invalid package name")
 
+    # these would address a different location in paths and URLs
+    if data['version'] in ('.', '..'):
+        raise ValueError("Invalid package version")
+
     # again, this is a restriction required by the implementation and not
     # mentioned in documentation; ensure name and version are valid for URLs
     if re.search('[<>%#"]', data['name'] + data['version']):
-- 
2.43.0


From e717479f739e7ce55c95cf2d6968b6705ca5a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 07/12] fix: ignore indexes, created and modified passed when
 creating a user

PUT /user with an "indexes" key stored arbitrary index configurations
without any validation of names, types and options.
---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 75294d4..ac62cf7 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -146,6 +146,9 @@ class RootModel:
                 "username '%s' contains characters that aren't allowed. "
                 "Any ascii symbol besides -.@_ is blocked." % username)
         user = User(self, username)
+        # these are never taken from the input
+        for key in User.ignored_keys.union(User.info_keys):
+            kwargs.pop(key, None)
         kwargs.update(created=strftime("%Y-%m-%dT%H:%M:%SZ", gmtime()))
         user._modify(password=password, **kwargs)
         userlist.add(username)
-- 
2.43.0


From 162d6eb3d05f08d82bfad73ecab72b5b88fd509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 08/12] fix: reject password of users which have none instead
 of failing with KeyError

---
 server/devpi_server/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index ac62cf7..30d74b4 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -416,7 +416,10 @@ class User:
         if not userconfig:
             return False
         salt = userconfig.get("pwsalt")
-        pwhash = userconfig["pwhash"]
+        pwhash = userconfig.get("pwhash")
+        if not pwhash:
+            # the user was created without a password
+            return False
         valid, newhash = verify_and_update_password_hash(password, pwhash, salt)
         if valid:
             if newhash and self.keyfs.tx.write:
-- 
2.43.0


From 1399cf8a9956da630f7126fc0eadcf953de02c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 09/12] fix: use cached password validation only for the
 credentials it was made for

After a request was authenticated with a password, any other user name and
password validated in the same request were accepted unchecked, so PATCH on
a user issued a token for a password which isn't the one of the user.
---
 server/devpi_server/auth.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/devpi_server/auth.py b/server/devpi_server/auth.py
index 7eb74e2..69a98cd 100644
--- a/server/devpi_server/auth.py
+++ b/server/devpi_server/auth.py
@@ -92,12 +92,16 @@ class Auth:
             return dict(status="nouser")
         # none of the plugins returned valid groups, check our own data
         # first get a potentially cached value
-        result = getattr(request, '__devpiserver_user_validate_result', notset)
+        result = notset
+        credentials = (authuser, authpassword)
+        if getattr(request, '__devpiserver_user_validate_credentials', None) == credentials:
+            result = getattr(request, '__devpiserver_user_validate_result', notset)
         if result is notset:
             result = user.validate(authpassword)
             # cache result on request if available
             if request is not None:
                 # we have to use setattr to avoid name mangling of prefix dunder
+                setattr(request, '__devpiserver_user_validate_credentials', credentials)
                 setattr(request, '__devpiserver_user_validate_result', result)
         if result:
             return dict(status="ok", from_user_object=True)
-- 
2.43.0


From 6c8918480e76f2aa3fb0acec283fe5e1e3e20586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 10/12] fix: keep the brackets of IPv6 hosts in URL.replace

---
 common/devpi_common/url.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/devpi_common/url.py b/common/devpi_common/url.py
index 6ac78a0..2d2d11d 100644
--- a/common/devpi_common/url.py
+++ b/common/devpi_common/url.py
@@ -116,9 +116,14 @@ class URL:
             if "hostname" in kwargs:
                 if not kwargs["hostname"]:
                     raise ValueError("Can't use empty 'hostname'.")
-                netloc += kwargs["hostname"]
-            elif self.hostname:
-                netloc += self.hostname
+                hostname = kwargs["hostname"]
+            else:
+                hostname = self.hostname
+            if hostname:
+                if ":" in hostname and not hostname.startswith("["):
+                    # an IPv6 address
+                    hostname = f"[{hostname}]"
+                netloc += hostname
             if "port" in kwargs:
                 if kwargs["port"]:
                     netloc += ":%s" % kwargs["port"]
-- 
2.43.0


From c356c08110ab52c9c237c2221a88ba56dc5e210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:33 +0000
Subject: [PATCH 11/12] fix: visit an index only once when it is inherited
 through several bases

---
 server/devpi_server/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 30d74b4..7f7ab05 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1137,6 +1137,9 @@ class BaseStage(object):
         devpiserver_sro_skip = self.xom.config.hook.devpiserver_sro_skip
         while todo:
             stage = todo.pop(0)
+            if stage.name in seen:
+                # reached through more than one index
+                continue
             yield stage
             seen.add(stage.name)
             for base in stage.ixconfig.get("bases", ()):
-- 
2.43.0


From 566be7f48f6d04b5a0526ec898791908cf45ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:17 +0000
Subject: [PATCH 12/12] fix: refuse uploads to non-volatile indexes under a
 file name used by another version

The simple page only shows one of the files, so an uploader could replace
an existing release by naming another version contained in its file name.
---
 server/devpi_server/model.py | 15 +++++++++++++++
 server/devpi_server/views.py |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/server/devpi_server/model.py b/server/devpi_server/model.py
index 7f7ab05..1f3e833 100644
--- a/server/devpi_server/model.py
+++ b/server/devpi_server/model.py
@@ -1422,6 +1422,21 @@ class PrivateStage(BaseStage):
         self._regen_simplelinks(project)
         return link
 
+    def check_releasefile_of_other_versions(self, project, version, filename):
+        """ Installers only see one file per name, so on non volatile indexes
+            a file name which is used by another version is already taken."""
+        if self.ixconfig.get("volatile"):
+            return
+        for other_version in self.list_versions_perstage(project):
+            if other_version == version:
+                continue
+            linkstore = self.get_linkstore_perstage(project, other_version)
+            for link in linkstore.get_links(rel="releasefile", basename=filename):
+                exc = NonVolatile("rel=%s basename=%s on stage %s" % (
+                    link.rel, filename, self.name))
+                exc.link = link
+                raise exc
+
     def store_doczip(self, project, version, content_or_file,
                      *, hashes=None, last_modified=None):
         if self.customizer.readonly:
diff --git a/server/devpi_server/views.py b/server/devpi_server/views.py
index 32d85ce..0960809 100644
--- a/server/devpi_server/views.py
+++ b/server/devpi_server/views.py
@@ -1157,6 +1157,8 @@ class PyPIView:
                 # re-get entry for current metadata which might have
                 # added hashes if a file had to be streamed from a remote
                 entry = self.xom.filestore.get_file_entry(entry.relpath)
+            target_stage.check_releasefile_of_other_versions(
+                name, version, entry.basename)
             with entry.file_open_read() as f:
                 new_link = target_stage.store_releasefile(
                     name, version, entry.basename, f,
@@ -1252,6 +1254,8 @@ class PyPIView:
             abort_if_invalid_filename(request, name, content_filename)
             self._update_versiondata_form(stage, request.POST)
             try:
+                stage.check_releasefile_of_other_versions(
+                    project, version, content_filename)
                 link = stage.store_releasefile(
                     project, version,
                     content_filename, content_file, hashes=hashes)
-- 
2.43.0

