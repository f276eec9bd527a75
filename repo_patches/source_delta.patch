From 65a848512c0eef83a71941a7a73504266c62ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 01/44] fix: create at most one connection per key

Two threads asking for the same connection at the same time both
created a backend; the one stored first was lost and never closed. Also,
the cleaner thread could drop the key between the test and the return.
---
 abl/vpath/base/fs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 0248be2..ccc393c 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -75,8 +75,12 @@ class ConnectionRegistry(object):
 
     def create(self, scheme, key, extras):
         with self.creation_locks[scheme]:
-            conn = self.schemes[scheme](*key[1:-1], **extras)
-            self.connections[key] = conn
+            # another thread might have been faster
+            conn = self.connections.get(key)
+            if conn is None:
+                conn = self.schemes[scheme](*key[1:-1], **extras)
+                self.connections[key] = conn
+            return conn
 
 
     def get_connection(self,
@@ -126,9 +130,10 @@ class ConnectionRegistry(object):
             frozenset(extras.items())
             )
 
-        if not key in self.connections:
-            self.create(scheme, key, extras)
-        return self.connections[key]
+        conn = self.connections.get(key)
+        if conn is None:
+            conn = self.create(scheme, key, extras)
+        return conn
 
 
     def cleanup(self, force=False):
-- 
2.43.0


From 024efdb3e719efeaa5138b2eebae8516c91c4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 02/44] fix: cleanup hands out no closed connection and
 survives a parallel cleanup

The connection was closed while it was still registered, and the cleanup
of shutdown and that of the cleaner thread could both try to delete the
same key, which ended the second one with a KeyError before all
connections were closed.
---
 abl/vpath/base/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index ccc393c..aed7381 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -140,12 +140,15 @@ class ConnectionRegistry(object):
         now = time.time()
         for key, conn in list(self.connections.items()):
             if ((now - conn.last_used) > self.clean_timeout) or force:
+                # drop it first: nobody must get a closed connection, and
+                # another cleanup might be running at the same time
+                if self.connections.pop(key, None) is None:
+                    continue
                 try:
                     conn.close()
                 except:
                     print("### Exception while closing connection %s" % conn)
                     traceback.print_exc()
-                del self.connections[key]
 
 
     def cleaner(self):
-- 
2.43.0


From ca3619d3a37c17091563c1f87ae3826ce0d38b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 03/44] fix: derived URIs address the same connection as their
 origin

Joining, splitting, adding a suffix and copying lost credentials given
as keyword or query arguments, copying and splitting lost an assigned
scheme and a changed query, and a suffix or a split was applied to the
query part of the uri instead of to its path. Credentials in the query
made every operation fail with a TypeError.
---
 abl/vpath/base/fs.py | 57 ++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index aed7381..523c3d4 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -281,6 +281,7 @@ class BaseUri(object):
             self.sep = uri.sep
             self.parse_result = UriParse(uri.uri)
             self.extras = uri.extras.copy()
+            self._take_identity(uri)
         else:
             if uri.startswith('file://'):
                 uri = uri[7:]
@@ -293,18 +294,32 @@ class BaseUri(object):
             self.sep = sep
             self.parse_result = UriParse(uri)
             self.extras = extras
-        if self.username is None:
+        if not self.username:
             if 'username' in self.extras:
                 self.username = self.extras.pop('username')
             elif 'username' in self.parse_result.query:
                 self.username = self.parse_result.query['username']
-        if self.password is None:
+        if not self.password:
             if 'password' in self.extras:
                 self.password = self.extras.pop('password')
             elif 'password' in self.parse_result.query:
                 self.password = self.parse_result.query['password']
 
 
+    def _take_identity(self, other, query=True):
+        """
+        take over what the uri string and the extras of 'other' don't tell:
+        scheme and credentials might have been set explicitly, the query
+        might have been changed.
+        """
+        self.scheme = other.scheme
+        self.username = other.username
+        self.password = other.password
+        if query:
+            self.parse_result.query = other.query.copy()
+        return self
+
+
     def get_connection(self):
         return CONNECTION_REGISTRY.get_connection(*self._key(), **self._extras())
 
@@ -314,6 +329,9 @@ class BaseUri(object):
         if self.scheme not in ('http','https'):
             extras.update(self.query)
 
+        # the credentials have their own place in the key
+        extras.pop('username', None)
+        extras.pop('password', None)
         return extras
 
 
@@ -402,14 +420,14 @@ class BaseUri(object):
 
 
     def __add__(self, suffix):
-        path = self.uri + suffix
+        parts = self.parse_result.as_list()
+        parts[2] += suffix
         result = self.__class__(
-            path,
+            uri_from_parts(parts),
             sep=self.sep,
             **self._extras()
             )
-        result.parse_result.query = self.query.copy()
-        return result
+        return result._take_identity(self)
 
 
     @property
@@ -428,23 +446,18 @@ class BaseUri(object):
         @return: a 2 tuple. The first element is a URI instance and the second
                  a string, representing the basename.
         """
-        try:
-            first, second = self.uri.rsplit('/', 1)
-        except ValueError:
-            first = ''
-            second = self.uri
-        # we might be already on the root
-        if first.endswith('//'):
-            first = first + '/'
-        if not first:
-            first = '.'
-        return (self.__class__(
-            first,
+        parts = self.parse_result.as_list()
+        first, slash, second = parts[2].rpartition('/')
+        if slash:
+            # we might be already on the root
+            parts[2] = first or slash
+        parts[3] = {}
+        result = self.__class__(
+            uri_from_parts(parts),
             sep=self.sep,
             **self._extras()
-            ),
-            second.partition('?')[0]
             )
+        return (result._take_identity(self, query=False), second)
 
 
     def directory(self, level=1):
@@ -519,9 +532,7 @@ class BaseUri(object):
             **self._extras()
             )
 
-        result.parse_result.query = self.query.copy()
-
-        return result
+        return result._take_identity(self)
 
 
     @with_connection
-- 
2.43.0


From e2ea7dc656cf462c60a95b7f12ac917c0daee256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 04/44] fix: relative paths starting with a dot don't lose
 their first part

URI('../x') and URI('.hidden/x') took '..' and '.hidden' for a host name
and addressed '/x'.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 523c3d4..732b599 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -286,7 +286,7 @@ class BaseUri(object):
             if uri.startswith('file://'):
                 uri = uri[7:]
             uri = normalize_uri(uri, '\\')
-            if not '://' in uri and not (uri.startswith('/') or uri.startswith('.')):
+            if not '://' in uri and not (uri == '.' or uri.startswith(('/', './'))):
                 uri = './'+uri
             if not '://' in uri:
                 uri = 'file://'+uri
-- 
2.43.0


From b7d57f9db87ad891319d3a45d8744b2b02108ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/44] fix: an absolute path into a dot directory stays
 absolute

URI('/.hidden/x').path was '.hidden/x'; only '/./' marks a relative path.
---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 732b599..5f074fa 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -360,7 +360,7 @@ class BaseUri(object):
     @property
     def path(self):
         path = self.parse_result.path
-        parsed_path = path[1:] if path.startswith("/.") else path
+        parsed_path = path[1:] if (path + '/').startswith("/./") else path
 
         if os.name == "nt" and self.scheme == "file":
             parsed_path = os.path.normpath(re.sub(r"^/([a-zA-Z])/", r"\1:/", parsed_path))
@@ -433,7 +433,7 @@ class BaseUri(object):
     @property
     def is_absolute(self):
         path = self.parse_result.path
-        if path.startswith('/.'):
+        if (path + '/').startswith('/./'):
             path = path[1:]
         return path.startswith('/')
 
-- 
2.43.0


From 0d621c5e42af7e2696e12cf7c5869f9fd30b2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 06/44] fix: last() returns no query

For a uri with a query, last() was the last part of the query. The memory
backend then failed to remove such a path, and copying it into a
directory failed.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 5f074fa..aa2f698 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -496,7 +496,7 @@ class BaseUri(object):
         @return: last part of uri
         @rvalue: str
         """
-        parts = self.uri.split('/')
+        parts = self.parse_result.path.split('/')
         if not parts:
             return ''
         if len(parts) > 1:
-- 
2.43.0


From 46e38fdeb0182d79441caf75f3a8308fab96f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 07/44] fix: copy trees whose path ends with a separator or a
 blank

The first character of each subdirectory was cut off for a source like
'/some/dir/' or '/', and blanks around directory names were dropped.
---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index aa2f698..43f6267 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -958,10 +958,10 @@ class FileSystem(object):
             else:
                 droot.makedirs()
                 spth = source.path
-                spth_len = len(spth) + 1
+                spth_len = len(spth)
                 for root, dirs, files in source.walk(followlinks=followlinks):
                     rpth = root.path
-                    tojoin = rpth[spth_len:].strip()
+                    tojoin = rpth[spth_len:].lstrip(source.sep + '/')
                     if tojoin:
                         dbase = droot / tojoin
                     else:
-- 
2.43.0


From 4e9d6d8927049ceb0cdddf8d1c580891a0a1cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 08/44] fix: copy never applies the source's backend to a path
 of another one

copy(followlinks=False) to another backend removed the file and created
the link at the destination's path, but in the backend of the source. The
same happened, for links and for copystat, between two backends of the
same scheme (two hosts, two archives, two memory file systems).
---
 abl/vpath/base/fs.py      | 12 +++++++++++-
 abl/vpath/base/localfs.py |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 43f6267..463d80e 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -912,7 +912,17 @@ class FileSystem(object):
         pass
 
 
+    def _shares_storage(self, uriobj):
+        """
+        Tell if uriobj is located in what this backend operates on.
+        """
+        return uriobj.get_connection() is self
+
+
     def _copy_link(self, source, dest):
+        if not self._shares_storage(dest):
+            # a link can't point into another backend
+            raise OperationIsNotSupportedOnPlatform(str(dest))
         assert self.islink(source)
         if dest.isfile():
             self.removefile(dest)
@@ -924,7 +934,7 @@ class FileSystem(object):
         if source.connection is dest.connection and hasattr(self, 'internal_copy'):
             return self.internal_copy(source, dest, recursive, ignore)
 
-        use_same_backend = source.scheme == dest.scheme
+        use_same_backend = self._shares_storage(dest)
 
         if ignore is not None:
             ignore = set(ignore)
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index ecf3857..a01a6ac 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -49,6 +49,10 @@ class LocalFileSystem(FileSystem):
         pass
 
 
+    def _shares_storage(self, uriobj):
+        return uriobj.scheme == self.scheme
+
+
     def info(self, unc, set_info=None, followlinks=True):
         p = self._path(unc)
 
-- 
2.43.0


From af4dccb4542e2c8c269fdf075e494b9ad2c8cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 09/44] fix: refuse to copy a file onto itself, a directory
 onto or into itself

The destination was opened for writing before the source was read, so a
file copied onto itself was emptied (and move removed it afterwards); a
directory copied into itself grew until the names were too long.
---
 abl/vpath/base/fs.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 463d80e..17e34a3 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -919,6 +919,17 @@ class FileSystem(object):
         return uriobj.get_connection() is self
 
 
+    def _refuse_overlap(self, source, dest, inside=False):
+        """
+        A file can't be copied onto itself, a directory neither onto nor
+        into itself.
+        """
+        src = source.unipath.rstrip('/') + '/'
+        dst = dest.unipath.rstrip('/') + '/'
+        if dst == src or (inside and dst.startswith(src)):
+            raise shutil.SameFileError("{} and {} overlap".format(source, dest))
+
+
     def _copy_link(self, source, dest):
         if not self._shares_storage(dest):
             # a link can't point into another backend
@@ -948,6 +959,8 @@ class FileSystem(object):
             assert source.isfile()
             if dest.isdir():
                 dest = dest / source.last()
+            if use_same_backend:
+                self._refuse_overlap(source, dest)
 
             if source.islink() and not followlinks:
                 self._copy_link(source, dest)
@@ -962,6 +975,8 @@ class FileSystem(object):
                 droot = dest / source.last()
             else:
                 droot = dest
+            if use_same_backend:
+                self._refuse_overlap(source, droot, inside=followlinks or not source.islink())
 
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
-- 
2.43.0


From 4c6709bd0d762929823af803926e1ae644ace0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 10/44] fix: append to empty and to missing memory files

The length of an empty file was reported as 1, so data appended to it got a
leading NUL; appending to a missing file failed, unlike on other backends.
---
 abl/vpath/base/memory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index e8c7f65..da1cf02 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -46,8 +46,8 @@ class MemoryFile(object):
 
     def __len__(self):
         pos = self._data.tell()
-        self._data.seek(-1,2)
-        length = self._data.tell() + 1
+        self._data.seek(0, 2)
+        length = self._data.tell()
         self._data.seek(pos)
         return length
 
@@ -472,6 +472,8 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_append(self, path, binary=False):
+        if not self.exists(path):
+            return self._open_for_write(path, binary=binary)
         nd = self._get_node_for_path(self._fs, path)
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
-- 
2.43.0


From 55d38293c9fa4c2e31b843e2adf5f4f5f1c7cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 11/44] fix: only the last path component may stay an
 unresolved link

A directory in the middle of a memory path that happens to have the same
name as the last component was not resolved.
---
 abl/vpath/base/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index da1cf02..5ce7eb3 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -339,10 +339,10 @@ class MemoryFileSystem(FileSystem):
                        linklevel=0):
         prev = None
         current = base
-        for part in steps:
+        for pos, part in enumerate(steps):
             prev = current
             if current.has(part):
-                is_last = part == steps[-1]
+                is_last = pos == len(steps) - 1
                 current = self._child(current, part,
                                       resolve_link=follow_link if is_last else True,
                                       throw=throw,
-- 
2.43.0


From a4885f6d8254dd2b24ed907674a01e13a2271096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 12/44] fix: memory paths of the wrong kind raise OSErrors

Using a file (or a dangling link) as a directory ended in an AttributeError,
opening a directory likewise, and removefile dropped whole directories.
Queries answer False for a path below a file.
---
 abl/vpath/base/memory.py | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5ce7eb3..c78503f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -340,6 +340,13 @@ class MemoryFileSystem(FileSystem):
         prev = None
         current = base
         for pos, part in enumerate(steps):
+            if current is None or current.kind != NodeKind.DIR:
+                if throw:
+                    p = '/'.join(steps)
+                    raise self.lookup_exc_class(errno.ENOTDIR,
+                                                "Not a directory: %s" % p)
+                else:
+                    return [None, None]
             prev = current
             if current.has(part):
                 is_last = pos == len(steps) - 1
@@ -363,6 +370,20 @@ class MemoryFileSystem(FileSystem):
         return current
 
 
+    def _get_dir(self, path, steps):
+        nd = self._get_node(self._fs, steps)
+        if nd.kind != NodeKind.DIR:
+            raise self.lookup_exc_class(errno.ENOTDIR, "Not a directory: %s" % path)
+        return nd
+
+
+    def _get_file(self, path):
+        nd = self._get_node_for_path(self._fs, path)
+        if nd.kind != NodeKind.FILE:
+            raise self.lookup_exc_class(errno.EISDIR, "File is directory: %s" % path)
+        return nd
+
+
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
         p = self._path(unc)
@@ -422,7 +443,7 @@ class MemoryFileSystem(FileSystem):
     def mkdir(self, path):
         p = self._path(path)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(path, p.split("/")[:-1])
             dir_to_create = p.split("/")[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
@@ -449,15 +470,17 @@ class MemoryFileSystem(FileSystem):
 
 
     def _open_for_read(self, path, binary=False):
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(0)
         return MemoryFileProxy(nd, True, binary=binary)
 
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_node(self._fs, p.split("/")[:-1])
+        nd = self._get_dir(path, p.split("/")[:-1])
         file_to_create = p.split("/")[-1]
+        if not file_to_create:
+            raise IOError(errno.EISDIR, "File is directory" )
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
@@ -474,7 +497,7 @@ class MemoryFileSystem(FileSystem):
     def _open_for_append(self, path, binary=False):
         if not self.exists(path):
             return self._open_for_write(path, binary=binary)
-        nd = self._get_node_for_path(self._fs, path)
+        nd = self._get_file(path)
         nd.seek(len(nd))
         return MemoryFileProxy(nd, False, binary=binary)
 
@@ -543,8 +566,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_node(self._fs,
-                            [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir(path, [x for x in self._path(path).split("/") if x])
         return sorted(nd.keys())
 
 
@@ -553,9 +575,11 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, _ = self._get_node_prev(self._fs,
-                                        [x for x in self._path(path).split("/") if x],
-                                        follow_link=False)
+        parent, nd = self._get_node_prev(self._fs,
+                                         [x for x in self._path(path).split("/") if x],
+                                         follow_link=False)
+        if nd.kind == NodeKind.DIR:
+            raise OSError(errno.EISDIR, "Is a directory: %r" % path)
         if parent is not None:
             self._del_child(parent, path.last())
 
@@ -565,10 +589,12 @@ class MemoryFileSystem(FileSystem):
                                             [x for x in self._path(path).split("/") if x])
         if prev is not None:
             part = path.last()
-            if self._child(prev, part).isempty():
-                self._del_child(prev, part)
-            else:
+            nd = prev.get(part)
+            if nd.kind != NodeKind.DIR:
+                raise OSError(errno.ENOTDIR, "Not a directory: %r" % path)
+            if not nd.isempty():
                 raise OSError(errno.ENOTEMPTY, "Directory not empty: %r" % path)
+            self._del_child(prev, part)
 
 
     def lock(self, path, fail_on_lock, cleanup):
@@ -616,7 +642,7 @@ class MemoryFileSystem(FileSystem):
     def symlink(self, target, link_name):
         p = self._path(link_name)
         if p:
-            nd = self._get_node(self._fs, p.split("/")[:-1])
+            nd = self._get_dir(link_name, p.split("/")[:-1])
             file_to_create = p.split("/")[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
-- 
2.43.0


From 215f4e416b73a5c5f24441766a03146d87f3fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 13/44] fix: memory queries don't take lookup errors for a yes

Only a link loop means 'no'; any other error was answered with True. islink
raised on a loop instead of answering.
---
 abl/vpath/base/memory.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index c78503f..5ceea7f 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -410,8 +410,9 @@ class MemoryFileSystem(FileSystem):
                     return False
                 return nd.kind == NodeKind.DIR
             except OSError as e:
-                if e.errno == errno.ELOOP:
-                    return False
+                if e.errno != errno.ELOOP:
+                    raise
+                return False
 
         # the root always exists and is always a dir
         return True
@@ -425,8 +426,9 @@ class MemoryFileSystem(FileSystem):
                     return False
                 return nd.kind == NodeKind.FILE
             except OSError as e:
-                if e.errno == errno.ELOOP:
-                    return False
+                if e.errno != errno.ELOOP:
+                    raise
+                return False
         return False
 
 
@@ -457,8 +459,9 @@ class MemoryFileSystem(FileSystem):
                 if nd is None:
                     return False
             except OSError as e:
-                if e.errno == errno.ELOOP:
-                    return False
+                if e.errno != errno.ELOOP:
+                    raise
+                return False
         # the root always exists
         return True
 
@@ -631,11 +634,16 @@ class MemoryFileSystem(FileSystem):
 
     def islink(self, path):
         if self._path(path):
-            nd = self._get_node_for_path(self._fs, path, follow_link=False,
-                                         throw=False)
-            if nd is None:
+            try:
+                nd = self._get_node_for_path(self._fs, path, follow_link=False,
+                                             throw=False)
+                if nd is None:
+                    return False
+                return nd.kind == NodeKind.LINK
+            except OSError as e:
+                if e.errno != errno.ELOOP:
+                    raise
                 return False
-            return nd.kind == NodeKind.LINK
         return False
 
 
-- 
2.43.0


From a7959cb8d5a8e99adfdbce0548f57a2a0b99b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 14/44] fix: memory paths ignore empty components everywhere

A trailing slash was ignored by some operations only, mkdir('/foo/') made a
child without a name.
---
 abl/vpath/base/memory.py | 50 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 5ceea7f..9e74e82 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -386,12 +386,8 @@ class MemoryFileSystem(FileSystem):
 
     def _get_node_for_path(self, base, unc, follow_link=True, throw=True,
                            linklevel=0):
-        p = self._path(unc)
-        if p:
-            return self._get_node(base, p.split("/"), follow_link=follow_link,
-                                  throw=throw, linklevel=linklevel)
-        else:
-            return base
+        return self._get_node(base, self._steps(unc), follow_link=follow_link,
+                              throw=throw, linklevel=linklevel)
 
 
     def _path(self, path):
@@ -402,6 +398,10 @@ class MemoryFileSystem(FileSystem):
         return p
 
 
+    def _steps(self, path):
+        return [x for x in self._path(path).split("/") if x]
+
+
     def isdir(self, path):
         if self._path(path):
             try:
@@ -443,10 +443,10 @@ class MemoryFileSystem(FileSystem):
 
 
     def mkdir(self, path):
-        p = self._path(path)
-        if p:
-            nd = self._get_dir(path, p.split("/")[:-1])
-            dir_to_create = p.split("/")[-1]
+        steps = self._steps(path)
+        if steps:
+            nd = self._get_dir(path, steps[:-1])
+            dir_to_create = steps[-1]
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
@@ -480,10 +480,11 @@ class MemoryFileSystem(FileSystem):
 
     def _open_for_write(self, path, binary=False):
         p = self._path(path)
-        nd = self._get_dir(path, p.split("/")[:-1])
-        file_to_create = p.split("/")[-1]
-        if not file_to_create:
+        steps = self._steps(path)
+        if not steps or p.endswith("/"):
             raise IOError(errno.EISDIR, "File is directory" )
+        nd = self._get_dir(path, steps[:-1])
+        file_to_create = steps[-1]
 
         if nd.has(file_to_create):
             cnd = self._child(nd, file_to_create)
@@ -569,7 +570,7 @@ class MemoryFileSystem(FileSystem):
 
 
     def listdir(self, path):
-        nd = self._get_dir(path, [x for x in self._path(path).split("/") if x])
+        nd = self._get_dir(path, self._steps(path))
         return sorted(nd.keys())
 
 
@@ -578,20 +579,19 @@ class MemoryFileSystem(FileSystem):
 
 
     def removefile(self, path):
-        parent, nd = self._get_node_prev(self._fs,
-                                         [x for x in self._path(path).split("/") if x],
-                                         follow_link=False)
+        steps = self._steps(path)
+        parent, nd = self._get_node_prev(self._fs, steps, follow_link=False)
         if nd.kind == NodeKind.DIR:
             raise OSError(errno.EISDIR, "Is a directory: %r" % path)
         if parent is not None:
-            self._del_child(parent, path.last())
+            self._del_child(parent, steps[-1])
 
 
     def removedir(self, path):
-        prev, _ = self._get_node_prev(self._fs,
-                                            [x for x in self._path(path).split("/") if x])
+        steps = self._steps(path)
+        prev, _ = self._get_node_prev(self._fs, steps)
         if prev is not None:
-            part = path.last()
+            part = steps[-1]
             nd = prev.get(part)
             if nd.kind != NodeKind.DIR:
                 raise OSError(errno.ENOTDIR, "Not a directory: %r" % path)
@@ -648,10 +648,10 @@ class MemoryFileSystem(FileSystem):
 
 
     def symlink(self, target, link_name):
-        p = self._path(link_name)
-        if p:
-            nd = self._get_dir(link_name, p.split("/")[:-1])
-            file_to_create = p.split("/")[-1]
+        steps = self._steps(link_name)
+        if steps:
+            nd = self._get_dir(link_name, steps[:-1])
+            file_to_create = steps[-1]
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
-- 
2.43.0


From 72559e81233556debb01f59563245ac704a37d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 15/44] fix: memory files honour the mode they were opened with

Only read() was refused on a file opened for writing; a file opened for
reading could be written to, '+' was ignored.
---
 abl/vpath/base/memory.py | 43 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 9e74e82..a4eeae5 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -136,12 +136,18 @@ class MemoryFile(object):
 
 class MemoryFileProxy(object):
 
-    def __init__(self, mem_file, readable, binary=False):
+    def __init__(self, mem_file, readable, binary=False, writable=False):
         self.mem_file = mem_file
         self.readable = readable
+        self.writable = writable
         self.binary = binary
 
 
+    def _check(self, allowed):
+        if not allowed:
+            raise IOError(errno.EBADF, "bad file descriptor")
+
+
     def encode(self, data):
 
         return data if self.binary or isinstance(data, bytes) else data.encode("utf-8")
@@ -151,15 +157,20 @@ class MemoryFileProxy(object):
 
 
     def read(self, *args, **kwargs):
-        if not self.readable:
-            raise IOError(errno.EBADF, "bad file descriptor")
+        self._check(self.readable)
         return self.decode(self.mem_file.read(*args, **kwargs))
 
 
     def write(self, data, *args, **kwargs):
+        self._check(self.writable)
         return self.mem_file.write(self.encode(data), *args, **kwargs)
 
 
+    def truncate(self, *args, **kwargs):
+        self._check(self.writable)
+        return self.mem_file.truncate(*args, **kwargs)
+
+
     def __getattr__(self, name):
         return getattr(self.mem_file, name)
 
@@ -177,6 +188,7 @@ class MemoryFileProxy(object):
 
 
     def __next__(self):
+        self._check(self.readable)
         return self.decode(next(self.mem_file))
 
 
@@ -184,10 +196,12 @@ class MemoryFileProxy(object):
 
 
     def readline(self):
+        self._check(self.readable)
         return self.decode(self.mem_file.readline())
 
 
     def readlines(self):
+        self._check(self.readable)
         for line in self.mem_file.readlines():
             yield self.decode(line)
 
@@ -472,13 +486,13 @@ class MemoryFileSystem(FileSystem):
             self.next_op_callbacks[p](path, func)
 
 
-    def _open_for_read(self, path, binary=False):
+    def _open_for_read(self, path, binary=False, update=False):
         nd = self._get_file(path)
         nd.seek(0)
-        return MemoryFileProxy(nd, True, binary=binary)
+        return MemoryFileProxy(nd, True, binary=binary, writable=update)
 
 
-    def _open_for_write(self, path, binary=False):
+    def _open_for_write(self, path, binary=False, update=False):
         p = self._path(path)
         steps = self._steps(path)
         if not steps or p.endswith("/"):
@@ -491,30 +505,31 @@ class MemoryFileSystem(FileSystem):
             if cnd is not None and cnd.kind == NodeKind.DIR:
                 raise IOError(errno.EISDIR, "File is directory" )
             cnd.reset()
-            return MemoryFileProxy(cnd, False, binary=binary)
+            return MemoryFileProxy(cnd, update, binary=binary, writable=True)
         else:
             f = MemoryFile(p)
             self._create_child(nd, file_to_create, f)
-            return MemoryFileProxy(f, False, binary=binary)
+            return MemoryFileProxy(f, update, binary=binary, writable=True)
 
 
-    def _open_for_append(self, path, binary=False):
+    def _open_for_append(self, path, binary=False, update=False):
         if not self.exists(path):
-            return self._open_for_write(path, binary=binary)
+            return self._open_for_write(path, binary=binary, update=update)
         nd = self._get_file(path)
         nd.seek(len(nd))
-        return MemoryFileProxy(nd, False, binary=binary)
+        return MemoryFileProxy(nd, update, binary=binary, writable=True)
 
 
     def open(self, path, options, mimetype):
         with LookupExceptionClass(self, IOError):
             binary = (options and "b" in options)
+            update = bool(options and "+" in options)
             if options is None or "r" in options:
-                return self._open_for_read(path, binary=binary)
+                return self._open_for_read(path, binary=binary, update=update)
             elif "w" in options:
-                return self._open_for_write(path, binary=binary)
+                return self._open_for_write(path, binary=binary, update=update)
             elif "a" in options:
-                return self._open_for_append(path, binary=binary)
+                return self._open_for_append(path, binary=binary, update=update)
             else:
                 raise OSError(errno.EINVAL, "The mode flag is not valid")
 
-- 
2.43.0


From 8cf62a57e087fda6c5ec5815f2f424277623974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 16/44] fix: memory file locks belong to their filesystem

The table was shared by all memory filesystems: equal paths of two of them
locked each other, and creating another one forgot the locks held.
---
 abl/vpath/base/memory.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a4eeae5..7d2e597 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -25,15 +25,13 @@ class MemoryFile(object):
 
     kind = NodeKind.FILE
 
-    FILE_LOCKS = defaultdict(threading.Lock)
-
-    def __init__(self, path):
+    def __init__(self, path, lock):
         self.path = path
+        self.lock = lock
         self._data = BytesIO()
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def reset(self):
@@ -41,7 +39,6 @@ class MemoryFile(object):
         self._line_reader = None
         self.mtime = self.ctime = time.time()
         self.mode = 0
-        self.lock = self.FILE_LOCKS[self.path]
 
 
     def __len__(self):
@@ -322,7 +319,7 @@ class MemoryFileSystem(FileSystem):
         self.lookup_exc_class = OSError
         self._fs = MemoryDir()
         self.next_op_callbacks = {}
-        MemoryFile.FILE_LOCKS.clear()
+        self._file_locks = defaultdict(threading.Lock)
 
 
     def _child(self, parent, name, resolve_link=True, throw=True, linklevel=0):
@@ -507,7 +504,7 @@ class MemoryFileSystem(FileSystem):
             cnd.reset()
             return MemoryFileProxy(cnd, update, binary=binary, writable=True)
         else:
-            f = MemoryFile(p)
+            f = MemoryFile(p, self._file_locks[p])
             self._create_child(nd, file_to_create, f)
             return MemoryFileProxy(f, update, binary=binary, writable=True)
 
@@ -625,13 +622,13 @@ class MemoryFileSystem(FileSystem):
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self._file_locks[p]
             res = lock.acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
             p = self._path(path)
-            lock = MemoryFile(p).lock
+            lock = self._file_locks[p]
             lock.release()
 
         if mtime is not self.SENTINEL:
-- 
2.43.0


From 2d36327a735aaf24a2f9707d3f89b69b0fc7550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 17/44] fix: a memory file is locked before it gets emptied

The content was gone even when the lock couldn't be obtained.
---
 abl/vpath/base/memory.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 7d2e597..b7e61e3 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -276,14 +276,18 @@ class MemoryLock(object):
 
 
     def __enter__(self):
-        mfile = self.fs.open(self.path, "w", mimetype='application/octet-stream')
-        self.lock = mfile.lock
+        # opening empties the file, it has to be ours by then
+        self.lock = self.fs._lock_of(self.path)
         if self.fail_on_lock:
             if not self.lock.acquire(False):
                 raise LockFileObtainException
         else:
             self.lock.acquire()
-        return mfile
+        try:
+            return self.fs.open(self.path, "w", mimetype='application/octet-stream')
+        except:
+            self.lock.release()
+            raise
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
@@ -612,6 +616,13 @@ class MemoryFileSystem(FileSystem):
             self._del_child(prev, part)
 
 
+    def _lock_of(self, path):
+        nd = self._get_node_for_path(self._fs, path, throw=False)
+        if nd is not None and nd.kind == NodeKind.FILE:
+            return nd.lock
+        return self._file_locks[self._path(path)]
+
+
     def lock(self, path, fail_on_lock, cleanup):
         return MemoryLock(self, path, fail_on_lock, cleanup)
 
-- 
2.43.0


From 354a64c32b012e85082d0b26f50e5f88e305253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 18/44] fix: a locked memory file is cleaned up before it's
 unlocked

The file of whoever got the lock in between was removed.
---
 abl/vpath/base/memory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index b7e61e3..a62af3e 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -291,9 +291,11 @@ class MemoryLock(object):
 
 
     def __exit__(self, unused_exc_type, unused_exc_val, unused_exc_tb):
-        self.lock.release()
-        if self.cleanup:
-            self.path.remove()
+        try:
+            if self.cleanup:
+                self.path.remove()
+        finally:
+            self.lock.release()
 
 
 class LookupExceptionClass(object):
-- 
2.43.0


From ed7b671aede8a514bdddad2c5603577a0a6175aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 19/44] fix: closing a zip connection closes the archive

---
 abl/vpath/base/zip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 62db8ab..799f4aa 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -107,6 +107,10 @@ class ZipFileSystem(FileSystem):
         self._ziphandle = None
 
 
+    def close(self):
+        self.close_zip()
+
+
     def close_zip(self):
         if self._ziphandle is not None:
             self._ziphandle.close()
-- 
2.43.0


From 89cfd1b9ff938fa35c8990bbb3e432b2d6a5a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 20/44] fix: zip queries open the archive themselves

They crashed on a fresh connection and answered for an archive that had been
removed.
---
 abl/vpath/base/zip.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 799f4aa..c028613 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -114,8 +114,10 @@ class ZipFileSystem(FileSystem):
     def close_zip(self):
         if self._ziphandle is not None:
             self._ziphandle.close()
+            self._ziphandle = None
         if self._file_handle is not None:
             self._file_handle.close()
+            self._file_handle = None
 
 
     def open_zip(self, options=None):
@@ -208,6 +210,10 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         if path_string == '/':
             return True
+        if self._ziphandle is None:
+            if not self._zip_file_path().exists():
+                return False
+            self.open_zip()
         for item in self._ziphandle.namelist():
             result = compare_path_strings(path_string, item)
             if result in expected:
-- 
2.43.0


From 921ffa409e0e45adb2bbe3d8c44610f136cfc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 21/44] fix: closing a zip member commits it

Only leaving a 'with' block did, close() dropped the content.
---
 abl/vpath/base/zip.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index c028613..e2ab160 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -22,6 +22,12 @@ class WriteStatement(object):
 
 
     def __exit__(self, etype, evalue, etraceback):
+        self.close()
+
+
+    def close(self):
+        if self.byte_buffer.closed:
+            return
         self.zip_backend._ziphandle.writestr(self.path_string,
                                              self.byte_buffer.getvalue())
         self.byte_buffer.close()
-- 
2.43.0


From 11a4a42c76488ab57ee8ef907ef9ce2f6651ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 22/44] fix: an unsupported zip mode is refused

Appending ended in an UnboundLocalError, other modes returned None.
---
 abl/vpath/base/zip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index e2ab160..cf783fe 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -3,6 +3,8 @@
 # Author: Stephan Diehl <stephan.diehl@ableton.com>
 #******************************************************************************
 
+import errno
+
 from io import BytesIO
 from zipfile import ZipFile
 
@@ -144,13 +146,16 @@ class ZipFileSystem(FileSystem):
 
 
     def open(self, unc, options=None, mimetype='application/octet-stream'):
-        self.open_zip(options)
         if options is None:
             options = 'r'
         if 'r' in options:
+            self.open_zip(options)
             return self._open_for_reading(unc, options)
         elif 'w' in options:
+            self.open_zip(options)
             return self._open_for_writing(unc, options)
+        else:
+            raise OSError(errno.EINVAL, "The mode flag is not valid")
 
 
     def _open_for_reading(self, unc, options):
-- 
2.43.0


From 176d9b6f1f93d2f71905f72b932b8bba75b1e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 23/44] fix: a zip member is committed whatever happened to the
 archive since

Reading another member meanwhile left a read-only handle, the write failed.
---
 abl/vpath/base/zip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index cf783fe..87b7ad9 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -30,6 +30,8 @@ class WriteStatement(object):
     def close(self):
         if self.byte_buffer.closed:
             return
+        # the archive might have been reopened for reading by now
+        self.zip_backend.open_zip('w')
         self.zip_backend._ziphandle.writestr(self.path_string,
                                              self.byte_buffer.getvalue())
         self.byte_buffer.close()
-- 
2.43.0


From f5e691dba6eacde209fb08efeec5c122ee2810cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 24/44] fix: a zip member stays readable when another one is
 opened

Every open closes the archive and thereby all the members handed out.
---
 abl/vpath/base/zip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 87b7ad9..29c0144 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -163,8 +163,8 @@ class ZipFileSystem(FileSystem):
     def _open_for_reading(self, unc, options):
         path_string = self._path(unc)
         try:
-            self._ziphandle.getinfo(path_string)
-            return self._ziphandle.open(path_string)
+            # must not depend on the archive staying open
+            return BytesIO(self._ziphandle.read(path_string))
         except KeyError:
             raise FileDoesNotExistError()
 
-- 
2.43.0


From 6eafaec9ca972d262e5bc319426ae86caf9cd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 25/44] fix: paths in different archives aren't equal

---
 abl/vpath/base/simpleuri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e33ae77..7bbabab 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -149,6 +149,7 @@ class UriParse(object):
         return (
             self.scheme == other.scheme and
             self.netloc == other.netloc and
+            self.vpath_connector == other.vpath_connector and
             self.path == other.path and
             self.query == other.query
             )
-- 
2.43.0


From aa7698d6549b8d51f2cd5d80a299cd0db5adfdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 26/44] fix: urisplit copes with a missing authority and with
 '((' elsewhere

URIs without '//' crashed it, '((...))' in a path was replaced by the
internal placeholder.
---
 abl/vpath/base/uriparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index e5524b4..014eacb 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -76,7 +76,11 @@ def urisplit(uri):
     p = re.match(regex, uri).groups()
     scheme, authority, path, query, fragment = p[1], p[3], p[4], p[6], p[8]
     #if not path: path = None
-    authority = authority.replace('__inner_part__', inner_value)
+    if inner_value:
+        authority, path, query, fragment = [
+            x and x.replace('__inner_part__', inner_value)
+            for x in (authority, path, query, fragment)
+            ]
     if authority == '.':
         path = ''.join([authority, path])
         authority = None
-- 
2.43.0


From 9ffdb93d523f53bb2212ccb8fd995415cc8ac69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 27/44] fix: UriParse treats paths without a scheme as file
 paths

The default scheme was added, but not parsed.
---
 abl/vpath/base/simpleuri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index 7bbabab..90e1d65 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -77,7 +77,7 @@ class UriParse(object):
             self.path,
             self.query,
             self.fragment
-            ) = urisplit(uri)
+            ) = urisplit(self.uri)
         if self.authority and '((' in self.authority:
             self.vpath_connector = self.authority[2:-2]
             self.authority = ''
-- 
2.43.0


From 5d91ec7c19f3c43e75ff76551a928122140d2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 28/44] fix: query items without a value or with '=' in the
 value parse

Names are encoded just like values.
---
 abl/vpath/base/simpleuri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index 90e1d65..efacde1 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -22,10 +22,10 @@ def parse_query_string(query):
     result = {}
     qparts = query.split('&')
     for item in qparts:
-        key, value = item.split('=')
+        key, _, value = item.partition('=')
         key = key.strip()
         value = value.strip()
-        result[key] = unquote_plus(value)
+        result[unquote_plus(key)] = unquote_plus(value)
     return result
 
 class UriParse(object):
-- 
2.43.0


From 5e6c979e046e7443964f190805a864b5cdfb1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 29/44] fix: the text of a URI encodes its query

It is decoded when parsed, so the text denoted a different query.
---
 abl/vpath/base/simpleuri.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index efacde1..1eb3f0f 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -113,8 +113,7 @@ class UriParse(object):
 
     def __str__(self):
         if self.query:
-            qup = ['%s=%s' % (key, value) for key, value in list(self.query.items())]
-            rest = '?'+('&'.join(qup))
+            rest = '?'+urlencode(self.query)
         else:
             rest = ''
         if self.fragment:
-- 
2.43.0


From d17473901f58424c287f228591734aa33b7a0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 30/44] fix: mtime of local files is a float like documented

---
 abl/vpath/base/localfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index a01a6ac..865c6c4 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -159,7 +159,7 @@ class LocalFileSystem(FileSystem):
 
 
     def mtime(self, path):
-        return self.info(path).mtime
+        return os.path.getmtime(self._path(path))
 
 
     def copystat(self, source, dest):
-- 
2.43.0


From 436f259a47d571631bc66c3a08f12abe27392c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 31/44] fix: backends without lock and _manipulate say so

---
 abl/vpath/base/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 17e34a3..a503141 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1142,6 +1142,14 @@ class FileSystem(object):
         raise NotImplementedError
 
 
+    def lock(self, path, fail_on_lock, cleanup):
+        raise NotImplementedError
+
+
+    def _manipulate(self, path, *args, **kwargs):
+        raise NotImplementedError
+
+
 class RevisionedFileSystem(FileSystem):
     def switch(self, revision):
         raise NotImplementedError
-- 
2.43.0


From 9eccb33e9f2023e01fbdb57d2b3a41e2485346d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 32/44] fix: RevisionedFileSystem declares what RevisionedUri
 calls

---
 abl/vpath/base/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index a503141..99a9618 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -1151,7 +1151,7 @@ class FileSystem(object):
 
 
 class RevisionedFileSystem(FileSystem):
-    def switch(self, revision):
+    def switch(self, path, branch):
         raise NotImplementedError
 
 
@@ -1159,7 +1159,7 @@ class RevisionedFileSystem(FileSystem):
         raise NotImplementedError
 
 
-    def log(self, path, limit=0):
+    def log(self, path, limit=0, **kwargs):
         raise NotImplementedError
 
 
-- 
2.43.0


From 0d5f00f29e3d6f60e3dbe4e9dda888e5d318382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 33/44] fix: remove doesn't ignore special files

A fifo or socket is neither file nor directory, it was silently kept.
---
 abl/vpath/base/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 99a9618..5b5affb 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -605,7 +605,7 @@ class BaseUri(object):
                 return remove_dir_recursively(self.connection, self)
             else:
                 return self.connection.removedir(self)
-        elif self.connection.isfile(self):
+        else:
             return self.connection.removefile(self)
 
 
-- 
2.43.0


From 4641f28189aaa024bc0384d101e2766f0f13d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 34/44] fix: authorities without a host can be split and joined

urisplit reports a missing authority or host as None.
---
 abl/vpath/base/uriparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 014eacb..5e582da 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -123,6 +123,7 @@ def split_authority(authority):
        ('user', 'password', 'host', 'port')
 
     """
+    authority = authority or ''
     if '@' in authority:
         userinfo, hostport = authority.split('@', 1)
     else:
@@ -155,7 +156,7 @@ def join_authority(authority):
         if passwd:
             result += ':' + passwd
         result += '@'
-    result += host
+    result += host or ''
     if port:
         result += ':' + port
     return result
-- 
2.43.0


From 6cfd09074b40fe19c5d66026d93d98e5a7692a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 35/44] fix: mailto URIs may lack the host

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 5e582da..76f0e42 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -260,7 +260,7 @@ class MailtoURIParser(URLParser):
 
     def parse(self, urlinfo):
         scheme, authority, path, query, frag = urisplit(urlinfo)
-        user, host = path.split('@', 1)
+        user, _, host = path.partition('@')
         return (user, host, query, frag)
 
     def unparse(self, pieces):
-- 
2.43.0


From cfcdbd180775c6de40c52dbe3a2f0d1d064b5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 36/44] fix: the part after the scheme is told for every URI

---
 abl/vpath/base/uriparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/uriparse.py b/abl/vpath/base/uriparse.py
index 76f0e42..b8cb44c 100644
--- a/abl/vpath/base/uriparse.py
+++ b/abl/vpath/base/uriparse.py
@@ -329,7 +329,7 @@ class URIParser(object):
 
     def info_of(self, uri):
         """Return the non-scheme part of any URI."""
-        return uri.split(':')[1]
+        return uri.split(':', 1)[-1]
 
     def parser_for(self, uri):
         """Return the Parser object used to parse a particular URI.
-- 
2.43.0


From d5bac363299efe770b37986a01a3eba6bb98a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 37/44] fix: a URI text without a scheme can be printed and
 joined

---
 abl/vpath/base/simpleuri.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index 1eb3f0f..e09d017 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -78,6 +78,7 @@ class UriParse(object):
             self.query,
             self.fragment
             ) = urisplit(self.uri)
+        self.scheme = self.scheme or ''
         if self.authority and '((' in self.authority:
             self.vpath_connector = self.authority[2:-2]
             self.authority = ''
-- 
2.43.0


From 904218f451c3200e308a275a26e8c741f0482056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 38/44] fix: queries about a removed archive don't answer from
 its old handle

exists(), isfile() and isdir() looked for the archive only as long as it
had not been opened, so that members of an archive that was removed
since were still found while listdir() found none.
---
 abl/vpath/base/zip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 29c0144..5cae50b 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -223,9 +223,9 @@ class ZipFileSystem(FileSystem):
         path_string = self._path(unc)
         if path_string == '/':
             return True
+        if not self._zip_file_path().exists():
+            return False
         if self._ziphandle is None:
-            if not self._zip_file_path().exists():
-                return False
             self.open_zip()
         for item in self._ziphandle.namelist():
             result = compare_path_strings(path_string, item)
-- 
2.43.0


From 4207e8ef73ab83251ab4ba72e074fd0115824fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 39/44] fix: the root of an archive is a directory, not a file
 as well

---
 abl/vpath/base/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abl/vpath/base/zip.py b/abl/vpath/base/zip.py
index 5cae50b..f933e4d 100644
--- a/abl/vpath/base/zip.py
+++ b/abl/vpath/base/zip.py
@@ -222,7 +222,7 @@ class ZipFileSystem(FileSystem):
     def _ispart(self, unc, expected):
         path_string = self._path(unc)
         if path_string == '/':
-            return True
+            return ISDIR in expected
         if not self._zip_file_path().exists():
             return False
         if self._ziphandle is None:
-- 
2.43.0


From 1bab38f82912c2a7e8a2dd14272fecf3b1338dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 40/44] fix: mkdir and symlink on the memory root fail with
 EEXIST

---
 abl/vpath/base/memory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index a62af3e..cc2c61d 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -467,6 +467,8 @@ class MemoryFileSystem(FileSystem):
             if nd.has(dir_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(path))
             self._create_child(nd, dir_to_create, MemoryDir())
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(path))
 
 
     def exists(self, path):
@@ -680,6 +682,8 @@ class MemoryFileSystem(FileSystem):
             if nd.has(file_to_create):
                 raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
             self._create_child(nd, file_to_create, MemorySymlink(target))
+        else:
+            raise OSError(errno.EEXIST, "File exists: %r" % str(link_name))
 
 
     def readlink(self, path):
-- 
2.43.0


From 48cc1d28ef691071c14fcb8af823cfecfb83e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:34 +0000
Subject: [PATCH 41/44] fix: copying onto a link to the source, or below it
 through one, is refused

---
 abl/vpath/base/fs.py      | 25 ++++++++++++++++++++-----
 abl/vpath/base/localfs.py |  4 ++++
 abl/vpath/base/memory.py  | 14 ++++++++++++++
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/fs.py b/abl/vpath/base/fs.py
index 5b5affb..21266e7 100644
--- a/abl/vpath/base/fs.py
+++ b/abl/vpath/base/fs.py
@@ -919,13 +919,25 @@ class FileSystem(object):
         return uriobj.get_connection() is self
 
 
-    def _refuse_overlap(self, source, dest, inside=False):
+    def _location(self, uriobj):
+        """
+        The one path of what uriobj leads to: links are resolved by the
+        backends that have them.
+        """
+        return uriobj.unipath
+
+
+    def _refuse_overlap(self, source, dest, followlinks=True, inside=False):
         """
         A file can't be copied onto itself, a directory neither onto nor
         into itself.
         """
-        src = source.unipath.rstrip('/') + '/'
-        dst = dest.unipath.rstrip('/') + '/'
+        if followlinks or not source.islink():
+            src, dst = self._location(source), self._location(dest)
+        else:
+            src, dst = source.unipath, dest.unipath
+        src = src.rstrip('/') + '/'
+        dst = dst.rstrip('/') + '/'
         if dst == src or (inside and dst.startswith(src)):
             raise shutil.SameFileError("{} and {} overlap".format(source, dest))
 
@@ -960,7 +972,7 @@ class FileSystem(object):
             if dest.isdir():
                 dest = dest / source.last()
             if use_same_backend:
-                self._refuse_overlap(source, dest)
+                self._refuse_overlap(source, dest, followlinks)
 
             if source.islink() and not followlinks:
                 self._copy_link(source, dest)
@@ -976,7 +988,8 @@ class FileSystem(object):
             else:
                 droot = dest
             if use_same_backend:
-                self._refuse_overlap(source, droot, inside=followlinks or not source.islink())
+                self._refuse_overlap(source, droot, followlinks,
+                                     inside=followlinks or not source.islink())
 
             if source.islink() and not followlinks:
                 self._copy_link(source, droot)
@@ -1009,6 +1022,8 @@ class FileSystem(object):
                         if srcf.islink() and not followlinks:
                             self._copy_link(srcf, destf)
                         else:
+                            if use_same_backend:
+                                self._refuse_overlap(srcf, destf)
                             with srcf.open('rb') as infs, destf.open('wb') as outfs:
                                 shutil.copyfileobj(infs, outfs, 8192)
                             if use_same_backend:
diff --git a/abl/vpath/base/localfs.py b/abl/vpath/base/localfs.py
index 865c6c4..c9383c8 100644
--- a/abl/vpath/base/localfs.py
+++ b/abl/vpath/base/localfs.py
@@ -53,6 +53,10 @@ class LocalFileSystem(FileSystem):
         return uriobj.scheme == self.scheme
 
 
+    def _location(self, uriobj):
+        return os.path.realpath(self._path(uriobj)).replace(os.sep, '/')
+
+
     def info(self, unc, set_info=None, followlinks=True):
         p = self._path(unc)
 
diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index cc2c61d..ceff7ff 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -407,6 +407,20 @@ class MemoryFileSystem(FileSystem):
                               throw=throw, linklevel=linklevel)
 
 
+    def _location(self, path):
+        node, names, todo, links = self._fs, [], self._steps(path), 0
+        while todo:
+            name = todo.pop(0)
+            names.append(name)
+            if node is not None and node.kind == NodeKind.DIR and node.has(name):
+                node = node.get(name)
+            else:
+                node = None
+            if node is not None and node.kind == NodeKind.LINK and links < 32:
+                node, names, todo, links = self._fs, [], self._steps(node.target) + todo, links + 1
+        return '/' + '/'.join(names)
+
+
     def _path(self, path):
         p = super(MemoryFileSystem, self)._path(path)
         # cut off leading slash, that's our root
-- 
2.43.0


From 1d7cafe59124e27752e075919de765025cf37378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 42/44] fix: a memory file has one lock, whatever links lead to
 it

---
 abl/vpath/base/memory.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index ceff7ff..20679af 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -526,7 +526,7 @@ class MemoryFileSystem(FileSystem):
             cnd.reset()
             return MemoryFileProxy(cnd, update, binary=binary, writable=True)
         else:
-            f = MemoryFile(p, self._file_locks[p])
+            f = MemoryFile(p, self._file_locks[self._location(path)])
             self._create_child(nd, file_to_create, f)
             return MemoryFileProxy(f, update, binary=binary, writable=True)
 
@@ -638,7 +638,8 @@ class MemoryFileSystem(FileSystem):
         nd = self._get_node_for_path(self._fs, path, throw=False)
         if nd is not None and nd.kind == NodeKind.FILE:
             return nd.lock
-        return self._file_locks[self._path(path)]
+        # whatever links lead there, it's the lock the file is created with
+        return self._file_locks[self._location(path)]
 
 
     def lock(self, path, fail_on_lock, cleanup):
@@ -650,15 +651,11 @@ class MemoryFileSystem(FileSystem):
     def _manipulate(self, path, lock=SENTINEL, unlock=SENTINEL, mtime=SENTINEL,
                     next_op_callback=SENTINEL):
         if lock is not self.SENTINEL and lock:
-            p = self._path(path)
-            lock = self._file_locks[p]
-            res = lock.acquire()
+            res = self._lock_of(path).acquire()
             assert res, "you tried to double-lock a file, that's currently not supported"
 
         if unlock is not self.SENTINEL and unlock:
-            p = self._path(path)
-            lock = self._file_locks[p]
-            lock.release()
+            self._lock_of(path).release()
 
         if mtime is not self.SENTINEL:
             nd = self._get_node_for_path(self._fs, path)
-- 
2.43.0


From 066b82933f585a589bfe5380b35de7aa69b0e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 43/44] fix: a memory dump shows whole files and leaves the
 handles alone

---
 abl/vpath/base/memory.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/abl/vpath/base/memory.py b/abl/vpath/base/memory.py
index 20679af..d1cdeb0 100644
--- a/abl/vpath/base/memory.py
+++ b/abl/vpath/base/memory.py
@@ -561,15 +561,14 @@ class MemoryFileSystem(FileSystem):
         def traverse(current, path="memory:///"):
             for name, value in sorted(current.items()):
                 if value.kind == NodeKind.FILE:
-                    if no_binary:
-                        mt, _ = mimetypes.guess_type(name)
-                        if mt in self.BINARY_MIME_TYPES:
-                            hash_ = hashlib.md5()
-                            hash_.update(value)
-                            value = "Binary: %s" % hash_.hexdigest()
-                    proxy = MemoryFileProxy(value, readable=True, binary=False)
+                    data = bytes(value)
+                    mt, _ = mimetypes.guess_type(name)
+                    if no_binary and mt in self.BINARY_MIME_TYPES:
+                        content = "Binary: %s" % hashlib.md5(data).hexdigest()
+                    else:
+                        content = data.decode('utf-8')
                     outf.write("--- START %s%s ---\n" % (path, name))
-                    outf.write(proxy.read())
+                    outf.write(content)
                     outf.write("\n--- END ---\n\n")
                 elif value.kind == NodeKind.LINK:
                     outf.write("LINK: %s%s -> %s\n" % (path, name, value.target))
-- 
2.43.0


From fc471112b021b95365dfe61083dfe24a6cffa1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 44/44] fix: a port without a host makes a difference to ==

---
 abl/vpath/base/simpleuri.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/abl/vpath/base/simpleuri.py b/abl/vpath/base/simpleuri.py
index e09d017..4ba2e10 100644
--- a/abl/vpath/base/simpleuri.py
+++ b/abl/vpath/base/simpleuri.py
@@ -95,11 +95,10 @@ class UriParse(object):
         else:
             self.query = {}
 
-        if self.hostname:
-            if self.port:
-                self.netloc = ':'.join([self.hostname,str(self.port)])
-            else:
-                self.netloc = self.hostname
+        if self.port:
+            self.netloc = ':'.join([self.hostname or '', str(self.port)])
+        elif self.hostname:
+            self.netloc = self.hostname
 
     def __repr__(self):
         return '<SimpleUri (%s,%s,%s,%s,%s,%s) %s>' % (
-- 
2.43.0

