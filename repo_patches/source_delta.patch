From 378da3de49103d2171aeacda38ae5683d406fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/35] fix: delete the file a key maps to in
 AbstractFileSystem

__delitem__ used the key itself as file name, so keys that the key
converter changes (URLs for instance) were never deleted. clear() passed
file names and removed lock files, some of which might be in use.
---
 src/oidcmsg/storage/abfile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..9254498 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,14 +126,17 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._delete(self.key_conv.serialize(key))
+
+    def _delete(self, item):
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
                 os.unlink(fname)
 
         try:
-            del self.storage[key]
+            del self.storage[item]
         except KeyError:
             pass
 
@@ -249,7 +252,9 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            if f.endswith('.lock'):
+                continue
+            self._delete(f)
 
     def update(self, ava):
         """
-- 
2.43.0


From 27bf51c2e894b827a2993f329d2de7b355d929c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/35] fix: replace a stored file in one step

The file was truncated before the value was converted and written, so a value
that could not be converted, a full disc or a crash destroyed the previous
value. Readers that do not take the lock could see half a file. The time
stamp of the write was read after the lock was released, so a handle could
take someone else's later write for its own and return its old value for ever.
Two writes within one tick of the clock were indistinguishable.
---
 src/oidcmsg/storage/abfile.py | 45 +++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 9254498..fc2884d 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -1,6 +1,8 @@
 import logging
 import os
+import shutil
 import time
+import uuid
 
 from filelock import FileLock
 
@@ -116,14 +118,47 @@ class AbstractFileSystem(Storage):
             _key = key
 
         fname = os.path.join(self.fdir, _key)
+        content = self.value_conv.serialize(value)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
-            with open(fname, 'w') as fp:
-                fp.write(self.value_conv.serialize(value))
-
-        self.storage[_key] = value
+            self.fmtime[_key] = self._write_info(fname, content)
+            self.storage[_key] = value
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
+
+    def _write_info(self, fname, content):
+        """
+        Replace the content of a file in one step. If something goes wrong the file
+        is left as it was. Must be called with the lock for the file held.
+
+        :param fname: File name
+        :param content: The new content
+        :return: The last modified time of the file
+        """
+        # With this name it's ignored by everyone looking for items in the directory
+        tmp = os.path.join(self.fdir, '.{}.lock'.format(uuid.uuid4().hex))
+        try:
+            with open(tmp, 'w') as fp:
+                fp.write(content)
+                fp.flush()
+                os.fsync(fp.fileno())
+
+            stat = os.stat(tmp)
+            mtime = stat.st_mtime_ns
+            if os.path.exists(fname):
+                shutil.copymode(fname, tmp)
+                # A change has to be visible in the last modified time, no matter
+                # the resolution of the clock or if it has been set back.
+                previous = self.get_mtime(fname)
+                if mtime <= previous:
+                    mtime = previous + 1
+                    os.utime(tmp, ns=(stat.st_atime_ns, mtime))
+            os.replace(tmp, fname)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.unlink(tmp)
+            raise
+
+        return mtime
 
     def __delitem__(self, key):
         self._delete(self.key_conv.serialize(key))
-- 
2.43.0


From 019a889033657d11c01428b0d641c37f6f07d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 03/35] fix: notice every change of a stored file

A file with a time stamp older than the last one seen (the clock was set back)
was taken as unchanged. And after a failed attempt to read a changed
file the old value was returned as if nothing had happened.
---
 src/oidcmsg/storage/abfile.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index fc2884d..f907a08 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -92,8 +92,7 @@ class AbstractFileSystem(Storage):
 
         if self.is_changed(item):
             logger.info("File content change in {}".format(item))
-            fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+            self._load(item)
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -215,18 +214,28 @@ class AbstractFileSystem(Storage):
             try:
                 _ftime = self.fmtime[item]
             except KeyError:  # Never been seen before
-                self.fmtime[item] = mtime
                 return True
 
-            if mtime > _ftime:  # has changed
-                self.fmtime[item] = mtime
-                return True
-            else:
-                return False
+            # Not the same rather than newer, the clock might have been set back
+            return mtime != _ftime
         else:
             logger.error('Could not access {}'.format(fname))
             raise KeyError(item)
 
+    def _load(self, item):
+        """
+        Read an item from disc into the local cache.
+        The time is noted before the file is read and only kept if the reading was
+        successful. So a failed read, or a change while reading, means that the
+        file will be read again the next time someone asks for the item.
+
+        :param item: A key
+        """
+        fname = os.path.join(self.fdir, item)
+        mtime = self.get_mtime(fname)
+        self.storage[item] = self._read_info(fname)
+        self.fmtime[item] = mtime
+
     def _read_info(self, fname):
         if os.path.isfile(fname):
             try:
@@ -259,15 +268,12 @@ class AbstractFileSystem(Storage):
 
             if f in self.fmtime:
                 if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
+                    self._load(f)
             else:
-                mtime = self.get_mtime(fname)
                 try:
-                    self.storage[f] = self._read_info(fname)
+                    self._load(f)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
-                else:
-                    self.fmtime[f] = mtime
 
     def items(self):
         """
-- 
2.43.0


From b323b320b1ef8a67b14bbe44fb36a078469fe81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 04/35] fix: keep up with files removed or damaged by others

Items removed by another process were still listed by keys(), items(), 'in'
and calls, while items added by others were not found by 'in'. A file that was
removed at the wrong moment led to FileNotFoundError, or None, instead of
KeyError. Two processes starting at the same time could trip over each other's
creation of the directory. One damaged file made keys() and items() fail for
all items, but not if it was there already when the directory was first read.
---
 src/oidcmsg/storage/abfile.py | 80 ++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index f907a08..0a63141 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -71,7 +71,7 @@ class AbstractFileSystem(Storage):
             self.value_conv = PassThru()
 
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
 
         self.synch()
 
@@ -90,9 +90,13 @@ class AbstractFileSystem(Storage):
         """
         item = self.key_conv.serialize(item)
 
-        if self.is_changed(item):
-            logger.info("File content change in {}".format(item))
-            self._load(item)
+        try:
+            if self.is_changed(item):
+                logger.info("File content change in {}".format(item))
+                self._load(item)
+        except FileNotFoundError:  # Removed while I was looking at it
+            self._forget(item)
+            raise KeyError(item)
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -167,12 +171,21 @@ class AbstractFileSystem(Storage):
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
-                os.unlink(fname)
+                try:
+                    os.unlink(fname)
+                except FileNotFoundError:  # Someone else was faster
+                    pass
 
-        try:
-            del self.storage[item]
-        except KeyError:
-            pass
+        self._forget(item)
+
+    def _forget(self, item):
+        """
+        Remove an item from the local cache.
+
+        :param item: A key
+        """
+        self.storage.pop(item, None)
+        self.fmtime.pop(item, None)
 
     def keys(self):
         """
@@ -220,6 +233,7 @@ class AbstractFileSystem(Storage):
             return mtime != _ftime
         else:
             logger.error('Could not access {}'.format(fname))
+            self._forget(item)
             raise KeyError(item)
 
     def _load(self, item):
@@ -237,18 +251,14 @@ class AbstractFileSystem(Storage):
         self.fmtime[item] = mtime
 
     def _read_info(self, fname):
-        if os.path.isfile(fname):
-            try:
-                lock = FileLock('{}.lock'.format(fname))
-                with lock:
-                    info = open(fname, 'r').read().strip()
-                return self.value_conv.deserialize(info)
-            except Exception as err:
-                logger.error(err)
-                raise
-        else:
-            logger.error('No such file: {}'.format(fname))
-        return None
+        try:
+            lock = FileLock('{}.lock'.format(fname))
+            with lock:
+                info = open(fname, 'r').read().strip()
+            return self.value_conv.deserialize(info)
+        except Exception as err:
+            logger.error(err)
+            raise
 
     def synch(self):
         """
@@ -256,8 +266,9 @@ class AbstractFileSystem(Storage):
         the content of the directory.
         """
         if not os.path.isdir(self.fdir):
-            os.makedirs(self.fdir)
+            os.makedirs(self.fdir, exist_ok=True)
             # raise ValueError('No such directory: {}'.format(self.fdir))
+        found = set()
         for f in os.listdir(self.fdir):
             fname = os.path.join(self.fdir, f)
 
@@ -266,14 +277,23 @@ class AbstractFileSystem(Storage):
             if fname.endswith('.lock'):
                 continue
 
-            if f in self.fmtime:
+            try:
                 if self.is_changed(f):
                     self._load(f)
-            else:
-                try:
-                    self._load(f)
-                except Exception as err:
-                    logger.warning('Bad content in {} ({})'.format(fname, err))
+            except (FileNotFoundError, KeyError):  # Removed after it was listed
+                continue
+            except Exception as err:
+                logger.warning('Bad content in {} ({})'.format(fname, err))
+                if isinstance(err, OSError) and f in self.storage:
+                    raise  # It's still there, it's just that I can't get at it now
+                continue
+
+            found.add(f)
+
+        # Items removed or made unreadable by someone else
+        for f in list(self.storage.keys()):
+            if f not in found:
+                self._forget(f)
 
     def items(self):
         """
@@ -308,13 +328,13 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        return os.path.isfile(os.path.join(self.fdir, self.key_conv.serialize(item)))
 
     def __iter__(self):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From 3b6b4ff9b25da4480826f6db0ae8a8993b8944db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 05/35] fix: update(), iteration and length of labeled storage

update() put the label on the dictionary instead of on its keys and failed.
Iterating over a LabeledDict failed. The number of items was wrong if the
label contained characters that the key converter changes.
---
 src/oidcmsg/storage/abfile.py    | 6 +++---
 src/oidcmsg/storage/extension.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 0a63141..8b0e3d7 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -372,9 +372,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -411,7 +411,7 @@ class LabeledAbstractFileSystem(Storage):
 
         n = 0
         for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
+            if self.storage.key_conv.deserialize(f).startswith(self.label):
                 fname = os.path.join(self.storage.fdir, f)
 
                 if not os.path.isfile(fname):
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..e378528 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self.set(key, val)
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From bef3955c086d24df3fbc88713588626aafb889f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 06/35] fix: keys that can not be used as file names

A key ending with '.lock' was mapped to the lock file of another key. It was
never listed and its value was lost when the other key was used.
---
 src/oidcmsg/storage/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..851ff48 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -5,7 +5,11 @@ from urllib.parse import unquote_plus
 
 class QPKey:
     def serialize(self, str):
-        return quote_plus(str)
+        _key = quote_plus(str)
+        # Not usable as file names; current and parent directory and lock files
+        if _key in ['.', '..'] or _key.endswith('.lock'):
+            _key = _key.replace('.', '%2E')
+        return _key
 
     def deserialize(self, str):
         return unquote_plus(str)
-- 
2.43.0


From fa711f1f98f6928c6a562a50a7945dec0d2d3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 07/35] fix: make changes to the SQL storage all or nothing and
 visible

delete() never committed, so nobody else saw the deletion and the database
stayed locked. If set() failed the deletion of the old value was left pending
and became permanent with the next commit. 'in' looked at the values too and
iterating failed.
---
 src/oidcmsg/storage/absqlalchemy.py | 35 +++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..6fa76e5 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,13 +24,29 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        delquery = self.table.delete().where(self.table.c.owner == k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
-        self.session.execute(ins)
-        self.session.commit()
+        self._execute(delquery, ins)
         return 1
 
+    def _execute(self, *statements):
+        """
+        Do all of it or, if something goes wrong, nothing.
+
+        :return: The number of rows affected by the last statement
+        """
+        try:
+            for statement in statements:
+                result = self.session.execute(statement)
+            n_rows = result.rowcount
+            self.session.commit()
+        except BaseException:
+            self.session.rollback()
+            raise
+
+        return n_rows
+
     def update(self, k, v):
         """
             k = value_to_match
@@ -39,8 +55,7 @@ class AbstractStorageSQLAlchemy:
         upquery = self.table.update(). \
             where(self.table.c.owner == k). \
             values(**{'data': v})
-        self.session.execute(upquery)
-        self.session.commit()
+        self._execute(upquery)
         return 1
 
     def delete(self, v):
@@ -48,20 +63,16 @@ class AbstractStorageSQLAlchemy:
         return the count of deleted objects
         """
         delquery = self.table.delete().where(self.table.c.owner == v)
-        n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
-        self.session.execute(delquery)
-        return n_entries
+        return self._execute(delquery)
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.session.query(self.table).filter_by(owner=k).first() is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self())
 
     def __str__(self):
         entries = []
-- 
2.43.0


From 81ea42253acc133dc141bdd6072f6a505af7ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 08/35] fix: do not import the same keys again at every restart

With a persistent key jar every new OidcContext instance added another copy of
the configured keys, to the key jar and to disc.
---
 src/oidcmsg/context.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/context.py b/src/oidcmsg/context.py
index 30a38e1..7145fe0 100644
--- a/src/oidcmsg/context.py
+++ b/src/oidcmsg/context.py
@@ -1,6 +1,7 @@
 import copy
 from urllib.parse import quote_plus
 
+from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
 from cryptojwt.key_jar import init_key_jar
 
@@ -22,6 +23,24 @@ def add_issuer(conf, issuer):
     return res
 
 
+def import_missing_keys(keyjar, jwks, issuer_id):
+    """
+    Import the keys that are not in the key jar already. If the key jar is kept in
+    persistent storage they may have been imported by an earlier instance.
+
+    :param keyjar: A KeyJar instance
+    :param jwks: Dictionary representation of a JWKS
+    :param issuer_id: Who 'owns' the JWKS
+    """
+    if issuer_id in keyjar:
+        known = keyjar.get_issuer_keys(issuer_id)
+        jwks = {
+            'keys': [key.serialize(private=True) for key in KeyBundle(jwks['keys']).keys()
+                     if key not in known]
+        }
+    keyjar.import_jwks(jwks, issuer_id)
+
+
 class OidcContext:
     def __init__(self, config=None, keyjar=None, entity_id=''):
         if config is None:
@@ -61,11 +80,11 @@ class OidcContext:
             else:
                 _keyjar = KeyJar(storage=_storage)
                 if 'jwks' in conf:
-                    _keyjar.import_jwks(conf['jwks'], '')
+                    import_missing_keys(_keyjar, conf['jwks'], '')
 
             if '' in _keyjar and entity_id:
                 # make sure I have the keys under my own name too (if I know it)
-                _keyjar.import_jwks_as_json(_keyjar.export_jwks_as_json(True, ''), entity_id)
+                import_missing_keys(_keyjar, _keyjar.export_jwks(True, ''), entity_id)
 
             _httpc_params = conf.get('httpc_params')
             if _httpc_params:
-- 
2.43.0


From fe88801102ca323d62b1b0af0d60ee9d6a44a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 09/35] fix: do not accept unsigned logout tokens

Anyone could make a back-channel logout request with an unsigned token, or an
encrypted token that was not signed, that was accepted as coming from the
issuer. As for ID Tokens the 'none' algorithm has to be explicitly allowed.
---
 src/oidcmsg/oidc/session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..08c1eab 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,12 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+
+        # A Logout Token has to be signed. It might be encrypted too.
+        _alg = (idt.jws_header or {}).get('alg', 'none')
+        if _alg == 'none' and not kwargs.get('allow_sign_alg_none', False):
+            raise UnsupportedAlgorithm('Signing algorithm None not allowed')
+
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From f18e37d005e84df9c9cce00690ebd7791a857f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 10/35] fix: allow for clock skew when checking not before

The skew was applied in the wrong direction, the larger skew the more tokens
from issuers with a clock that is correct, or ahead, were rejected.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..2fc0bc4 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -983,7 +983,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From 2938a44419fbc8647dfb3d6aba83ef67cb657d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 11/35] fix: do not share default values between messages

Appending to a list that was there by default changed the default for every
message of that type, and for all future ones.
---
 src/oidcmsg/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..b9969dd 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,7 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            self._dict.setdefault(key, copy.deepcopy(val))
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 0a13541ca2b283b3f232a9072b9101b01d3d6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 12/35] fix: do not change the error codes allowed by OAuth2

Importing oidcmsg.oidc changed what oidcmsg.oauth2.AuthorizationErrorResponse
accepted since they shared the list.
---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 2fc0bc4..fe20f3f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From a33ce40ca6fea9ce19181c18b36fdc29fdde7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 13/35] fix: never take a received parameter for a verified one

The parsed and verified version of a signed component is added to a message under
a special name. Something received under that name was kept if the signed
component wasn't there, or if it was part of a request object.
---
 src/oidcmsg/oauth2/__init__.py | 16 ++++++++--------
 src/oidcmsg/oidc/__init__.py   |  4 ++++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..8987e5c 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -358,11 +358,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index fe20f3f..27b57d0 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -443,6 +443,7 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         super(AuthorizationRequest, self).verify(**kwargs)
 
         clear_verified_claims(self)
+        self._dict.pop("verified_id_token_hint", None)
 
         args = {}
         for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
@@ -459,6 +460,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
             if isinstance(self["request"], str):
                 # Try to decode the JWT, checks the signature
                 oidr = OpenIDRequest().from_jwt(str(self["request"]), **args)
+                # The request object can't tell what has been verified
+                clear_verified_claims(oidr)
+                oidr._dict.pop("verified_id_token_hint", None)
 
                 # check if something is change in the original message
                 for key, val in oidr.items():
-- 
2.43.0


From 1b3de416e0e43eaf9f4c6dfd5ba6dc12c952040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 14/35] fix: look for new keys when a token is signed with an
 unknown one

An issuer that starts to use a new key must expect the receiver to go back to
its jwks_uri when it sees an unfamiliar kid. There was an attempt to do that
but the lack of keys was reported as MissingSigningKey before it got there.
---
 src/oidcmsg/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b9969dd..cf31433 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -537,6 +537,10 @@ class Message(MutableMapping):
             elif verify:
                 if keyjar:
                     key.extend(keyjar.get_jwt_verify_keys(_jwt, **kwargs))
+                    if not key:
+                        # Could be that the issuer has started to use a new key
+                        keyjar.update()
+                        key.extend(keyjar.get_jwt_verify_keys(_jwt, **kwargs))
 
                 if "alg" in _header and _header["alg"] != "none":
                     if not key:
-- 
2.43.0


From 72c09554635b7863e080efd4fd0e308df8df7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 15/35] fix: use the UTC offset that applies to the time that
 is converted

The offset in use now was attached to all times, so if one is in daylight
saving time and the other isn't the result was one hour wrong. And a datetime
instance with another time zone was taken for local time.
---
 src/oidcmsg/oidc/identity_assurance.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..91867cd 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -57,9 +57,6 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
     if val:
         if isinstance(val, datetime.datetime):
             d = val
@@ -70,7 +67,8 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    # Adds the local time zone and the offset from UTC that applied at that time
+    return d.astimezone().strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
-- 
2.43.0


From a3402e33c1a4d9621177eecd9d2b880109c86e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 16/35] fix: entries with an empty key can be stored in files

The key jar keeps the entity's own keys under the empty string. With the storage configuration
described in storage/init.py that made OidcContext fail.
---
 src/oidcmsg/storage/converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 851ff48..c58cdd2 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -6,12 +6,16 @@ from urllib.parse import unquote_plus
 class QPKey:
     def serialize(self, str):
         _key = quote_plus(str)
+        if not _key:  # Nothing is not a file name. quote_plus never gives this one.
+            return '%'
         # Not usable as file names; current and parent directory and lock files
         if _key in ['.', '..'] or _key.endswith('.lock'):
             _key = _key.replace('.', '%2E')
         return _key
 
     def deserialize(self, str):
+        if str == '%':
+            return ''
         return unquote_plus(str)
 
 
-- 
2.43.0


From 00f0204e3d44dd2490a0173039e6afc7fac3242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 17/35] fix: JSON in JSON is not a string

---
 src/oidcmsg/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index cf31433..05bb1f1 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -900,6 +900,8 @@ def sp_sep_list_deserializer(val, sformat="urlencoded"):
 
 
 def json_serializer(obj, sformat="urlencoded", lev=0):
+    if sformat == "dict":  # will become part of something that is JSON
+        return obj
     return json.dumps(obj)
 
 
-- 
2.43.0


From f24a11152e0b1c398ab91c0af0a86aaf47cca317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 18/35] fix: a valid token request of a device is valid

---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
-- 
2.43.0


From fdb7caf1ee4271ca5ca8c7f0dc2bd0fa3bde807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 19/35] fix: an unsigned ID token is no hint

---
 src/oidcmsg/oidc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 27b57d0..d8a1e73 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -485,6 +485,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
+                _alg = (idt.jws_header or {}).get('alg', 'none')
+                if _alg == 'none' and not kwargs.get('allow_sign_alg_none', False):
+                    raise UnsupportedAlgorithm('Signing algorithm None not allowed')
                 self["verified_id_token_hint"] = idt
 
         if "response_type" not in self:
-- 
2.43.0


From 08733b8792ff8606b2d3f5fd955497fb380edd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 20/35] fix: a received time stamp can be sent again

Time stamps and dates in a received message are strings in the ISO 8601 format,
serializing such a message tried to make integers of them.
---
 src/oidcmsg/oidc/identity_assurance.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 91867cd..7062582 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -105,7 +105,11 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_time(int(val))
+        try:
+            val = int(val)
+        except ValueError:  # It's already in that format
+            return val
+        return to_iso8601_2004_time(val)
     else:
         raise ValueError("Wrong type of value")
 
@@ -130,7 +134,11 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
-        return to_iso8601_2004_date(int(val))
+        try:
+            val = int(val)
+        except ValueError:  # It's already in that format
+            return val
+        return to_iso8601_2004_date(val)
     else:
         raise ValueError("Wrong type of value")
 
-- 
2.43.0


From 5aafded5429aaead59b55c494a6e685369814afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:50 +0000
Subject: [PATCH 21/35] fix: verifying evidence ends and says whether it is
 valid

The verification of every kind of evidence called itself without end, the one of
the requests gave None if everything was in order.
---
 src/oidcmsg/oidc/identity_assurance.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 7062582..60d0aae 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -233,6 +233,11 @@ class Evidence(Message):
     }
 
     def verify(self, **kwargs):
+        super(Evidence, self).verify(**kwargs)
+
+        if isinstance(self, (IdDocument, UtilityBill, QES)):  # It's clear what it is
+            return True
+
         _type = self.get("type")
         if _type:
             if _type == "id_document":
@@ -262,6 +267,8 @@ class Evidence(Message):
             else:
                 raise ValueError("Unknown object")
 
+        return True
+
 
 def evidence_deser(val, sformat="urlencoded"):
     return deserialize_from_one_of(val, Evidence, sformat)
@@ -487,6 +494,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -506,6 +514,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -516,6 +525,7 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci = VerifiedClaimsRequest(**_vc)
             _vci.verify()
             self["verified_claims"] = _vci
+        return True
 
 
 class ClaimsConstructor:
-- 
2.43.0


From f3c269d562abfa56d5f6a5f736a345fa1a62a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 22/35] fix: minutes in a duration are not months

The M of the minutes was taken for the one of the months if there were none,
so PT5M could not be parsed.
---
 src/oidcmsg/time_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 093db1c..1e7d291 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -101,7 +101,10 @@ def parse_duration(duration):
                 raise TimeUtilError("Missing T")
         else:
             try:
-                mod = duration[index:].index(code)
+                if typ in ("tm_year", "tm_mon", "tm_mday"):  # must be before the T
+                    mod = duration[index:].split("T")[0].index(code)
+                else:
+                    mod = duration[index:].index(code)
                 try:
                     dic[typ] = int(duration[index:index + mod])
                 except ValueError:
-- 
2.43.0


From f2a07045e1e0f7f3dfb6f97e1036c90aa489ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 23/35] fix: adding a duration does not depend on the local
 time zone

Points in time are UTC here, but the result was taken for local time, which was
an hour off, or did not exist, where the clocks change. And a day has 24 hours,
60 or more of them gave the wrong day.
---
 src/oidcmsg/time_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/time_util.py b/src/oidcmsg/time_util.py
index 1e7d291..c9c7e5d 100755
--- a/src/oidcmsg/time_util.py
+++ b/src/oidcmsg/time_util.py
@@ -146,8 +146,8 @@ def add_duration(tid, duration):
         carry = f_quotient(temp, 60)
         # hours
         temp = tid.tm_hour + dur["tm_hour"] + carry
-        hour = modulo(temp, 60)
-        carry = f_quotient(temp, 60)
+        hour = modulo(temp, 24)
+        carry = f_quotient(temp, 24)
         # days
         if dur["tm_mday"] > maximum_day_in_month_for(year, month):
             temp_days = maximum_day_in_month_for(year, month)
@@ -168,8 +168,7 @@ def add_duration(tid, duration):
             month = modulo(temp, 1, 13)
             year += f_quotient(temp, 1, 13)
 
-        return time.localtime(time.mktime((year, month, days, hour, minutes,
-                                           secs, 0, 0, -1)))
+        return time.gmtime(calendar.timegm((year, month, days, hour, minutes, secs)))
     else:
         pass
 
-- 
2.43.0


From 8571b2ba3c57465aa8b5c81e4441b28c06c67f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 24/35] fix: a null in a request can be sent

Verification requests and their claims can be null, but no member that has a
serializer could be serialized then.
---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 05bb1f1..ea1a4b3 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -257,7 +257,7 @@ class Message(MutableMapping):
                     except KeyError:
                         _ser = None
 
-            if _ser:
+            if _ser and val is not None:
                 val = _ser(val, "dict", lev)
 
             if isinstance(val, Message):
-- 
2.43.0


From 55011b2a5378fd49725095dc58e09f139f15123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 25/35] fix: digits and punctuation are allowed in error
 descriptions

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 8987e5c..61a9915 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E, RFC 6749 section 5.2
+error_chars = set(chr(c) for c in range(0x20, 0x7f)) - {'"', '\\'}
 
 
 class ResponseMessage(Message):
-- 
2.43.0


From 1d8695691232e0944e3dc1dc0465a792aced273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 26/35] fix: '!' is allowed in scopes

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d8a1e73..8411c1c 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From 61d9848cdbf947a21f080acfbad0e2a6aff7b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:42 +0000
Subject: [PATCH 27/35] fix: an object is not accepted where a list is expected

---
 src/oidcmsg/message.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index ea1a4b3..2e91973 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -381,11 +381,15 @@ class Message(MutableMapping):
                 self._dict[skey] = val
             elif isinstance(val, dict):
                 try:
-                    val = _deser(val, sformat="dict")
+                    _val = _deser(val, sformat="dict")
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
-                else:
-                    self._dict[skey] = val
+
+                if _val is val and not issubclass(vtype, Message):
+                    # A dictionary is no list of something else
+                    raise DecodeError(ERRTXT % (key, "type != %s (%s)" % (vtype, type(val))))
+
+                self._dict[skey] = _val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
         else:
-- 
2.43.0


From 7304e45a1ff5f1d81097f1a1b74b732454083fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:43 +0000
Subject: [PATCH 28/35] fix: null is no value for a required boolean

---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 2e91973..9a67149 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -615,7 +615,7 @@ class Message(MutableMapping):
                     raise MissingRequiredAttribute("%s" % attribute)
                 continue
             else:
-                if typ == bool:
+                if typ == bool and val is not None:
                     pass
                 elif not val:
                     if required:
-- 
2.43.0


From 3de1fcf5b9b3f582eb63d9ace73287833c3fcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:21 +0000
Subject: [PATCH 29/35] fix: the audience of an authorization response was
 compared as part of a text

---
 src/oidcmsg/oidc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 8411c1c..1d40fb6 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -377,7 +377,10 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
         if "aud" in self:
             if "client_id" in kwargs:
                 # check that it's for me
-                if kwargs["client_id"] not in self["aud"]:
+                _aud = self["aud"]
+                if isinstance(_aud, str):  # one, or several separated by spaces
+                    _aud = _aud.split(" ")
+                if kwargs["client_id"] not in _aud:
                     return False
 
         if "id_token" in self:
-- 
2.43.0


From d5a9a9965fe4204a9333ed23fbd0e3368b6a0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:28 +0000
Subject: [PATCH 30/35] fix: a damaged entry could look like one that is not
 there

---
 src/oidcmsg/storage/abfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 8b0e3d7..2466cd2 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -255,7 +255,10 @@ class AbstractFileSystem(Storage):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
                 info = open(fname, 'r').read().strip()
-            return self.value_conv.deserialize(info)
+            try:
+                return self.value_conv.deserialize(info)
+            except KeyError as err:  # Something else than that there is no such item
+                raise ValueError('Bad content in {}: {!r}'.format(fname, err))
         except Exception as err:
             logger.error(err)
             raise
-- 
2.43.0


From 2a1bbb73e12a3cbf0c4aa4209d57464286d5395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:38 +0000
Subject: [PATCH 31/35] fix: claims constructor refused what a claims request
 can ask about a claim

A dictionary with essential, value, values or purpose as value was refused
whatever the type of the claim, and lists caused a TypeError.
---
 src/oidcmsg/oidc/identity_assurance.py | 28 ++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 60d0aae..4c2202f 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -528,6 +528,23 @@ class IDAClaimsRequest(ClaimsRequest):
         return True
 
 
+def _correct_claim(value, value_type):
+    """
+    Whether a value, or what is requested about it, fits the type of a claim
+    """
+    if isinstance(value_type, list):
+        if isinstance(value, list):
+            return all(_correct_claim(v, value_type[0]) for v in value)
+        value_type = value_type[0]
+
+    if isinstance(value, ClaimsConstructor):
+        return isinstance(value.base_class, value_type)
+    elif isinstance(value, dict):
+        return issubclass(value_type, Message) or _verify_claims_request_value(value, value_type)
+
+    return value is None or _correct_value_type(value, value_type)
+
+
 class ClaimsConstructor:
     def __init__(self, base_class=Message):
         if isinstance(base_class, str):
@@ -549,12 +566,9 @@ class ClaimsConstructor:
         """
         if value is not None:
             _value_type = self.base_class.value_type(key)
-            if _value_type:
-                if isinstance(value, ClaimsConstructor):
-                    if not isinstance(value.base_class, _value_type):
-                        raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value.base_class)))
-                elif not _correct_value_type(value, _value_type):
-                    raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value)))
+            if _value_type and not _correct_claim(value, _value_type):
+                _type = type(value.base_class if isinstance(value, ClaimsConstructor) else value)
+                raise ValueError("Wrong type of value '{}':'{}'".format(key, _type))
 
         self.info[key] = value
 
@@ -563,6 +577,8 @@ class ClaimsConstructor:
         for key, val in self.info.items():
             if isinstance(val, ClaimsConstructor):
                 res[key] = val.to_dict()
+            elif isinstance(val, list):
+                res[key] = [v.to_dict() if isinstance(v, ClaimsConstructor) else v for v in val]
             else:
                 res[key] = val
         return res
-- 
2.43.0


From 6d472adbbd21f596e8a787efef967f31b9cc0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 32/35] fix: claims requests that ask for falsy values of the
 wrong type, values that are no list or an empty purpose were accepted

As were 0 and 1 as essential, and true as value of a number.
---
 src/oidcmsg/oidc/identity_assurance.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 4c2202f..df0fd75 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -422,6 +422,8 @@ def _correct_value_type(val, value_type):
     else:
         if not isinstance(val, value_type):  # the simple case
             return False
+        if isinstance(val, bool) and value_type is int:
+            return False
     return True
 
 
@@ -430,22 +432,26 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _essential = value.get("essential")
+        if not (_essential is None or isinstance(_essential, bool)):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
-        _vs = value.get("values", [])
-        for _v in _vs:
-            if not _correct_value_type(_v, value_type):
+        _vs = value.get("values")
+        if _vs is not None:
+            if not isinstance(_vs, (list, tuple)):
                 return False
+            for _v in _vs:
+                if not _correct_value_type(_v, value_type):
+                    return False
 
         _p = value.get("purpose")
-        if _p:
-            if len(_p) < 3 or len(_p) > 300:
+        if _p is not None:
+            if not isinstance(_p, str) or len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
                 return False
-- 
2.43.0


From 3af679b004a6d002b13d757217fba5838e189342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:15 +0000
Subject: [PATCH 33/35] fix: unsigned tokens were accepted by from_jwt when an
 algorithm was asked for

The algorithm is compared by the verifier, which what is not signed does not
get to.
---
 src/oidcmsg/message.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 9a67149..5feee28 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -8,6 +8,7 @@ from urllib.parse import urlencode
 from cryptojwt.jwe.jwe import JWE
 from cryptojwt.jwe.jwe import factory as jwe_factory
 from cryptojwt.jws.exception import NoSuitableSigningKeys
+from cryptojwt.jws.exception import SignerAlgError
 from cryptojwt.jws.jws import JWS
 from cryptojwt.jws.jws import factory as jws_factory
 from cryptojwt.utils import as_unicode
@@ -536,6 +537,7 @@ class Message(MutableMapping):
 
             logger.debug("Raw JSON: %s", jso)
             logger.debug("JWS header: %s", _header)
+            self._check_sigalg(_header["alg"], kwargs)
             if _header["alg"] == "none":
                 pass
             elif verify:
@@ -562,11 +564,21 @@ class Message(MutableMapping):
 
             self.jws_header = _jwt.headers
         else:
+            self._check_sigalg("none", kwargs)
             jso = json.loads(txt)
 
         self.jwt = txt
         return self.from_dict(jso)
 
+    @staticmethod
+    def _check_sigalg(alg, kwargs):
+        # What is not signed does not get as far as the verifier, which compares the algorithms
+        _expected = kwargs.get("sigalg") or "none"
+        if alg == "none" and _expected != "none":
+            if not kwargs.get('allow_sign_alg_none', False):
+                raise SignerAlgError(
+                    "Wrong signing algorithm, expected {} got none".format(_expected))
+
     def __str__(self):
         """
         Return a string representation of this class
-- 
2.43.0


From f1558c0c22da2191fdebc63c084ca7b4324894b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:50 +0000
Subject: [PATCH 34/35] fix: evidence could only be given as dictionaries, not
 as Evidence instances

Verification elements that were taken apart could not be put together again.
---
 src/oidcmsg/oidc/identity_assurance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index df0fd75..9d86918 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -271,6 +271,9 @@ class Evidence(Message):
 
 
 def evidence_deser(val, sformat="urlencoded"):
+    if isinstance(val, Message):
+        return val
+
     return deserialize_from_one_of(val, Evidence, sformat)
 
 
-- 
2.43.0


From 9eb36ab1ffd1b02e56216cf90b7d66efc4bd2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:05 +0000
Subject: [PATCH 35/35] fix: a list that starts with null was dropped as if
 nothing had been given

What else is in it was lost rather than the list being refused.
---
 src/oidcmsg/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 5feee28..2a6e044 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -334,7 +334,7 @@ class Message(MutableMapping):
         """
 
         if isinstance(val, list):
-            if (len(val) == 0 or val[0] is None) and null_allowed is False:
+            if all(v is None for v in val) and null_allowed is False:
                 return
 
         if isinstance(vtyp, tuple):
-- 
2.43.0

