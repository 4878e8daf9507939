From c9973dbb42d81aa955569706c5f4810ae6204255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 01/27] fix: do not compare associations when two were issued
 in the same second

---
 openid/store/filestore.py | 2 +-
 openid/store/sqlstore.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..43009dd 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -255,7 +255,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=lambda pair: pair[0])
 
             # return the most recently issued one.
             if matching_associations:
diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..31f500b 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -247,7 +247,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=lambda pair: pair[0])
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From cd05c5fcf603eea905280ac31805ff3aba7f931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 02/27] fix: allow the table names of SQL stores to be omitted

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 31f500b..a7e64d8 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From d23aa69611acdb70b03d8d867e803826347858c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 03/27] fix: allow Server to be created without op_endpoint as
 documented

---
 openid/server/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..7afbe1e 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1565,8 +1565,10 @@ class Server(object):
                           "for OpenID 2.0 servers" %
                           (self.__class__.__module__, self.__class__.__name__),
                           stacklevel=2)
-        self.op_endpoint = string_to_text(op_endpoint,
-                                          "Binary values for op_endpoint are deprecated. Use text input instead.")
+        if op_endpoint is not None:
+            op_endpoint = string_to_text(op_endpoint,
+                                         "Binary values for op_endpoint are deprecated. Use text input instead.")
+        self.op_endpoint = op_endpoint
 
     def handleRequest(self, request):
         """Handle a request.
-- 
2.43.0


From 94b22729f78bc9b44654ee29e38adcc2fe488c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 04/27] fix: answer immediate requests negatively without
 claimed_id or identity

---
 openid/server/server.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 7afbe1e..ece05a2 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -897,10 +897,8 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id,
+                    message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
@@ -925,9 +923,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From 8a0c73d04af603275cb5e62f21419a0604775c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 05/27] fix: give MemoryStore the cleanup operation of the
 store interface

---
 openid/store/memstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..0581a97 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -7,6 +7,7 @@ import time
 import six
 
 from openid.store import nonce
+from openid.store.interface import OpenIDStore
 
 
 class ServerAssocs(object):
@@ -52,7 +53,7 @@ class ServerAssocs(object):
         return len(remove), len(self.assocs)
 
 
-class MemoryStore(object):
+class MemoryStore(OpenIDStore):
     """In-process memory store.
 
     Use for single long-running processes.  No persistence supplied.
-- 
2.43.0


From 9b8d9918255448bfc1b24511c5fad953da57dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 06/27] fix: treat URLs without a host as malformed in realm
 checks

---
 openid/server/trustroot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..0835e95 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -94,6 +94,9 @@ def _parseURL(url):
 
     split_url = urlsplit(url)
 
+    if not split_url.hostname:
+        return None
+
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
     return split_url.scheme, split_url.hostname, split_url.port, path
-- 
2.43.0


From dc970591e80bd9d845d6163cb0a8b0f1e42cac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 07/27] fix: report forbidden namespace aliases in requests as
 protocol errors

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index ece05a2..e688c74 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1445,7 +1445,7 @@ class Decoder(object):
             query['openid.ns'] = OPENID2_NS
             message = Message.fromPostArgs(query)
             raise ProtocolError(message, six.text_type(err))
-        except InvalidNamespace as err:
+        except (InvalidNamespace, AssertionError) as err:
             # If openid.ns is OK, but there is problem with other namespaces
             # We keep only bare parts of query and we try to make a ProtocolError from it
             query = [(key, value) for key, value in query.items() if key.count('.') < 2]
-- 
2.43.0


From 76ce6daa56d68bfc895f186855971718520d68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 08/27] fix: turn unverifiable response signatures into a
 failure result

---
 openid/consumer/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..7259eb4 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -802,7 +802,11 @@ class GenericConsumer(object):
                 raise ProtocolError(
                     'Association with %s expired' % (server_url,))
 
-            if not assoc.checkMessageSignature(message):
+            try:
+                valid = assoc.checkMessageSignature(message)
+            except ValueError as why:
+                raise ProtocolError('Unverifiable signature: %s' % six.text_type(why))
+            if not valid:
                 raise ProtocolError('Bad signature')
 
         else:
-- 
2.43.0


From 3a29a527f41e218f3421c7635404b969627ef3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 09/27] fix: treat an invalid return_to in a response as a
 mismatch

---
 openid/consumer/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 7259eb4..1cbc2d0 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -684,7 +684,11 @@ class GenericConsumer(object):
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
         app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        try:
+            msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        except ValueError as why:
+            _LOGGER.warning("Invalid return_to %r: %s", msg_return_to, why)
+            return False
 
         # (addressing scheme, network location, path) must be equal in
         # both URLs.
-- 
2.43.0


From 7f5c47c0827bd078958141c5828cfc0ccea65ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 10/27] fix: check responses that declare the OpenID 1.1
 namespace instead of crashing

---
 openid/consumer/consumer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 1cbc2d0..7f63b28 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, THE_OTHER_OPENID1_NS, Message,
+                            no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -710,7 +711,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -834,11 +835,13 @@ class GenericConsumer(object):
         require_fields = {
             OPENID2_NS: basic_fields + ['op_endpoint'],
             OPENID1_NS: basic_fields + ['identity'],
+            THE_OTHER_OPENID1_NS: basic_fields + ['identity'],
         }
 
         require_sigs = {
             OPENID2_NS: basic_sig_fields + ['response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint'],
             OPENID1_NS: basic_sig_fields,
+            THE_OTHER_OPENID1_NS: basic_sig_fields,
         }
 
         for field in require_fields[message.getOpenIDNamespace()]:
@@ -967,7 +970,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
-- 
2.43.0


From 377421c4f367abeed8061a1c3d2c9fe0a691c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 11/27] fix: flush the association file before syncing it to
 disk

---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 43009dd..a3346d8 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -188,6 +188,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 72bd714616887f8a713f636fe4f98ee36414b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 12/27] fix: escape the URL scheme in file store names

---
 openid/store/filestore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index a3346d8..f732717 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -163,6 +163,7 @@ class FileOpenIDStore(OpenIDStore):
             raise ValueError('Bad server URL: %r' % server_url)
 
         proto, rest = server_url.split('://', 1)
+        proto = _filenameEscape(proto)
         domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         if handle:
@@ -326,6 +327,7 @@ class FileOpenIDStore(OpenIDStore):
             # which is part of a consumer-generated nonce.
             proto, rest = '', ''
 
+        proto = _filenameEscape(proto)
         domain = _filenameEscape(rest.split('/', 1)[0])
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
-- 
2.43.0


From 69c058a5d70669befd87134640e7d518af7ac1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 13/27] fix: send the update URL of an attribute exchange fetch
 request

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..8f81e2e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 382c4e6cb4be5684250683378d0885d5e0a0cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 14/27] fix: report an update URL with a malformed realm as an
 AX error

---
 openid/extensions/ax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 8f81e2e..49ac0a8 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -318,7 +318,7 @@ class FetchRequest(AXMessage):
                 raise AXError("Cannot validate update_url %r against absent realm" % self.update_url)
 
             tr = TrustRoot.parse(realm)
-            if not tr.validateURL(self.update_url):
+            if tr is None or not tr.validateURL(self.update_url):
                 raise AXError("Update URL %r failed validation against realm %r" %
                               (self.update_url, realm,))
 
-- 
2.43.0


From 7e2332793868dd38094008b1011f66f73080ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:10 +0000
Subject: [PATCH 15/27] fix: ignore attribute exchange data that is not signed
 instead of crashing

---
 openid/extensions/ax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 49ac0a8..a6ffe18 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -702,6 +702,8 @@ class FetchResponse(AXKeyValueMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
@@ -816,6 +818,8 @@ class StoreResponse(AXMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
-- 
2.43.0


From e5388160ca99e7ee1a54128b64abf092b199188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 16/27] fix: make attribute exchange store responses readable

---
 openid/extensions/ax.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index a6ffe18..53ac77c 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -797,6 +797,20 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """Parse attribute exchange store response arguments into this object.
+
+        @raises NotAXMessage: when the arguments contain no AX mode.
+        @raises AXError: when the mode is not a store response mode.
+        """
+        mode = ax_args.get('mode')
+        if not mode:
+            raise NotAXMessage()
+        if mode not in (self.SUCCESS_MODE, self.FAILURE_MODE):
+            raise AXError('Expected a store response mode; got %r' % (mode,))
+        self.mode = mode
+        self.error_message = ax_args.get('error')
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
-- 
2.43.0


From 48750f1f84465298178cf8151d21d12b576a9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 17/27] fix: make YadisServiceManager iterable on Python 3

---
 openid/yadis/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/yadis/manager.py b/openid/yadis/manager.py
index 4da7c64..a80230d 100644
--- a/openid/yadis/manager.py
+++ b/openid/yadis/manager.py
@@ -39,6 +39,8 @@ class YadisServiceManager(object):
         else:
             return self._current
 
+    __next__ = next
+
     def current(self):
         """Return the current service.
 
-- 
2.43.0


From afee278b9acfc9505e631d9016066d780f9a7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 18/27] fix: prefer provider-identifier services and sort the
 rest by type as documented

---
 openid/consumer/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..6d4a619 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -357,7 +357,7 @@ def getOPOrUserServices(openid_services):
 
     Returns a list of OpenIDServiceEndpoint objects."""
 
-    op_services = arrangeByType(openid_services, [OPENID_IDP_2_0_TYPE])
+    op_services = [service for service in openid_services if service.isOPIdentifier()]
 
     openid_services = arrangeByType(openid_services,
                                     OpenIDServiceEndpoint.openid_type_uris)
-- 
2.43.0


From 4941c76b3c363b17166a8514f980b379c3985d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 19/27] fix: report canonical identifiers without a valid
 parent as fraud instead of crashing

---
 openid/yadis/etxrd.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..84ccb19 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -171,23 +171,22 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list.reverse()
 
     try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
+        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text or '')
     except IndexError:
         return None
 
     childID = canonicalID.lower()
 
     for xrd in xrd_list[1:]:
-        # XXX: can't use rsplit until we require python >= 2.4.
-        parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
-        if parent_sought != parent.lower():
+        parent_sought, bang, _ = childID.rpartition('!')
+        parent = xri.XRI(xrd.findtext(canonicalID_tag, ''))
+        if not bang or parent_sought != parent.lower():
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
         childID = parent_sought
 
     root = xri.rootAuthority(iname)
-    if not xri.providerIsAuthoritative(root, childID):
+    if '!' not in childID or not xri.providerIsAuthoritative(root, childID):
         raise XRDSFraud("%r can not come from root %r" % (childID, root))
 
     return canonicalID
-- 
2.43.0


From 8f812c195474f4d36069ab4b1a83ce015b89b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 20/27] fix: remove associations from SQL stores as soon as
 their lifetime is over

---
 openid/store/sqlstore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index a7e64d8..b7c46f7 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -358,7 +358,7 @@ class SQLiteStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = ? AND handle = ?;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < ?;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= ?;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (?, ?, ?);'
 
@@ -437,7 +437,7 @@ class MySQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
@@ -530,7 +530,7 @@ class PostgreSQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
-- 
2.43.0


From e7a2a5b0836f9f5e504aee21246af87cf231afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 21/27] fix: hash the Diffie-Hellman shared secret in its
 shortest btwoc form

The library returns the shared secret padded to the size of the modulus, so
about one association in 256 was established with a different MAC key than
the other party computed.
---
 openid/dh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..455b2c7 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -133,7 +133,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         hashed_dh_shared = hash_func(dh_shared)
         return strxor(secret, hashed_dh_shared)
@@ -152,7 +152,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         digest = hashes.Hash(algorithm, backend=default_backend())
         digest.update(dh_shared)
-- 
2.43.0


From 2495f43ae5fa6ba5ea228b0f904ccd583415ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:56 +0000
Subject: [PATCH 22/27] fix: report error replies with unreadable bodies as
 fetching errors

---
 openid/consumer/consumer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 7f63b28..59717dc 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -246,15 +246,15 @@ def _httpResponseToMessage(response, server_url):
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
-    if response.status == 400:
-        raise ServerError.fromMessage(response_message)
-
-    elif response.status not in (200, 206):
+    if response.status not in (200, 206, 400):
         fmt = 'bad status code from server %s: %s'
         error_message = fmt % (server_url, response.status)
         raise fetchers.HTTPFetchingError(error_message)
 
+    response_message = Message.fromKVForm(response.body)
+    if response.status == 400:
+        raise ServerError.fromMessage(response_message)
+
     return response_message
 
 
-- 
2.43.0


From 759947ffc58124d37b9fbe17dd4c2480f1eddef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 23/27] fix: report malformed direct replies as fetching errors

---
 openid/consumer/consumer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 59717dc..ad7d6a8 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -241,7 +241,7 @@ def _httpResponseToMessage(response, server_url):
     @rtype: L{openid.message.Message}
 
     @raises openid.fetchers.HTTPFetchingError: if the server returned a
-        status of other than 200 or 400.
+        status of other than 200 or 400, or its response is malformed.
 
     @raises ServerError: if the server returned an OpenID error.
     """
@@ -251,7 +251,12 @@ def _httpResponseToMessage(response, server_url):
         error_message = fmt % (server_url, response.status)
         raise fetchers.HTTPFetchingError(error_message)
 
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (ValueError, KeyError, AssertionError) as why:
+        # The body is not an encoded message or its namespaces are invalid.
+        raise fetchers.HTTPFetchingError('malformed response from server %s: %s' % (server_url, why))
+
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
-- 
2.43.0


From a2e136d90ed722f6d6ce0ef0eefc8a97d9cf7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:04 +0000
Subject: [PATCH 24/27] fix: do not crash on pages which declare an unknown
 character encoding

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..93b006e 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -138,7 +138,8 @@ def whereIsYadis(resp):
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (ValueError, LookupError):
+                # The body is not in the declared encoding, or there is no such encoding.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From dd02889dde1bd5e864aabb142ee26643ca86fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 25/27] fix: Ignore empty service types in XRDS documents

An empty Type element (or one which holds only a comment) made discovery
fail with AttributeError instead of ignoring the type.
---
 openid/yadis/etxrd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 84ccb19..00c3a8b 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -273,6 +273,9 @@ def getTypeURIs(service_element):
     output = []
     for type_element in service_element.findall(type_tag):
         type_uri = type_element.text
+        if type_uri is None:
+            # Empty element
+            continue
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
-- 
2.43.0


From a61c020ed1d347d5f0e290c9c4072be5f05765b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 26/27] fix: Refuse attribute exchange requests with malformed
 aliases

An alias containing a period made FetchRequest.parseExtensionArgs raise
AssertionError (or nothing at all with python -O) instead of AXError.
---
 openid/extensions/ax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 53ac77c..d1253e2 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -351,6 +351,7 @@ class FetchRequest(AXMessage):
             if key.startswith('type.'):
                 alias = key[5:]
                 type_uri = value
+                checkAlias(alias)
                 aliases.addAlias(type_uri, alias)
 
                 count_key = 'count.' + alias
-- 
2.43.0


From 7ec9c66b068784dcf91f40cc1c5eabcda776d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 27/27] fix: Allow an OpenID 2 request without a return_to URL

---
 openid/consumer/consumer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index ad7d6a8..1dd07a6 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1571,8 +1571,9 @@ class AuthRequest(object):
         else:
             realm_key = 'realm'
 
-        message.updateArgs(OPENID_NS,
-                           {realm_key: realm, 'mode': mode, 'return_to': return_to})
+        message.updateArgs(OPENID_NS, {realm_key: realm, 'mode': mode})
+        if return_to is not None:
+            message.setArg(OPENID_NS, 'return_to', return_to)
 
         if not self._anonymous:
             if self.endpoint.isOPIdentifier():
-- 
2.43.0

