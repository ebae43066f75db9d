From 196907f5a8f9c1f2521f7fdc2e48dc96147cbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 01/32] fix: raise the record_overflow alert that exists

alerts.RecordOverFlow does not exist: an oversized record failed with an
AttributeError and an internal_error alert.
---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 0f60da4..c1591ec 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -216,7 +216,7 @@ class TLSConnection:
         if content_length > max_fragment_length:
             e =(f"the record is longer ({content_length} bytes) than "
                 f"the allowed maximum ({max_fragment_length} bytes)")
-            raise alerts.RecordOverFlow(e)
+            raise alerts.RecordOverflow(e)
 
         if len(self._input_data) - 5 < content_length:
             return None
-- 
2.43.0


From 2ed178271a85515ae891d64a11978b24529a4774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 02/32] fix: do not pad full-size records over the record size
 limit

A fragment that already filled its chunk got a whole extra chunk of
padding: a full-size fragment became a 20480 bytes record.
---
 src/siotls/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index c1591ec..5f98848 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -351,7 +351,7 @@ class TLSConnection:
 
         for fragment in fragments:
             fragment_length = len(fragment) + 1 + self._cipher.tag_length
-            padding = b'\x00' * (chunk_size - fragment_length % chunk_size)
+            padding = b'\x00' * (-fragment_length % chunk_size)
             data = b''.join([
                 fragment,
                 content_type.to_bytes(1, 'big'),
-- 
2.43.0


From 3e6fc7f08ff3a231b8fd8c9c3b81d6a569f9ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 03/32] fix: refuse to send heartbeats that were not negotiated

The error was built but never raised, and the configuration has no
can_send_heartbeat.
---
 src/siotls/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5f98848..61f4656 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -295,9 +295,9 @@ class TLSConnection:
             e = f"cannot send content in state {self._state.name()}"
             raise TLSError(e)
         if (content.content_type == ContentType.HEARTBEAT
-            and (not self.config.can_send_heartbeat
-                 or self.nconfig and not self.nconfig.can_send_heartbeat)):
+            and not (self.nconfig and self.nconfig.can_send_heartbeat)):
             e = "cannot send heartbeat on this connection"
+            raise TLSError(e)
 
         logger.debug("will send %s", type(content).__name__)
         data = content.serialize()
-- 
2.43.0


From 1ec5b603a410f5fd5d96af71769d15b2b6d2528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 04/32] fix: use bad_record_mac for records that cannot be
 deprotected

RFC 8446 section 5.2 and the documentation of BadRecordMac.
---
 src/siotls/crypto/ciphers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c1f693e..2934f2b 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -150,7 +150,7 @@ class TLSCipherSuite(metaclass=RegistryMeta):
         try:
             return self._read_cipher.decrypt(self._next_read_nonce(), data, associated_data)
         except InvalidTag as exc:
-            raise alerts.DecryptError from exc
+            raise alerts.BadRecordMac from exc
 
     def _next_read_nonce(self):
         nonce = self._read_iv ^ next(self._read_seq)
-- 
2.43.0


From cb0292dc10f7eb0a77d97f9ce4eeb6211efec741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 05/32] fix: always move to Failed on fatal errors

Sending the alert raised when the sending side was closed already, and
the connection was left in its previous state.
---
 src/siotls/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 61f4656..5284007 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -171,7 +171,8 @@ class TLSConnection:
                 e =("can only fail with a fatal alert which "
                     f"{fatal_alert!r} is not")
                 raise ValueError(e)
-            self._send_content(fatal_alert)
+            if self._state.can_send:
+                self._send_content(fatal_alert)
         self._move_to_state(states.Failed)
 
     def is_post_handshake(self):
-- 
2.43.0


From 36e37a6afcfc2aaf9ef4614f817b56d477d254c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 06/32] fix: no application data under the handshake keys

The server allowed send_data() while waiting for the client Finished,
where records are still protected with the handshake traffic keys.
---
 src/siotls/states/server/wait_finished.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/server/wait_finished.py b/src/siotls/states/server/wait_finished.py
index fcba4d2..6b87ce7 100644
--- a/src/siotls/states/server/wait_finished.py
+++ b/src/siotls/states/server/wait_finished.py
@@ -7,7 +7,7 @@ from .. import Connected, State
 class ServerWaitFinished(State):
     can_receive = True
     can_send = True
-    can_send_application_data = True
+    can_send_application_data = False
 
     def __init__(self, connection, server_finished_transcript_hash):
         super().__init__(connection)
-- 
2.43.0


From e52d5b4810544d3a2f36ef47f3407fd3c45d75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 07/32] fix: closing neither completes a handshake nor revives
 a failure

close_sending_end() during the handshake moved to Closed, where
plaintext application data is accepted, and close_receiving_end() moved
failed connections to Closed.
---
 src/siotls/connection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 5284007..4022605 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -154,11 +154,18 @@ class TLSConnection:
             logger.warning("EOF or CloseNotify alert during handshake")
             self._fail()
             return
+        if isinstance(self._state, states.Failed):
+            return
         if type(self._state) != states.Closed:
             self._move_to_state(states.Closed)
         self._state.can_receive = False
 
     def close_sending_end(self):
+        if not self.is_post_handshake():
+            logger.warning("closing during handshake")
+            self._send_content(alerts.CloseNotify())
+            self._fail()
+            return
         if not isinstance(self._state, states.Closed | states.Failed):
             self._move_to_state(states.Closed)
         if self._state.can_send:
-- 
2.43.0


From d7e2fb9ebe01483ed66149ac870a7b2adc22f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 08/32] fix: process close_notify and error alerts as RFC 8446
 section 6 says

A close_notify moved any state, unfinished handshakes included, to a new
Closed state that could receive (and send) again; data after it was
still delivered. Error alerts sent at the warning level were ignored,
unknown ones crashed, and fatal alerts were sent back to the peer.
---
 src/siotls/connection.py      |  2 +-
 src/siotls/states/__init__.py | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 4022605..caf2c3e 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -95,7 +95,7 @@ class TLSConnection:
             raise alerts.UnexpectedMessage(e)
         self._input_data += data
 
-        while True:
+        while self._state.can_receive:
             try:
                 next_content = self._read_next_content()
                 if not next_content:
diff --git a/src/siotls/states/__init__.py b/src/siotls/states/__init__.py
index 9498b89..e6c7fb7 100644
--- a/src/siotls/states/__init__.py
+++ b/src/siotls/states/__init__.py
@@ -1,8 +1,9 @@
 import abc
 import logging
 
-from siotls.contents.alerts import Alert, UnexpectedMessage
-from siotls.iana import AlertDescription, AlertLevel, ContentType
+from siotls import TLSError
+from siotls.contents.alerts import TLSFatalAlert, UnexpectedMessage
+from siotls.iana import AlertDescription, ContentType
 
 logger = logging.getLogger('siotls.connection')
 
@@ -36,15 +37,15 @@ class State(metaclass=abc.ABCMeta):
         if content.content_type == ContentType.ALERT:
             alert = content
             if alert.description == AlertDescription.CLOSE_NOTIFY:
-                self._move_to_state(Closed)
-                self._state.recv_closed = True
                 logger.debug("%s closed its sending side", self.config.other_side)
-            elif alert.level == AlertLevel.WARNING:
-                logger.debug("warning alert from %s: %s",
-                     self.config.other_side, content.description.name)
+                self.connection.close_receiving_end()
+            elif alert.description == AlertDescription.USER_CANCELED:
+                logger.debug("user canceled alert from %s", self.config.other_side)
             else:
-                e = f"fatal alert from {self.config.other_side}"
-                raise Alert[alert.description](e)
+                # all other alerts are fatal, whatever the level
+                e = f"fatal alert from {self.config.other_side}: {alert.description!r}"
+                self._move_to_state(Failed)
+                raise type(alert)(e) if isinstance(alert, TLSFatalAlert) else TLSError(e)
         elif content.content_type == ContentType.HEARTBEAT:
             raise NotImplementedError
         else:
-- 
2.43.0


From 4941373cb9c29486c44ad612013696bc7181ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 09/32] fix: accept several handshakes inside a single record

Coalesced handshake messages, as sent by e.g. openssl, failed with a
TooMuchDataError and an internal_error alert. They still cannot span
over a key change.
---
 src/siotls/connection.py     | 57 ++++++++++++++++--------------------
 src/siotls/crypto/ciphers.py |  4 +++
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index caf2c3e..3517d08 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -6,7 +6,7 @@ import types
 from siotls import TLSError, key_logger
 from siotls.crypto.ciphers import TLSCipherSuite
 from siotls.iana import AlertLevel, ContentType, TLSVersion
-from siotls.serial import SerialIO, TLSBufferError, TooMuchDataError
+from siotls.serial import SerialIO, TLSBufferError
 from siotls.wrapper import WrappedSocket
 
 from . import states
@@ -19,6 +19,7 @@ cipher_plaintext = types.SimpleNamespace(
     must_encrypt=False,
     must_decrypt=False,
     should_rekey=False,
+    read_key=None,
 )
 
 def startswith_change_cipher_spec(data):
@@ -119,7 +120,11 @@ class TLSConnection:
                     self._transcript.update(
                         content_data, self.config.other_side, content.msg_type
                     )
+                read_key = self._cipher.read_key
                 self._state.process(content)
+                if self._input_handshake and self._cipher.read_key is not read_key:
+                    e = "handshakes cannot span over a key change"
+                    raise alerts.UnexpectedMessage(e)
             except alerts.TLSFatalAlert as alert:
                 self._fail(alert)
                 raise
@@ -255,44 +260,32 @@ class TLSConnection:
         # handshakes can be fragmented over multiple following records,
         # other content types are not subject to fragmentation
 
-        record = self._read_next_record()
-        if not record:
-            return None
-
-        content_type, fragment = record
-        if not self._input_handshake:
-            if content_type != ContentType.HANDSHAKE:
-                return content_type, fragment
-            else:
-                self._input_handshake = fragment
-        elif content_type != ContentType.HANDSHAKE:
-            e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                f"but {content_type} found")
-            raise alerts.UnexpectedMessage(e)
-        else:
-            self._input_handshake += fragment
-
-        if len(self._input_handshake) < 4:  # noqa: PLR2004
-            return None
-        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big')
-        while len(self._input_handshake) - 4 < handshake_length:
+        while not self._has_full_handshake():
             record = self._read_next_record()
             if not record:
                 return None
+
             content_type, fragment = record
             if content_type != ContentType.HANDSHAKE:
-                e =(f"expected {ContentType.HANDSHAKE} continuation record "
-                    f"but {content_type} found")
-                raise alerts.UnexpectedMessage(e)
+                if self._input_handshake:
+                    e =(f"expected {ContentType.HANDSHAKE} continuation record "
+                        f"but {content_type} found")
+                    raise alerts.UnexpectedMessage(e)
+                return content_type, fragment
             self._input_handshake += fragment
-        if len(self._input_handshake) - 4 > handshake_length:
-            e = (f"expected {handshake_length + 4} bytes but "
-                 f"{len(self._input_handshake)} read")
-            raise TooMuchDataError(e)
 
-        content_data = self._input_handshake
-        self._input_handshake = bytearray()
-        return content_type, content_data
+        # there can be several handshakes inside a single record
+        handshake_length = int.from_bytes(self._input_handshake[1:4], 'big') + 4
+        content_data = self._input_handshake[:handshake_length]
+        self._input_handshake = self._input_handshake[handshake_length:]
+        return ContentType.HANDSHAKE, content_data
+
+    def _has_full_handshake(self):
+        return (
+            len(self._input_handshake) >= 4  # noqa: PLR2004
+            and len(self._input_handshake) - 4
+                >= int.from_bytes(self._input_handshake[1:4], 'big')
+        )
 
     def _send_content(self, content: Content):
         if (content.content_type == ContentType.APPLICATION_DATA
diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index 2934f2b..c8b5103 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -141,6 +141,10 @@ class TLSCipherSuite(metaclass=RegistryMeta):
     def must_encrypt(self):
         return bool(self._write_cipher)
 
+    @property
+    def read_key(self):
+        return self._read_cipher
+
     @property
     def should_rekey(self):
         return self._write_seq and (
-- 
2.43.0


From a5d3fa8c4c5f601941706ca9b978893f6b9abe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 10/32] fix: parse NewSessionTicket, KeyUpdate and
 EndOfEarlyData

They were abstract: receiving one failed with an internal error. Every
client connection died on the first ticket; tickets are now ignored.
---
 .../contents/handshakes/end_of_early_data.py  | 12 +++-
 src/siotls/contents/handshakes/key_update.py  | 24 +++++++-
 .../contents/handshakes/new_session_ticket.py | 58 ++++++++++++++++++-
 src/siotls/states/connected.py                |  8 ++-
 4 files changed, 96 insertions(+), 6 deletions(-)

diff --git a/src/siotls/contents/handshakes/end_of_early_data.py b/src/siotls/contents/handshakes/end_of_early_data.py
index 3c98386..69a21b6 100644
--- a/src/siotls/contents/handshakes/end_of_early_data.py
+++ b/src/siotls/contents/handshakes/end_of_early_data.py
@@ -9,4 +9,14 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class EndOfEarlyData(Handshake, SerializableBody):
     msg_type = HandshakeType.END_OF_EARLY_DATA
-    ...
+    _struct = "struct {} EndOfEarlyData;"
+
+    def __init__(self):
+        pass
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls()
+
+    def serialize_body(self):
+        return b''
diff --git a/src/siotls/contents/handshakes/key_update.py b/src/siotls/contents/handshakes/key_update.py
index f1b3d38..3ccafab 100644
--- a/src/siotls/contents/handshakes/key_update.py
+++ b/src/siotls/contents/handshakes/key_update.py
@@ -1,5 +1,7 @@
 import dataclasses
+import textwrap
 
+from siotls.contents import alerts
 from siotls.iana import HandshakeType
 from siotls.serial import SerializableBody
 
@@ -9,4 +11,24 @@ from . import Handshake
 @dataclasses.dataclass(init=False)
 class KeyUpdate(Handshake, SerializableBody):
     msg_type = HandshakeType.KEY_UPDATE
-    ...
+    _struct = textwrap.dedent("""
+        struct {
+            uint8 request_update;    /* 0 or 1 */
+        } KeyUpdate;
+    """).strip('\n')
+
+    request_update: bool
+
+    def __init__(self, request_update):
+        self.request_update = request_update
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        request_update = stream.read_int(1)
+        if request_update not in (0, 1):
+            e = f"invalid request_update: {request_update}"
+            raise alerts.IllegalParameter(e)
+        return cls(bool(request_update))
+
+    def serialize_body(self):
+        return self.request_update.to_bytes(1, 'big')
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index cf05b47..ff462b4 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -1,12 +1,64 @@
 import dataclasses
+import textwrap
 
-from siotls.iana import HandshakeType
-from siotls.serial import SerializableBody
+from siotls.iana import ExtensionType, HandshakeType
+from siotls.serial import SerialIO, SerializableBody
 
 from . import Handshake
+from .extensions import Extension
 
 
 @dataclasses.dataclass(init=False)
 class NewSessionTicket(Handshake, SerializableBody):
     msg_type = HandshakeType.NEW_SESSION_TICKET
-    ...
+    _struct = textwrap.dedent("""
+        struct {
+            uint32 ticket_lifetime;
+            uint32 ticket_age_add;
+            opaque ticket_nonce<0..255>;
+            opaque ticket<1..2^16-1>;
+            Extension extensions<0..2^16-2>;
+        } NewSessionTicket;
+    """).strip('\n')
+
+    ticket_lifetime: int
+    ticket_age_add: int
+    ticket_nonce: bytes
+    ticket: bytes
+    extensions: dict[ExtensionType | int, Extension]
+
+    def __init__(self, ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions):
+        self.ticket_lifetime = ticket_lifetime
+        self.ticket_age_add = ticket_age_add
+        self.ticket_nonce = ticket_nonce
+        self.ticket = ticket
+        self.extensions = {ext.extension_type: ext for ext in extensions}
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):
+        ticket_lifetime = stream.read_int(4)
+        ticket_age_add = stream.read_int(4)
+        ticket_nonce = stream.read_var(1)
+        ticket = stream.read_var(2)
+
+        extensions = []
+        list_stream = SerialIO(stream.read_var(2))
+        while not list_stream.is_eof():
+            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
+            extensions.append(extension)
+
+        return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
+
+    def serialize_body(self):
+        extensions = b''.join(ext.serialize() for ext in self.extensions.values())
+
+        return b''.join([
+            self.ticket_lifetime.to_bytes(4, 'big'),
+            self.ticket_age_add.to_bytes(4, 'big'),
+            len(self.ticket_nonce).to_bytes(1, 'big'),
+            self.ticket_nonce,
+            len(self.ticket).to_bytes(2, 'big'),
+            self.ticket,
+            len(extensions).to_bytes(2, 'big'),
+            extensions,
+        ])
diff --git a/src/siotls/states/connected.py b/src/siotls/states/connected.py
index 221c805..aed3be3 100644
--- a/src/siotls/states/connected.py
+++ b/src/siotls/states/connected.py
@@ -1,4 +1,4 @@
-from siotls.iana import ContentType
+from siotls.iana import ContentType, HandshakeType
 
 from . import State
 
@@ -9,6 +9,12 @@ class Connected(State):
     can_send_application_data = True
 
     def process(self, message):
+        if (self.config.side == 'client'
+            and message.content_type == ContentType.HANDSHAKE
+            and message.msg_type == HandshakeType.NEW_SESSION_TICKET):
+            # session resumption isn't implemented, the ticket is useless
+            return
+
         if message.content_type != ContentType.APPLICATION_DATA:
             super().process(message)
             return
-- 
2.43.0


From 3e3bb5893e2c3e7dd012ac64b8db0a2784a47424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 11/32] fix: serialize and parse the extensions that could not
 be

---
 .../handshakes/extensions/certificate_authorities.py |  2 +-
 .../handshakes/extensions/certificate_type.py        |  3 +--
 .../contents/handshakes/extensions/pre_shared_key.py | 12 ++++++++----
 .../contents/handshakes/extensions/server_name.py    |  5 +++--
 .../contents/handshakes/extensions/status_request.py |  2 +-
 .../contents/handshakes/extensions/use_srtp.py       | 12 ++++++++----
 src/siotls/contents/heartbeat.py                     |  4 ++--
 7 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/certificate_authorities.py b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
index bc95903..8061245 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_authorities.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_authorities.py
@@ -32,7 +32,7 @@ class CertificateAuthorities(Extension, SerializableBody):
         autorities = stream.read_listvar(2, 2)
         return cls(autorities)
 
-    def serialize(self):
+    def serialize_body(self):
         autorities = b''.join([
             b''.join([
                 len(autority).to_bytes(2, 'big'),
diff --git a/src/siotls/contents/handshakes/extensions/certificate_type.py b/src/siotls/contents/handshakes/extensions/certificate_type.py
index 6ae28fe..c30b499 100644
--- a/src/siotls/contents/handshakes/extensions/certificate_type.py
+++ b/src/siotls/contents/handshakes/extensions/certificate_type.py
@@ -34,7 +34,7 @@ class _CertificateTypeRequest(SerializableBody):
 
     def serialize_body(self):
         return b''.join([
-            len(self.certificate_type).to_bytes(1, 'big'),
+            len(self.certificate_types).to_bytes(1, 'big'),
             *[ct.to_bytes(1, 'big') for ct in self.certificate_types],
         ])
 
@@ -55,7 +55,6 @@ class _CertificateTypeResponse(SerializableBody):
             raise alerts.IllegalParameter(*exc.args) from exc
         return cls(certificate_type)
 
-    @classmethod
     def serialize_body(self):
         return self.certificate_type.to_bytes(1, 'big')
 
diff --git a/src/siotls/contents/handshakes/extensions/pre_shared_key.py b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
index da5fca5..7e51fc6 100644
--- a/src/siotls/contents/handshakes/extensions/pre_shared_key.py
+++ b/src/siotls/contents/handshakes/extensions/pre_shared_key.py
@@ -54,17 +54,21 @@ class PreSharedKeyRequest(Extension, SerializableBody):
     def serialize_body(self):
         identities = b''.join(
             b''.join([
-                len(pskid.identify).to_bytes(2, 'big'),
-                pskid.identify,
+                len(pskid.identity).to_bytes(2, 'big'),
+                pskid.identity,
                 pskid.obfuscated_ticket_age.to_bytes(4, 'big')
             ]) for pskid in self.identities
         )
 
+        binders = b''.join(
+            len(binder).to_bytes(1, 'big') + binder
+            for binder in self.binders
+        )
         return b''.join([
             len(identities).to_bytes(2, 'big'),
             identities,
-            len(self.binders).to_bytes(2, 'big'),
-            *self.binders,
+            len(binders).to_bytes(2, 'big'),
+            binders,
         ])
 
 
diff --git a/src/siotls/contents/handshakes/extensions/server_name.py b/src/siotls/contents/handshakes/extensions/server_name.py
index 30fe83f..4639f55 100644
--- a/src/siotls/contents/handshakes/extensions/server_name.py
+++ b/src/siotls/contents/handshakes/extensions/server_name.py
@@ -76,9 +76,10 @@ class HostName(ServerName, SerializableBody):
             raise
 
     def serialize_body(self):
+        byte_host_name = idna.encode(self.host_name, uts46=True)
         return b''.join([
-            len(self.host_name).to_bytes(2, 'big'),
-            idna.encode(self.host_name, uts46=True),
+            len(byte_host_name).to_bytes(2, 'big'),
+            byte_host_name,
         ])
 
 @dataclasses.dataclass(init=False)
diff --git a/src/siotls/contents/handshakes/extensions/status_request.py b/src/siotls/contents/handshakes/extensions/status_request.py
index 4d1e124..061defc 100644
--- a/src/siotls/contents/handshakes/extensions/status_request.py
+++ b/src/siotls/contents/handshakes/extensions/status_request.py
@@ -144,7 +144,7 @@ class OCSPStatus(CertificateStatus):
         self.ocsp_response = ocsp_response
 
     @classmethod
-    def parse_bodybody(cls, stream):
+    def parse_bodybody(cls, stream, **kwargs):  # noqa: ARG003
         return cls(stream.read_var(3))
 
     def serialize_bodybody(self):
diff --git a/src/siotls/contents/handshakes/extensions/use_srtp.py b/src/siotls/contents/handshakes/extensions/use_srtp.py
index 7fcc2ce..64e935f 100644
--- a/src/siotls/contents/handshakes/extensions/use_srtp.py
+++ b/src/siotls/contents/handshakes/extensions/use_srtp.py
@@ -3,7 +3,7 @@ import itertools
 import textwrap
 
 from siotls.iana import ExtensionType, HandshakeType
-from siotls.serial import SerializableBody
+from siotls.serial import SerializableBody, TLSBufferError
 
 from . import Extension
 
@@ -36,15 +36,19 @@ class UseSRTP(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         # cannot use read_listint as the type in uint8[2], not uint16
-        it = iter(stream.read_var(2))
+        data = stream.read_var(2)
+        if len(data) % 2:
+            e = f"cannot read protection profiles out of {len(data)} bytes"
+            raise TLSBufferError(e)
+        it = iter(data)
         protection_profiles = list(zip(it, it, strict=True))
         mki = stream.read_var(1)
 
         return cls(protection_profiles, mki)
 
-    def serialize(self):
+    def serialize_body(self):
         return b''.join([
-            (len(self.mki) * 2).to_bytes(2, 'big'),
+            (len(self.protection_profiles) * 2).to_bytes(2, 'big'),
             bytes(itertools.chain.from_iterable(self.protection_profiles)),
             len(self.mki).to_bytes(1, 'big'),
             self.mki,
diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index f99c508..8a53350 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -47,9 +47,9 @@ class Heartbeat(Content, Serializable):
         return cls(heartbeat_type, payload, padding)
 
     def serialize(self):
-        return b''.join(
+        return b''.join([
             self.heartbeat_type.to_bytes(1, 'big'),
             len(self.payload).to_bytes(2, 'big'),
             self.payload,
             self.padding,
-        )
+        ])
-- 
2.43.0


From 1b3b3916ec95ddc63ab88924b5d56a61a8b5552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 12/32] fix: send the right alert for malformed contents

---
 src/siotls/contents/__init__.py                |  2 +-
 src/siotls/contents/handshakes/__init__.py     |  2 +-
 src/siotls/contents/handshakes/certificate.py  | 18 +++++++++++++++---
 .../extensions/supported_versions.py           |  3 +--
 src/siotls/contents/heartbeat.py               |  5 ++++-
 src/siotls/serial.py                           |  6 +++++-
 6 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/siotls/contents/__init__.py b/src/siotls/contents/__init__.py
index 9530461..1a5d2ca 100644
--- a/src/siotls/contents/__init__.py
+++ b/src/siotls/contents/__init__.py
@@ -15,7 +15,7 @@ class Content:
     def get_parser(abc, content_type):
         try:
             return _content_registry[ContentType(content_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise DecodeError(*exc.args) from exc
 
 
diff --git a/src/siotls/contents/handshakes/__init__.py b/src/siotls/contents/handshakes/__init__.py
index 03d7247..f156379 100644
--- a/src/siotls/contents/handshakes/__init__.py
+++ b/src/siotls/contents/handshakes/__init__.py
@@ -45,7 +45,7 @@ class Handshake(Content, Serializable):
         length = stream.read_int(3)
         try:
             cls = _handshake_registry[HandshakeType(msg_type)]
-        except ValueError as exc:
+        except (ValueError, KeyError) as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
         with stream.limit(length):
             return cls.parse_body(stream, **kwargs)
diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 9328735..6f69fc4 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -1,6 +1,7 @@
 import dataclasses
 import textwrap
 
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.primitives.asymmetric.types import PublicKeyTypes
 from cryptography.hazmat.primitives.serialization import (
     Encoding,
@@ -86,7 +87,10 @@ class X509(CertificateEntry):
 
     @classmethod
     def _parse_certificate(cls, data):
-        return load_der_x509_certificate(data)
+        try:
+            return load_der_x509_certificate(data)
+        except ValueError as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
     def _serialize_certificate(self):
         return self.certificate.public_bytes(Encoding.DER)
@@ -103,7 +107,12 @@ class RawPublicKey(CertificateEntry):
 
     @classmethod
     def _parse_certificate(cls, data):
-        return load_der_public_key(data)
+        try:
+            return load_der_public_key(data)
+        except UnsupportedAlgorithm as exc:
+            raise alerts.UnsupportedCertificate(*exc.args) from exc
+        except ValueError as exc:
+            raise alerts.BadCertificate(*exc.args) from exc
 
     def _serialize_certificate(self):
         return self.public_key.public_bytes(
@@ -131,13 +140,16 @@ class Certificate(Handshake, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, *, config, nconfig, **kwargs):
+        if nconfig is None:
+            e = "the certificate type isn't negotiated yet"
+            raise alerts.UnexpectedMessage(e)
         try:
             Entry = _certificate_entry_registry[  # noqa: N806
                 nconfig.client_certificate_type
                 if config.other_side == 'client' else
                 nconfig.server_certificate_type
             ]
-        except IndexError as exc:
+        except KeyError as exc:
             raise alerts.CertificateUnknown(*exc.args) from exc
 
         certificate_request_context = stream.read_var(1)
diff --git a/src/siotls/contents/handshakes/extensions/supported_versions.py b/src/siotls/contents/handshakes/extensions/supported_versions.py
index 2afa44b..278723e 100644
--- a/src/siotls/contents/handshakes/extensions/supported_versions.py
+++ b/src/siotls/contents/handshakes/extensions/supported_versions.py
@@ -64,10 +64,9 @@ class SupportedVersionsResponse(Extension, SerializableBody):
     @classmethod
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         try:
-            selected_version = TLSVersion(stream.read_int(2))
+            return cls(TLSVersion(stream.read_int(2)))
         except ValueError as exc:
             raise alerts.IllegalParameter(*exc.args) from exc
-        return cls(selected_version)
 
     def serialize_body(self):
         return self.selected_version.to_bytes(2, 'big')
diff --git a/src/siotls/contents/heartbeat.py b/src/siotls/contents/heartbeat.py
index 8a53350..6143888 100644
--- a/src/siotls/contents/heartbeat.py
+++ b/src/siotls/contents/heartbeat.py
@@ -44,7 +44,10 @@ class Heartbeat(Content, Serializable):
             raise alerts.IllegalParameter(*exc.args) from exc
         payload = stream.read_var(2)
         padding = stream.read()
-        return cls(heartbeat_type, payload, padding)
+        try:
+            return cls(heartbeat_type, payload, padding)
+        except ValueError as exc:
+            raise alerts.IllegalParameter(*exc.args) from exc
 
     def serialize(self):
         return b''.join([
diff --git a/src/siotls/serial.py b/src/siotls/serial.py
index f916d5e..f068fd4 100644
--- a/src/siotls/serial.py
+++ b/src/siotls/serial.py
@@ -20,6 +20,10 @@ class TooMuchDataError(TLSBufferError):
     pass
 
 
+class RestrictiveLimitError(TLSBufferError, ValueError):
+    pass
+
+
 class Serializable(metaclass=abc.ABCMeta):
     _struct: str
 
@@ -150,7 +154,7 @@ class SerialIO(io.BytesIO):
         new_limit = self.tell() + length
         if new_limit > self._limits[-1]:
             e = "a more restrictive limit is present already"
-            raise ValueError(e)
+            raise RestrictiveLimitError(e)
 
         self._limits.append(new_limit)
 
-- 
2.43.0


From 1b144b339d3aca8df849b243ea55f18e5b123f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 13/32] fix: do not register classes made out of the peer's
 bytes; no cookie in ServerHello

---
 src/siotls/contents/alerts.py                         | 7 ++++---
 src/siotls/contents/handshakes/extensions/__init__.py | 1 +
 src/siotls/contents/handshakes/extensions/cookie.py   | 1 -
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/siotls/contents/alerts.py b/src/siotls/contents/alerts.py
index 8cc376b..f0f4543 100644
--- a/src/siotls/contents/alerts.py
+++ b/src/siotls/contents/alerts.py
@@ -56,13 +56,14 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
     level: AlertLevel
     description: AlertDescription | int
 
-    def __init_subclass__(cls, **kwargs):
+    def __init_subclass__(cls, *, register=True, **kwargs):
         super().__init_subclass__(**kwargs)
-        if Alert in cls.__bases__:
+        if register and Alert in cls.__bases__:
             cls._registry[cls.description] = cls
 
     def __init__(self, *args, level=None):
         super().__init__(*args)
+        self.args = args
         if level is not None:
             self.level = level
 
@@ -81,7 +82,7 @@ class Alert(Content, Serializable, metaclass=RegistryMeta):
                 'level': level,
                 'description': description,
                 '_struct': '',
-            })
+            }, register=False)
 
         return cls(level=level)
 
diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index 033f379..b23881c 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -89,6 +89,7 @@ class Extension(Serializable):
                 f'UnkonwnExtension{extension_type}',
                 (UnknownExtension, Extension),
                 {'extension_type': extension_type},
+                register=False,
             )
 
         extension_length = stream.read_int(2)
diff --git a/src/siotls/contents/handshakes/extensions/cookie.py b/src/siotls/contents/handshakes/extensions/cookie.py
index d58a9b6..b10be63 100644
--- a/src/siotls/contents/handshakes/extensions/cookie.py
+++ b/src/siotls/contents/handshakes/extensions/cookie.py
@@ -12,7 +12,6 @@ class Cookie(Extension, SerializableBody):
     extension_type = ExtensionType.COOKIE
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.SERVER_HELLO,
         HandshakeType_.HELLO_RETRY_REQUEST
     )
 
-- 
2.43.0


From 3137665ce5031b98e628984e3a90b15ec0a5ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 14/32] fix: limit the size of decrypted records

---
 src/siotls/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/siotls/connection.py b/src/siotls/connection.py
index 3517d08..5090555 100644
--- a/src/siotls/connection.py
+++ b/src/siotls/connection.py
@@ -248,6 +248,10 @@ class TLSConnection:
 
     def _decrypt(self, header, fragment):
         innertext = self._cipher.decrypt(fragment, header)
+        if len(innertext) > self.max_fragment_length + 1:  # +1 for the content type
+            e =(f"the decrypted record is longer ({len(innertext)} bytes) than "
+                f"the allowed maximum ({self.max_fragment_length + 1} bytes)")
+            raise alerts.RecordOverflow(e)
         for i in range(len(innertext) -1, -1, -1):
             if innertext[i]:
                 break
-- 
2.43.0


From 12102589405f137cf0bf525cfa2926b41b9a6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 15/32] fix: refuse duplicated extensions

---
 src/siotls/contents/handshakes/certificate.py       | 13 +++++--------
 .../contents/handshakes/certificate_request.py      |  7 ++-----
 .../contents/handshakes/encrypted_extensions.py     |  6 ++----
 .../contents/handshakes/extensions/__init__.py      | 10 ++++++++++
 .../contents/handshakes/new_session_ticket.py       |  6 ++----
 src/siotls/contents/handshakes/server_hello.py      |  6 ++----
 6 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index 6f69fc4..ca55cd9 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -52,15 +52,12 @@ class CertificateEntry(Serializable):
         data = stream.read_var(3)
         certificate = cls._parse_certificate(data)
 
-        extensions = []
         list_stream = SerialIO(stream.read_var(2))
-        while not list_stream.is_eof():
-            extension = Extension.parse(
-                list_stream,
-                handshake_type=HandshakeType.CERTIFICATE,
-                **kwargs
-            )
-            extensions.append(extension)
+        extensions = Extension.parse_list(
+            list_stream,
+            handshake_type=HandshakeType.CERTIFICATE,
+            **kwargs
+        )
 
         return cls(certificate, extensions)
 
diff --git a/src/siotls/contents/handshakes/certificate_request.py b/src/siotls/contents/handshakes/certificate_request.py
index 704bc12..70e82d4 100644
--- a/src/siotls/contents/handshakes/certificate_request.py
+++ b/src/siotls/contents/handshakes/certificate_request.py
@@ -33,12 +33,9 @@ class CertificateRequest(Handshake, SerializableBody):
     def parse_body(cls, stream, **kwargs):  # noqa: ARG003
         certificate_request_context = stream.read_var(1)
 
-        extensions = []
         list_stream = SerialIO(stream.read_var(2))
-        while not list_stream.is_eof():
-            extension = Extension.parse(
-                list_stream, handshake_type=HandshakeType.CERTIFICATE_REQUEST)
-            extensions.append(extension)
+        extensions = Extension.parse_list(
+            list_stream, handshake_type=HandshakeType.CERTIFICATE_REQUEST)
 
         try:
             return cls(certificate_request_context, extensions)
diff --git a/src/siotls/contents/handshakes/encrypted_extensions.py b/src/siotls/contents/handshakes/encrypted_extensions.py
index 066cab8..4593aad 100644
--- a/src/siotls/contents/handshakes/encrypted_extensions.py
+++ b/src/siotls/contents/handshakes/encrypted_extensions.py
@@ -28,11 +28,9 @@ class EncryptedExtensions(Handshake, SerializableBody):
 
     @classmethod
     def parse_body(cls, stream, **kwargs):
-        extensions = []
         list_stream = SerialIO(stream.read_var(2))
-        while not list_stream.is_eof():
-            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
-            extensions.append(extension)
+        extensions = Extension.parse_list(
+            list_stream, handshake_type=cls.msg_type, **kwargs)
 
         return cls(extensions)
 
diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index b23881c..b3e6139 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -96,6 +96,16 @@ class Extension(Serializable):
         with stream.limit(extension_length):
             return cls.parse_body(stream, **kwargs)
 
+    @classmethod
+    def parse_list(abc, stream, **kwargs):
+        extensions = {}
+        while not stream.is_eof():
+            extension = abc.parse(stream, **kwargs)
+            if extensions.setdefault(extension.extension_type, extension) is not extension:
+                e = f"duplicated extension: {extension.extension_type!r}"
+                raise alerts.IllegalParameter(e)
+        return list(extensions.values())
+
     def serialize(self):
         extension_data = self.serialize_body()
         return b''.join([
diff --git a/src/siotls/contents/handshakes/new_session_ticket.py b/src/siotls/contents/handshakes/new_session_ticket.py
index ff462b4..8b4cd2c 100644
--- a/src/siotls/contents/handshakes/new_session_ticket.py
+++ b/src/siotls/contents/handshakes/new_session_ticket.py
@@ -41,11 +41,9 @@ class NewSessionTicket(Handshake, SerializableBody):
         ticket_nonce = stream.read_var(1)
         ticket = stream.read_var(2)
 
-        extensions = []
         list_stream = SerialIO(stream.read_var(2))
-        while not list_stream.is_eof():
-            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
-            extensions.append(extension)
+        extensions = Extension.parse_list(
+            list_stream, handshake_type=cls.msg_type, **kwargs)
 
         return cls(ticket_lifetime, ticket_age_add, ticket_nonce, ticket, extensions)
 
diff --git a/src/siotls/contents/handshakes/server_hello.py b/src/siotls/contents/handshakes/server_hello.py
index ec38663..4d28dbe 100644
--- a/src/siotls/contents/handshakes/server_hello.py
+++ b/src/siotls/contents/handshakes/server_hello.py
@@ -74,11 +74,9 @@ class ServerHello(Handshake, SerializableBody):
             e = "only the NULL compression method is supported in TLS 1.3"
             raise alerts.IllegalParameter(e)
 
-        extensions = []
         list_stream = SerialIO(stream.read_var(2))
-        while not list_stream.is_eof():
-            extension = Extension.parse(list_stream, handshake_type=cls.msg_type, **kwargs)
-            extensions.append(extension)
+        extensions = Extension.parse_list(
+            list_stream, handshake_type=cls.msg_type, **kwargs)
 
         return cls(random, legacy_session_id_echo, cipher_suite, extensions)
 
-- 
2.43.0


From 4cbee8bdaf050755b724ab15d4e4cef2548432f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 16/32] fix: save the negotiated key exchange, client side

---
 src/siotls/states/client/wait_server_hello.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index f3e2c53..96d0e34 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -111,5 +111,5 @@ class ClientWaitServerHello(State):
             except ValueError as exc:
                 e = "error while resuming key share"
                 raise alerts.IllegalParameter(e) from exc
-            self.nconfig.key_exchanges = key_share_ext.group
+            self.nconfig.key_exchange = key_share_ext.group
             return shared_key
-- 
2.43.0


From be722281cebcf1f16855c846d6640ddfa70d028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 17/32] fix: HelloRetryRequest, client side

---
 src/siotls/states/client/start.py             |  5 +--
 src/siotls/states/client/wait_server_hello.py | 35 ++++++++++++-------
 src/siotls/states/server/wait_client_hello.py |  1 -
 src/siotls/transcript.py                      | 25 ++++++++-----
 4 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 6b1f584..2554ed6 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -27,9 +27,10 @@ class ClientStart(State):
     can_send = True
     can_send_application_data = False
 
-    def __init__(self, connection, cookie=None):
+    def __init__(self, connection, cookie=None, key_exchange=None):
         super().__init__(connection)
         self._cookie = cookie
+        self._key_exchange = key_exchange
         self._key_shares = {}
 
     def initiate_connection(self):
@@ -65,7 +66,7 @@ class ClientStart(State):
         if self._cookie:
             extensions.append(Cookie(self._cookie))
 
-        key_exchange = self.config.key_exchanges[0]
+        key_exchange = self._key_exchange or self.config.key_exchanges[0]
         private_key, my_key_share = TLSKeyExchange[key_exchange].init()
         self._key_shares[key_exchange] = private_key
         extensions.append(KeyShareRequest({key_exchange: my_key_share}))
diff --git a/src/siotls/states/client/wait_server_hello.py b/src/siotls/states/client/wait_server_hello.py
index 96d0e34..e818340 100644
--- a/src/siotls/states/client/wait_server_hello.py
+++ b/src/siotls/states/client/wait_server_hello.py
@@ -1,7 +1,6 @@
-import dataclasses
-
 from siotls.configuration import TLSNegotiatedConfiguration
 from siotls.contents import ChangeCipherSpec, alerts
+from siotls.contents.handshakes import ClientHello
 from siotls.crypto import TLSCipherSuite, TLSKeyExchange
 from siotls.iana import ContentType, ExtensionType, HandshakeType, HandshakeType_, TLSVersion
 
@@ -24,7 +23,7 @@ class ClientWaitServerHello(State):
         if (content.content_type != ContentType.HANDSHAKE
             or (content.msg_type is not HandshakeType.SERVER_HELLO
                 and (content.msg_type is not HandshakeType_.HELLO_RETRY_REQUEST
-                     and self._is_first_server_hello))):
+                     or not self._is_first_server_hello))):
             super().process(content)
             return
 
@@ -33,6 +32,15 @@ class ClientWaitServerHello(State):
                 f"in ClientHello: {self.config.cipher_suites}")
             raise alerts.IllegalParameter(e)
 
+        if content.legacy_session_id_echo != ClientHello.legacy_session_id:
+            e = "the server didn't echo the session id sent in ClientHello"
+            raise alerts.IllegalParameter(e)
+
+        if (not self._is_first_server_hello
+            and content.cipher_suite != self.nconfig.cipher_suite):
+            e = "the server changed its cipher suite after HelloRetryRequest"
+            raise alerts.IllegalParameter(e)
+
         if self._is_first_server_hello:
             self.nconfig = TLSNegotiatedConfiguration()
             self.nconfig.cipher_suite = content.cipher_suite
@@ -49,6 +57,9 @@ class ClientWaitServerHello(State):
     def _process_hello_retry_request(self, hello_retry_request):
         from . import ClientStart
 
+        self._negociate_supported_versions(
+            hello_retry_request.extensions.get(ExtensionType.SUPPORTED_VERSIONS))
+
         key_share = hello_retry_request.extensions.get(ExtensionType.KEY_SHARE)
         if not key_share:
             e = "missing Key Share in HelloRetryRequest"
@@ -57,17 +68,17 @@ class ClientWaitServerHello(State):
             e =(f"the server's selected {key_share.selected_group} wasn't "
                 f"offered in ClientHello: {self.config.key_exchanges}")
             raise alerts.IllegalParameter(e)
-
-        # make sure we select the algorithms selected by the server
-        self.config = dataclasses.replace(self.config,
-            cipher_suites=[self.nconfig.cipher_suite],
-            key_exchanges=[key_share.selected_group],
-        )
-
-        self._transcript.do_hrr_dance(self.config.side, self._client_hello_transcript_hash)
+        if key_share.selected_group in self._key_shares:
+            e =(f"the server's selected {key_share.selected_group} was "
+                "already shared in ClientHello")
+            raise alerts.IllegalParameter(e)
 
         cookie_ext = hello_retry_request.extensions.get(ExtensionType.COOKIE)
-        self._move_to_state(ClientStart, cookie=cookie_ext and cookie_ext.cookie)
+        self._move_to_state(
+            ClientStart,
+            cookie=cookie_ext and cookie_ext.cookie,
+            key_exchange=key_share.selected_group,
+        )
         self.connection.initiate_connection()
 
     def _process_server_hello(self, server_hello):
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 16febe9..f7f16ab 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -120,7 +120,6 @@ class ServerWaitClientHello(State):
         )
 
         clear_extensions, _ = server_extensions
-        self._transcript.do_hrr_dance(self.config.side, self._transcript.digest())
         self._send_content(HelloRetryRequest(
             HelloRetryRequest.random,
             session_id,
diff --git a/src/siotls/transcript.py b/src/siotls/transcript.py
index fa6ea99..d44c85d 100644
--- a/src/siotls/transcript.py
+++ b/src/siotls/transcript.py
@@ -49,7 +49,7 @@ otherwise the transcript wouldn't be right.
 import hashlib
 
 from siotls.contents import alerts
-from siotls.iana import HandshakeType
+from siotls.iana import HandshakeType, HandshakeType_
 
 ORDER = [
     ('server', HandshakeType.SERVER_HELLO, False),
@@ -84,7 +84,7 @@ class Transcript:
         self._hashes.clear()
         self._hashes.append(hash_)
 
-    def do_hrr_dance(self, side, client_hello_transcript_hash):
+    def _do_hrr_dance(self):
         """
         Transcript-Hash(ClientHello1, HelloRetryRequest, ... Mn) =
             Hash(message_hash ||        /* Handshake type */
@@ -92,18 +92,25 @@ class Transcript:
                  Hash(ClientHello1) ||  /* Hash of ClientHello1 */
                  HelloRetryRequest  || ... || Mn)
         """
-        self._hashes[0] = hashlib.new(self._hashes[0].name, b''.join([
-            HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
-            b'\x00\x00',
-            self._hashes[0].digest_size.to_bytes(1, 'big'),
-            client_hello_transcript_hash,
-        ]))
-        self._order_i = (side == 'client')
+        self._hashes = [
+            hashlib.new(hash_.name, b''.join([
+                HandshakeType.MESSAGE_HASH.to_bytes(1, 'big'),
+                b'\x00\x00',
+                hash_.digest_size.to_bytes(1, 'big'),
+                hash_.digest(),
+            ]))
+            for hash_ in self._hashes
+        ]
+        self._order_i = 0
 
     def update(self, handshake_data, side, handshake_type):
         if self._order_i == len(ORDER):
             return
 
+        if (handshake_type is HandshakeType_.HELLO_RETRY_REQUEST
+            and ORDER[self._order_i][:2] == (side, HandshakeType.SERVER_HELLO)):
+            self._do_hrr_dance()
+
         # extra safety net, the states should validate the incomming
         # messages and by construction always send valid handshakes
         expected_side, expected_handshake, is_skippable = ORDER[self._order_i]
-- 
2.43.0


From 1e0cc72f358af0833be6aede4d171773a2bd6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 18/32] fix: check the server's certificate, raw public key and
 signature

---
 src/siotls/states/client/wait_certificate.py        | 11 +++++------
 src/siotls/states/client/wait_certificate_verify.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index 69036f2..d6c64a5 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -32,10 +32,9 @@ class ClientWaitCertificate(State):
             super().process(content)
             return
 
-        if self.config.require_peer_authentication:
-            if not content.certificate_list:
-                e = "missing certificate"
-                raise alerts.BadCertificate(e)
+        if not content.certificate_list:
+            e = "missing certificate"
+            raise alerts.DecodeError(e)
         self._check_certificate_types(content.certificate_list)
         match self.nconfig.server_certificate_type:
             case CertificateType.X509:
@@ -95,7 +94,7 @@ class ClientWaitCertificate(State):
             return
         is_revoked = self.config.revocation_list.get_revoked_certificate_by_serial_number
         for entry in certificate_entries:
-            if is_revoked(entry.certificate):
+            if is_revoked(entry.certificate.serial_number):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
@@ -124,7 +123,7 @@ class ClientWaitCertificate(State):
         public_key = content.certificate_list[0].public_key
         self.nconfig.peer_public_key = public_key
         if (self.config.require_peer_authentication
-            and public_key not in self.config.trusted_public_keys()
+            and public_key not in self.config.trusted_public_keys
         ):
             e = "untrusted raw public key"
             raise alerts.BadCertificate(e)
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index a5027c0..7242258 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,3 +1,5 @@
+from cryptography.exceptions import InvalidSignature
+
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
 from siotls.iana import ContentType, HandshakeType
@@ -38,10 +40,13 @@ class ClientWaitCertificateVerify(State):
             self.nconfig.peer_public_key
             or self.nconfig.peer_certificate.public_key()
         )
-        TLSSignatureSuite[content.algorithm](public_key).verify(
-            content.signature,
-            CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
-        )
+        try:
+            TLSSignatureSuite[content.algorithm](public_key).verify(
+                content.signature,
+                CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
+            )
+        except InvalidSignature as exc:
+            raise alerts.DecryptError from exc
 
         self._move_to_state(
             ClientWaitFinished,
-- 
2.43.0


From 456a727fedf37a8a1ca3282972b3b4e04016707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 19/32] fix: support certificates and statuses without ocsp
 details

---
 src/siotls/crypto/ocsp.py                     | 14 ++++++++++++--
 src/siotls/states/server/wait_client_hello.py |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index 57e6ee7..d74f623 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.hashes import SHA1
 from cryptography.hazmat.primitives.serialization import Encoding
+from cryptography.x509 import ExtensionNotFound
 from cryptography.x509.ocsp import (
     OCSPCertStatus,
     OCSPRequestBuilder,
@@ -19,11 +20,15 @@ OCSP = AuthorityInformationAccessOID.OCSP
 
 
 def get_ocsp_url(certificate):
+    try:
+        aia = certificate.extensions.get_extension_for_oid(AIA).value
+    except ExtensionNotFound:
+        return None
     return next(
         (
             access_description.access_location.value
             for access_description
-            in certificate.extensions.get_extension_for_oid(AIA).value
+            in aia
             if access_description.access_method == OCSP
         ),
         None
@@ -65,6 +70,10 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
         e = "response is not valid yet"
         raise ValueError(e)
 
+    if res.next_update is None:
+        e = "response has no expiration date"
+        raise ValueError(e)
+
     if res.next_update < datetime.utcnow():  # noqa: DTZ003
         e = "response is expired"
         raise ValueError(e)
@@ -86,6 +95,7 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
     try:
         Signature(issuer.public_key()).verify(res.signature, res.tbs_response_bytes)
     except InvalidSignature as exc:
-        raise ValueError(exc.args[0]) from exc
+        e = "invalid signature"
+        raise ValueError(e) from exc
 
     return res.next_update
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index f7f16ab..62c8723 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -168,9 +168,9 @@ class ServerWaitClientHello(State):
                 self.nconfig.peer_want_ocsp_stapling
                 and self.ocsp_service
                 and len(self.config.certificate_chain) > 1
+                and (ocsp_url := get_ocsp_url(self.config.certificate_chain[0]))
             ):
                 subject, issuer = self.config.certificate_chain[:2]
-                ocsp_url = get_ocsp_url(subject)
                 ocsp_req = make_ocsp_request(subject, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-- 
2.43.0


From 70157a8967be1bbbccdcb2b6307dbb3ca8bf27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 20/32] fix: check statuses against the verified issuers

---
 src/siotls/states/client/wait_certificate.py | 28 ++++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate.py b/src/siotls/states/client/wait_certificate.py
index d6c64a5..2ae00d7 100644
--- a/src/siotls/states/client/wait_certificate.py
+++ b/src/siotls/states/client/wait_certificate.py
@@ -64,16 +64,18 @@ class ClientWaitCertificate(State):
     def _process_x509(self, content):
         self.nconfig.peer_certificate = content.certificate_list[0].certificate
         if self.config.require_peer_authentication:
-            self._verify_chain(content.certificate_list)
+            verified_chain = self._verify_chain(content.certificate_list)
             self._verify_revocation(content.certificate_list)
-            self._verify_statuses(content.certificate_list)
+            self._verify_statuses(content.certificate_list, verified_chain)
 
     def _verify_chain(self, certificate_entries):
         leaf, *intermediates = (e.certificate for e in certificate_entries)
         try:
-            self._get_verifier().verify(leaf, intermediates)
+            verified = self._get_verifier().verify(leaf, intermediates)
         except x509.verification.VerificationError as exc:
             raise alerts.BadCertificate from exc
+        # the client verifier gives a VerifiedClient, the server one a list
+        return getattr(verified, 'chain', verified)
 
     def _get_verifier(self):
         if not self.server_hostname:
@@ -98,21 +100,25 @@ class ClientWaitCertificate(State):
                 e = f"{entry.certificate} found in revocation list"
                 raise alerts.BadCertificate(e)
 
-    def _verify_statuses(self, certificate_entries):
-        for entry, issuer in pairwise(certificate_entries):
-            status = entry.extensions.get(ExtensionType.STATUS_REQUEST)
+    def _verify_statuses(self, certificate_entries, verified_chain):
+        # the peer is free to send unrelated certificates, the statuses
+        # must be signed by the issuers that were used to trust the leaf
+        entries = {entry.certificate: entry for entry in certificate_entries}
+        for certificate, issuer in pairwise(verified_chain):
+            entry = entries.get(certificate)
+            status = entry and entry.extensions.get(ExtensionType.STATUS_REQUEST)
             if status and status.status_type == CertificateStatusType.OCSP:
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = status.ocsp_response
                 try:
-                    validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     raise alerts.BadCertificate from exc
-            elif self.ocsp_service and (ocsp_url := get_ocsp_url(entry.certificate)):
-                ocsp_req = make_ocsp_request(entry.certificate, issuer.certificate)
+            elif self.ocsp_service and (ocsp_url := get_ocsp_url(certificate)):
+                ocsp_req = make_ocsp_request(certificate, issuer)
                 ocsp_res = self.ocsp_service.request(ocsp_url, ocsp_req)
                 try:
-                    valid_until = validate_ocsp(issuer.certificate, ocsp_req, ocsp_res)
+                    valid_until = validate_ocsp(issuer, ocsp_req, ocsp_res)
                 except ValueError as exc:
                     self.ocsp_service.uncache(ocsp_req)
                     raise alerts.BadCertificate from exc
-- 
2.43.0


From 3ca99020ca76a443a9f2e5b7a3331ee019eb8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 21/32] fix: never use RSASSA-PKCS1-v1_5 in CertificateVerify

---
 src/siotls/crypto/signatures.py                     | 12 +++++++-----
 src/siotls/states/client/wait_certificate_verify.py |  7 ++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index 2eff651..d760637 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -22,13 +22,15 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
 
     key: types.PublicKeyTypes | types.PrivateKeyTypes
 
-    def __init_subclass__(cls, **kwargs):
+    def __init_subclass__(cls, *, certificate_only=False, **kwargs):
         super().__init_subclass__(**kwargs)
         if TLSSignatureSuite not in cls.__bases__:
             return
+        cls._sign_registry[cls.sign_oid] = cls
+        if certificate_only:
+            return
         cls._pubkey_registry.setdefault(cls.pubkey_oid, {})[cls.iana_id] = cls
         cls._registry[cls.iana_id] = cls
-        cls._sign_registry[cls.sign_oid] = cls
 
     @classmethod
     def from_signature_oid(cls, signature_oid):
@@ -60,19 +62,19 @@ class _RSAMixin:
     def verify(self, signature, message):
         self.key.verify(signature, message, self.padding, self.digestmod)
 
-class TLS_RSA_PKCS1_SHA256(_RSAMixin, TLSSignatureSuite):
+class TLS_RSA_PKCS1_SHA256(_RSAMixin, TLSSignatureSuite, certificate_only=True):
     iana_id = SignatureScheme.rsa_pkcs1_sha256
     pubkey_oid = PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5
     sign_oid = SignatureAlgorithmOID.RSA_WITH_SHA256
     digestmod = hashes.SHA256()
 
-class TLS_RSA_PKCS1_SHA384(_RSAMixin, TLSSignatureSuite):
+class TLS_RSA_PKCS1_SHA384(_RSAMixin, TLSSignatureSuite, certificate_only=True):
     iana_id = SignatureScheme.rsa_pkcs1_sha384
     pubkey_oid = PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5
     sign_oid = SignatureAlgorithmOID.RSA_WITH_SHA384
     digestmod = hashes.SHA384()
 
-class TLS_RSA_PKCS1_SHA512(_RSAMixin, TLSSignatureSuite):
+class TLS_RSA_PKCS1_SHA512(_RSAMixin, TLSSignatureSuite, certificate_only=True):
     iana_id = SignatureScheme.rsa_pkcs1_sha512
     pubkey_oid = PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5
     sign_oid = SignatureAlgorithmOID.RSA_WITH_SHA512
diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index 7242258..cff7a37 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -34,6 +34,11 @@ class ClientWaitCertificateVerify(State):
             e =(f"the server's selected {content.algorithm} wasn't "
                 f"offered in ClientHello: {self.config.signature_algorithms}")
             raise alerts.IllegalParameter(e)
+        try:
+            SignatureSuite = TLSSignatureSuite[content.algorithm]  # noqa: N806
+        except KeyError as exc:
+            e = f"{content.algorithm} cannot be used in CertificateVerify"
+            raise alerts.IllegalParameter(e) from exc
         self.nconfig.signature_algorithm = content.algorithm
 
         public_key = (
@@ -41,7 +46,7 @@ class ClientWaitCertificateVerify(State):
             or self.nconfig.peer_certificate.public_key()
         )
         try:
-            TLSSignatureSuite[content.algorithm](public_key).verify(
+            SignatureSuite(public_key).verify(
                 content.signature,
                 CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
             )
-- 
2.43.0


From 038d9bb720310b9de76a0d5587d7ac26a595045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 22/32] fix: support servers with a raw public key and no
 certificate

---
 src/siotls/crypto/signatures.py               | 14 +++++++++++++-
 src/siotls/states/server/wait_client_hello.py |  7 +++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/siotls/crypto/signatures.py b/src/siotls/crypto/signatures.py
index d760637..4015514 100644
--- a/src/siotls/crypto/signatures.py
+++ b/src/siotls/crypto/signatures.py
@@ -5,7 +5,7 @@ from typing import ClassVar
 
 from cryptography.hazmat._oid import PublicKeyAlgorithmOID, SignatureAlgorithmOID
 from cryptography.hazmat.primitives import hashes
-from cryptography.hazmat.primitives.asymmetric import ec, padding, types
+from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, types
 
 from siotls.iana import SignatureScheme
 from siotls.utils import RegistryMeta
@@ -36,6 +36,18 @@ class TLSSignatureSuite(metaclass=RegistryMeta):
     def from_signature_oid(cls, signature_oid):
         return cls._sign_registry[signature_oid]
 
+    @classmethod
+    def for_public_key(cls, public_key):
+        for key_type, public_key_oid in (
+            (rsa.RSAPublicKey, PublicKeyAlgorithmOID.RSAES_PKCS1_v1_5),
+            (ec.EllipticCurvePublicKey, PublicKeyAlgorithmOID.EC_PUBLIC_KEY),
+            (ed25519.Ed25519PublicKey, PublicKeyAlgorithmOID.ED25519),
+            (ed448.Ed448PublicKey, PublicKeyAlgorithmOID.ED448),
+        ):
+            if isinstance(public_key, key_type):
+                return cls.for_public_key_oid(public_key_oid)
+        return {}
+
     @classmethod
     def for_public_key_oid(cls, public_key_oid):
         return cls._pubkey_registry[public_key_oid]
diff --git a/src/siotls/states/server/wait_client_hello.py b/src/siotls/states/server/wait_client_hello.py
index 62c8723..34c899e 100644
--- a/src/siotls/states/server/wait_client_hello.py
+++ b/src/siotls/states/server/wait_client_hello.py
@@ -277,8 +277,11 @@ class ServerWaitClientHello(State):
     def _negociate_signature_algorithms(self, sa_ext):
         if not sa_ext:
             raise alerts.MissingExtension(ExtensionType.SIGNATURE_ALGORITHMS)
-        pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
-        suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        if self.config.certificate_chain:
+            pubkey_oid = self.config.certificate_chain[0].public_key_algorithm_oid
+            suites = TLSSignatureSuite.for_public_key_oid(pubkey_oid)
+        else:
+            suites = TLSSignatureSuite.for_public_key(self.config.public_key)
         for server_suite in self.config.signature_algorithms:
             if server_suite in suites and server_suite in sa_ext.supported_signature_algorithms:
                 self._signature = suites[server_suite](self.config.private_key)
-- 
2.43.0


From 493ff12279565dbb391f2a960b89d5d82d5a0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 23/32] fix: offer the configured max fragment length

---
 src/siotls/states/client/start.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/siotls/states/client/start.py b/src/siotls/states/client/start.py
index 2554ed6..5d5b648 100644
--- a/src/siotls/states/client/start.py
+++ b/src/siotls/states/client/start.py
@@ -8,6 +8,7 @@ from siotls.contents.handshakes.extensions import (
     Heartbeat,
     HostName,
     KeyShareRequest,
+    MaxFragmentLength,
     OCSPStatusRequest,
     ServerCertificateTypeRequest,
     ServerNameListRequest,
@@ -16,7 +17,7 @@ from siotls.contents.handshakes.extensions import (
     SupportedVersionsRequest,
 )
 from siotls.crypto import TLSKeyExchange
-from siotls.iana import HeartbeatMode, TLSVersion
+from siotls.iana import HeartbeatMode, MaxFragmentLengthOctets, TLSVersion
 
 from .. import State
 from . import ClientWaitServerHello
@@ -57,6 +58,8 @@ class ClientStart(State):
                 pass  # the ServerName extension doesn't support ip addresses
         if self.config.alpn:
             extensions.append(ALPN(self.config.alpn))
+        if self.config.max_fragment_length != MaxFragmentLengthOctets.MAX_16384:
+            extensions.append(MaxFragmentLength(octets=self.config.max_fragment_length))
         if self.config.public_key:  # x509 assumed when extension missing
             extensions.append(ClientCertificateTypeRequest(self.config.certificate_types))
         if self.config.trusted_public_keys:  # x509 assumed when extension missing
-- 
2.43.0


From 65a5584abaab360d0cece683f5c7353d7f62e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 24/32] fix: send everything over the wrapped socket

---
 src/siotls/wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/siotls/wrapper.py b/src/siotls/wrapper.py
index deb42aa..4e09488 100644
--- a/src/siotls/wrapper.py
+++ b/src/siotls/wrapper.py
@@ -15,14 +15,14 @@ class WrappedSocket:
     def do_handhskake(self):
         self.conn.initiate_connection()
         if self.conn.config.side == 'client':
-            self.sock.send(self.conn.data_to_send())
+            self.sock.sendall(self.conn.data_to_send())
         while not self.conn.is_post_handshake():
             if input_data := self.sock.recv(self.conn.max_fragment_length):
                 try:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
             else:
                 self.conn.close_receiving_end()  # it goes post handshake
 
@@ -34,7 +34,7 @@ class WrappedSocket:
                     self.conn.receive_data(input_data)
                 finally:
                     if output_data := self.conn.data_to_send():
-                        self.sock.send(output_data)
+                        self.sock.sendall(output_data)
                 application_data += self.conn.data_to_read()
             else:
                 self.conn.close_receiving_end()
@@ -42,9 +42,9 @@ class WrappedSocket:
 
     def write(self, data):
         self.conn.send_data(data)
-        self.sock.send(self.conn.data_to_send())
+        self.sock.sendall(self.conn.data_to_send())
 
     def close(self):
         self.conn.close_sending_end()
         if close_notify := self.conn.data_to_send():
-            self.sock.send(close_notify)
+            self.sock.sendall(close_notify)
-- 
2.43.0


From f68ba48f7f353c9cf1d8fb2b5c73d63674af85a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 25/32] fix: never read unbounded ocsp responses

---
 src/siotls/ocsp_over_http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 1e7ea5d..51c3c8d 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -57,8 +57,8 @@ def request(url, ocsp_req):
         raise RuntimeError(e)
 
     content_length = int(http_res.getheader('Content-Length', OCSP_MAX_RESPONSE_SIZE))
-    if content_length > OCSP_MAX_RESPONSE_SIZE:
-        e =(f"OCSP response body too large ({content_length} bytes vs "
+    if not 0 <= content_length <= OCSP_MAX_RESPONSE_SIZE:
+        e =(f"invalid OCSP response body length ({content_length} bytes vs "
             f"{OCSP_MAX_RESPONSE_SIZE} bytes)")
         raise RuntimeError(e)
 
-- 
2.43.0


From d6cc2bf7e66f45449f311524d5ff12d023fdb42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 26/32] fix: http content length and error message

---
 src/siotls/__main__.py | 2 +-
 src/siotls/utils.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/siotls/__main__.py b/src/siotls/__main__.py
index db950a1..b375f9d 100644
--- a/src/siotls/__main__.py
+++ b/src/siotls/__main__.py
@@ -79,7 +79,7 @@ def main():
         logging.critical("Cannot access TLS certificate file at %s", options.tlscert)
         return 1
     if options.tlskey and not os.access(options.tlskey, os.R_OK):
-        logging.critical("Cannot access TLS private key file at %s", options.tlscert)
+        logging.critical("Cannot access TLS private key file at %s", options.tlskey)
         return 1
 
     # Run
diff --git a/src/siotls/utils.py b/src/siotls/utils.py
index 2b31291..3f77273 100644
--- a/src/siotls/utils.py
+++ b/src/siotls/utils.py
@@ -74,7 +74,7 @@ def make_http11_request(host: str, method: str, path: str, body: str):
         host=host,
         method=method,
         path=path,
-        length=len(body),
+        length=len(body.encode()),
         body=body
     )
 
@@ -92,7 +92,7 @@ def make_http11_response(code: int, body: str, now: datetime | None = None):
     return HTTP11_RESPONSE.format(
         status=HTTPStatus(code),
         date=format_date_time(now.timestamp() if now else time.time()),
-        length=len(body),
+        length=len(body.encode()),
         body=body,
     )
 
-- 
2.43.0


From 8c7b06ef18839863391dc079f62540693db2ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 27/32] fix: use the AEAD limit of RFC 9001 for AES-CCM

---
 src/siotls/crypto/ciphers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/crypto/ciphers.py b/src/siotls/crypto/ciphers.py
index c8b5103..c685749 100644
--- a/src/siotls/crypto/ciphers.py
+++ b/src/siotls/crypto/ciphers.py
@@ -353,7 +353,7 @@ class TLS_AES_128_CCM_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 16
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = int(2 ** 21.5)
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
 
@@ -365,6 +365,6 @@ class TLS_AES_128_CCM_8_SHA256(TLSCipherSuite):
     key_length = 16
     tag_length = 8
     nonce_length = 12
-    usage_limit = ...
+    usage_limit = int(2 ** 21.5)
     hashempty = SHA256_EMPTY
     hashzeros = SHA256_ZEROS
-- 
2.43.0


From 4cf2978bc5221c91476f90198b911a4f287a640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 28/32] fix: refuse a CertificateVerify whose scheme does not
 fit the certificate's key with illegal_parameter

Using a scheme of another key type on the key of the certificate raised a
TypeError, reported to the peer as internal_error.
---
 .../states/client/wait_certificate_verify.py  | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/siotls/states/client/wait_certificate_verify.py b/src/siotls/states/client/wait_certificate_verify.py
index cff7a37..f0b1087 100644
--- a/src/siotls/states/client/wait_certificate_verify.py
+++ b/src/siotls/states/client/wait_certificate_verify.py
@@ -1,4 +1,4 @@
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 
 from siotls.contents import alerts
 from siotls.crypto import TLSSignatureSuite
@@ -34,23 +34,21 @@ class ClientWaitCertificateVerify(State):
             e =(f"the server's selected {content.algorithm} wasn't "
                 f"offered in ClientHello: {self.config.signature_algorithms}")
             raise alerts.IllegalParameter(e)
+        public_key, suites = self._get_peer_key()
         try:
-            SignatureSuite = TLSSignatureSuite[content.algorithm]  # noqa: N806
+            SignatureSuite = suites[content.algorithm]  # noqa: N806
         except KeyError as exc:
-            e = f"{content.algorithm} cannot be used in CertificateVerify"
+            e =(f"{content.algorithm} cannot be used in CertificateVerify "
+                "with the key of the server's certificate")
             raise alerts.IllegalParameter(e) from exc
         self.nconfig.signature_algorithm = content.algorithm
 
-        public_key = (
-            self.nconfig.peer_public_key
-            or self.nconfig.peer_certificate.public_key()
-        )
         try:
             SignatureSuite(public_key).verify(
                 content.signature,
                 CERTIFICATE_VERIFY_SERVER + self._certificate_transcript_hash,
             )
-        except InvalidSignature as exc:
+        except (InvalidSignature, ValueError) as exc:
             raise alerts.DecryptError from exc
 
         self._move_to_state(
@@ -58,3 +56,15 @@ class ClientWaitCertificateVerify(State):
             must_authentify=self._must_authentify,
             certificate_verify_transcript_hash=self._transcript.digest(),
         )
+
+    def _get_peer_key(self):
+        public_key = self.nconfig.peer_public_key
+        if public_key:
+            return public_key, TLSSignatureSuite.for_public_key(public_key)
+        certificate = self.nconfig.peer_certificate
+        try:
+            return certificate.public_key(), TLSSignatureSuite.for_public_key_oid(
+                certificate.public_key_algorithm_oid)
+        except (KeyError, ValueError, UnsupportedAlgorithm) as exc:
+            e = "unsupported public key in the server's certificate"
+            raise alerts.UnsupportedCertificate(e) from exc
-- 
2.43.0


From 0b5d213288f8915853ee7e4c75eb1acc93576a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 29/32] fix: refuse a certificate of an unknown X.509 version
 with bad_certificate

---
 src/siotls/contents/handshakes/certificate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/certificate.py b/src/siotls/contents/handshakes/certificate.py
index ca55cd9..9d02c83 100644
--- a/src/siotls/contents/handshakes/certificate.py
+++ b/src/siotls/contents/handshakes/certificate.py
@@ -8,7 +8,7 @@ from cryptography.hazmat.primitives.serialization import (
     PublicFormat,
     load_der_public_key,
 )
-from cryptography.x509 import Certificate, load_der_x509_certificate
+from cryptography.x509 import Certificate, InvalidVersion, load_der_x509_certificate
 
 from siotls.contents import alerts
 from siotls.iana import CertificateType, ExtensionType, HandshakeType
@@ -86,7 +86,7 @@ class X509(CertificateEntry):
     def _parse_certificate(cls, data):
         try:
             return load_der_x509_certificate(data)
-        except ValueError as exc:
+        except (ValueError, InvalidVersion) as exc:
             raise alerts.BadCertificate(*exc.args) from exc
 
     def _serialize_certificate(self):
-- 
2.43.0


From fa9e5b4bfa7ffc5f6ae6670706bcce2bace5dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:18 +0000
Subject: [PATCH 30/32] fix: parse the list of signed certificate timestamps of
 a certificate entry

---
 .../handshakes/extensions/__init__.py         |  5 ++-
 .../signed_certificate_timestamp.py           | 33 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/siotls/contents/handshakes/extensions/__init__.py b/src/siotls/contents/handshakes/extensions/__init__.py
index b3e6139..127fa75 100644
--- a/src/siotls/contents/handshakes/extensions/__init__.py
+++ b/src/siotls/contents/handshakes/extensions/__init__.py
@@ -157,7 +157,10 @@ from .pre_shared_key import PreSharedKeyRequest, PreSharedKeyResponse, PskIdenti
 from .psk_key_exchange_modes import PskKeyExchangeModes
 from .server_name import HostName, ServerName, ServerNameListRequest, ServerNameResponse
 from .signature_algorithms import SignatureAlgorithms, SignatureAlgorithmsCert
-from .signed_certificate_timestamp import SignedCertificateTimestamp
+from .signed_certificate_timestamp import (
+    SignedCertificateTimestamp,
+    SignedCertificateTimestampList,
+)
 from .status_request import (
     CertificateStatus,
     CertificateStatusRequest,
diff --git a/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py b/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
index 2ca10aa..58e2f48 100644
--- a/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
+++ b/src/siotls/contents/handshakes/extensions/signed_certificate_timestamp.py
@@ -1,4 +1,5 @@
 import dataclasses
+import textwrap
 
 from siotls.iana import ExtensionType, HandshakeType
 from siotls.serial import SerializableBody
@@ -11,7 +12,6 @@ class SignedCertificateTimestamp(Extension, SerializableBody):
     extension_type = ExtensionType.SIGNED_CERTIFICATE_TIMESTAMP
     _handshake_types = (
         HandshakeType.CLIENT_HELLO,
-        HandshakeType.CERTIFICATE,
         HandshakeType.CERTIFICATE_REQUEST
     )
 
@@ -27,3 +27,34 @@ class SignedCertificateTimestamp(Extension, SerializableBody):
 
     def serialize_body(self):
         return b''
+
+
+@dataclasses.dataclass(init=False)
+class SignedCertificateTimestampList(Extension, SerializableBody):
+    extension_type = ExtensionType.SIGNED_CERTIFICATE_TIMESTAMP
+    _handshake_types = (HandshakeType.CERTIFICATE,)
+
+    _struct = textwrap.dedent("""
+        opaque SerializedSCT<1..2^16-1>;
+        struct {
+            SerializedSCT sct_list<1..2^16-1>;
+        } SignedCertificateTimestampList;
+    """).strip('\n')
+    sct_list: list[bytes]
+
+    def __init__(self, sct_list):
+        self.sct_list = sct_list
+
+    @classmethod
+    def parse_body(cls, stream, **kwargs):  # noqa: ARG003
+        return cls(stream.read_listvar(2, 2))
+
+    def serialize_body(self):
+        sct_list = b''.join([
+            b''.join([len(sct).to_bytes(2, 'big'), sct])
+            for sct in self.sct_list
+        ])
+        return b''.join([
+            len(sct_list).to_bytes(2, 'big'),
+            sct_list,
+        ])
-- 
2.43.0


From 61a169c5f90822abf6a90abc20d5680f8e8f3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 31/32] fix: do not follow the redirections of OCSP responders

---
 src/siotls/ocsp_over_http.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/siotls/ocsp_over_http.py b/src/siotls/ocsp_over_http.py
index 51c3c8d..bd6c9a1 100644
--- a/src/siotls/ocsp_over_http.py
+++ b/src/siotls/ocsp_over_http.py
@@ -2,7 +2,7 @@ import heapq
 import logging
 from datetime import datetime
 from urllib.parse import urlsplit
-from urllib.request import Request, urlopen
+from urllib.request import HTTPRedirectHandler, Request, build_opener
 
 import siotls
 
@@ -16,6 +16,16 @@ TIMEOUT = 1
 _cache = {}
 _cache_limits = []
 
+
+class _NoRedirect(HTTPRedirectHandler):
+    # urllib reads the body of the redirections whole, whatever its size
+    def redirect_request(self, *args, **kwargs):  # noqa: ARG002
+        return None
+
+
+_opener = build_opener(_NoRedirect)
+
+
 def request(url, ocsp_req):
     cached_ocsp_res, cached_until = _cache.get(ocsp_req, (None, None))
     if cached_ocsp_res:
@@ -48,7 +58,7 @@ def request(url, ocsp_req):
             'User-Agent': USER_AGENT,
         }
     )
-    http_res = urlopen(http_req, timeout=TIMEOUT)  # noqa: S310
+    http_res = _opener.open(http_req, timeout=TIMEOUT)
     # timeout is per recv, not globally, it can be abused to DOS
 
     content_type = http_res.getheader('Content-Type', 'application/ocsp-response')
-- 
2.43.0


From 840823ebd6eb82f0016305d3fccb52d200c02ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 32/32] fix: refuse the OCSP responses signed with an algorithm
 of another key type

---
 src/siotls/crypto/ocsp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/siotls/crypto/ocsp.py b/src/siotls/crypto/ocsp.py
index d74f623..f139a36 100644
--- a/src/siotls/crypto/ocsp.py
+++ b/src/siotls/crypto/ocsp.py
@@ -97,5 +97,8 @@ def validate_ocsp(issuer, ocsp_request: bytes, ocsp_response: bytes):  # noqa: C
     except InvalidSignature as exc:
         e = "invalid signature"
         raise ValueError(e) from exc
+    except TypeError as exc:
+        e = "signature algorithm not suitable for the issuer public key"
+        raise ValueError(e) from exc
 
     return res.next_update
-- 
2.43.0

