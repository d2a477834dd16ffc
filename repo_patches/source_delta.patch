From b45ece080a8f0a90f263b9bfc2faa8802af29334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 01/18] fix: report a FieldError for a FileInfo category that
 is no Category

`str in Enum` raises TypeError on Python 3.8-3.11.
---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..5b56693 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if not isinstance(value, self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From 87aab566ff7756e8fc9d138b6074196c8dd8f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 02/18] fix: raise the intended TypeError for a malformed
 promissory note sig

NamedTuple._field_types is gone since Python 3.9.
---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..c7c88ab 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,
                 )
             ) from e
 
-- 
2.43.0


From e35024f8eff39024695334b5f660266ee8658e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 03/18] fix: keep conn_id of a received StartSessionResponse

The slot was set to None before the received slots were loaded.
---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From 078f3f0bab023416bd49232bf38809ccdc1faa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 04/18] fix: make a message with promissory notes equal to its
 received copy

PromissoryNoteSig is a tuple here but a list after transport.
---
 golem_messages/message/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..4b2bdeb 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -266,6 +266,9 @@ class Message:
             return value.value
         if key in self.MSG_SLOTS:
             return self.serialize_message(key, value)
+        if isinstance(value, tuple):
+            # what the other side is going to read
+            return list(value)
         return value
 
     def serialize_message(self, key, value):
-- 
2.43.0


From 9673e2a56a7b9f564094d5141ac445283266c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 05/18] fix: refuse a nested message whose header says it is of
 another type

A signed message could pass for one of another type with the same slots.
---
 golem_messages/message/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 4b2bdeb..ba1bbc4 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -364,8 +364,16 @@ class Message:
                 value=value,
             )
         try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
+            class_ = slot_definition.get_class()
+            header = datastructures.MessageHeader(*nested.header)
+            if header.type_ != library.get_type(class_):
+                raise exceptions.FieldError(
+                    "Should be instance of {}".format(slot_definition.klass),
+                    field=key,
+                    value=value,
+                )
+            result = class_(
+                header=header,
                 sig=nested.sig,
                 slots=nested.slots,
             )
-- 
2.43.0


From 34a8b1795a695cbb578924fcf8d629ff35648f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 06/18] fix: raise a MessageError for every malformed message

Missing or mistyped slots let AttributeError, TypeError and binascii.Error
out of deserialize().
---
 golem_messages/message/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index ba1bbc4..22e3dfb 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -454,12 +454,17 @@ class Message:
 
         class_ = library[header.type_]
         logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError("Malformed message") from e
 
     @classmethod
     def deserialize_with_header(
-- 
2.43.0


From fadc7d2d6b9a9c60c29d7deccc3b6ab7a03af87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 07/18] fix: encode_hex of an empty value

Looking for a prefix raised IndexError, and could never find one.
---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From 8899b32ac4858c138292a6782de872bd434b6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 08/18] fix: let ephemeral keys in constant use expire

---
 golem_messages/cryptography.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..15c3096 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -265,10 +264,15 @@ class ECIESKeyManager:
             - mac key (32 bytes)
             - public key with leading '\x04' byte (65 bytes)
         """
+        # has to be checked outside of the cached function, otherwise keys
+        # that are in constant use never expire
         if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
+            ECIESKeyManager._make_ephem_key.cache_clear()
             self.last_cleanup_time = time.time()
+        return self._make_ephem_key(raw_pubkey)
 
+    @lru_cache(maxsize=1024)
+    def _make_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From 623f53cf550e5f70a8e275d8888c08090b0f7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 09/18] fix: give the rejecting response of the Concent the
 reason of a rejection

---
 golem_messages/factories/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index f78924c..499b77a 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -328,7 +328,7 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
 
     @classmethod
     def with_reject_report_computed_task(cls, *args, **kwargs):
-        if 'reason' in kwargs:
+        if 'reason' not in kwargs:
             kwargs.update({
                 'reason': cls._meta.model.REASON.RejectFromRequestor
             })
-- 
2.43.0


From 3a90946dbf43a426635c764b0055ff13c86b5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 10/18] fix: sign factory-made messages after all other hooks

---
 golem_messages/factories/concents.py | 10 ++++++++++
 golem_messages/factories/helpers.py  | 10 ++++++++++
 golem_messages/factories/tasks.py    |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/golem_messages/factories/concents.py b/golem_messages/factories/concents.py
index 499b77a..d706c47 100644
--- a/golem_messages/factories/concents.py
+++ b/golem_messages/factories/concents.py
@@ -60,6 +60,8 @@ class FileTransferTokenFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    sign = helpers.sign_last()
+
 
 class ForceReportComputedTaskFactory(helpers.MessageFactory):
     class Meta:
@@ -209,6 +211,8 @@ class ForceSubtaskResultsResponseFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    sign = helpers.sign_last()
+
 
 class ForceSubtaskResultsFactory(helpers.MessageFactory):
     class Meta:
@@ -266,6 +270,8 @@ class ForcePaymentFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    sign = helpers.sign_last()
+
 
 class ForcePaymentCommittedFactory(helpers.MessageFactory):
     class Meta:
@@ -338,6 +344,8 @@ class ForceReportComputedTaskResponseFactory(helpers.MessageFactory):
             reject_report_computed_task__attached_task_to_compute___generate=True,  # noqa
         )
 
+    sign = helpers.sign_last()
+
 
 class VerdictReportComputedTaskFactory(helpers.MessageFactory):
     class Meta:
@@ -364,6 +372,8 @@ class VerdictReportComputedTaskFactory(helpers.MessageFactory):
 
     # pylint: enable=no-self-argument
 
+    sign = helpers.sign_last()
+
 
 class ClientAuthorizationFactory(helpers.MessageFactory):
     class Meta:
diff --git a/golem_messages/factories/helpers.py b/golem_messages/factories/helpers.py
index 4d2670f..9d9ed5b 100644
--- a/golem_messages/factories/helpers.py
+++ b/golem_messages/factories/helpers.py
@@ -119,3 +119,13 @@ class MessageFactory(factory.Factory):
         MessageFactory.sign_message(msg, _, __, **kwargs)
 
     # pylint: enable=no-self-argument
+
+
+def sign_last():
+    """
+    Defines the `sign` hook once more. Post-generation hooks are called in the
+    order of their declaration, so factories whose hooks alter the message
+    have to declare it after those; otherwise the signature wouldn't cover
+    the alterations.
+    """
+    return factory.post_generation(MessageFactory.sign_message)
diff --git a/golem_messages/factories/tasks.py b/golem_messages/factories/tasks.py
index f16144f..978d5cf 100644
--- a/golem_messages/factories/tasks.py
+++ b/golem_messages/factories/tasks.py
@@ -311,6 +311,8 @@ class RejectReportComputedTaskFactory(helpers.MessageFactory):
             })
         return cls(*args, **kwargs, cannot_compute_task___generate=True)
 
+    sign = helpers.sign_last()
+
 
 class SubtaskResultsAcceptedFactory(helpers.MessageFactory):
     class Meta:
-- 
2.43.0


From fd87d2ba59467e5683a8b43213d6221843aacfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 11/18] fix: update() and setdefault() of frozen and validating
 dicts check what they are given

---
 golem_messages/datastructures/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/golem_messages/datastructures/__init__.py b/golem_messages/datastructures/__init__.py
index aa2a811..367022b 100644
--- a/golem_messages/datastructures/__init__.py
+++ b/golem_messages/datastructures/__init__.py
@@ -34,6 +34,15 @@ class SetItemDict(dict):
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def update(self, *args, **kwargs):
+        for key, value in dict(*args, **kwargs).items():
+            self[key] = value
+
+    def setdefault(self, key, default=None):
+        if key not in self:
+            self[key] = default
+        return self[key]
+
 
 class FrozenDict(SetItemDict):
     """
-- 
2.43.0


From 8a3e2b19d048c5a674c4ad935c2ce71bf5abc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 12/18] fix: keep the header of a message as it is when
 serializing it

It is a part of what was signed by the messages this one is nested in: their
signatures got invalid as soon as this one was sent in another way than before.
---
 golem_messages/message/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 22e3dfb..86ea5ad 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -221,7 +221,9 @@ class Message:
             # first set it to None explicitly
             raise exceptions.SignatureAlreadyExists()
 
-        self.encrypted = bool(self.ENCRYPT and encrypt_func)
+        # Our own header stays as it is: it's a part of what was signed
+        # by the messages this one is nested in.
+        encrypted = bool(self.ENCRYPT and encrypt_func)
         payload = serializer.dumps(self.slots())
 
         # When nesting one message inside another it's important
@@ -235,16 +237,16 @@ class Message:
             else:
                 self._fake_sign()
 
-        if self.encrypted:
+        if encrypted:
             payload = encrypt_func(payload)
 
         return (
-            self.serialize_header() +
+            self.serialize_header(encrypted) +
             self.sig +
             payload
         )
 
-    def serialize_header(self):
+    def serialize_header(self, encrypted: typing.Optional[bool] = None):
         """ Serialize message's header
         H unsigned short (2 bytes) big-endian
         Q unsigned long long (8 bytes) big-endian
@@ -258,7 +260,7 @@ class Message:
             self.HDR_FORMAT,
             self._type,
             self.timestamp,
-            self.encrypted,
+            self.encrypted if encrypted is None else encrypted,
         )
 
     def serialize_slot(self, key, value):
-- 
2.43.0


From fdcade0cd44bbc076c38284371d1f73c74a4d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 13/18] fix: describe the repository of the package, not the
 one of the process

---
 version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/version.py b/version.py
index c301294..301f9c4 100644
--- a/version.py
+++ b/version.py
@@ -46,6 +46,7 @@ def call_git_describe(prefix='', cwd='.'):
     version = subprocess.run(
         version_cmd.split(),
         stdout=subprocess.PIPE,
+        cwd=cwd,
         check=True,
         shell=False,
     ).stdout.decode()
@@ -53,6 +54,7 @@ def call_git_describe(prefix='', cwd='.'):
     last_tag = subprocess.run(
         last_tag_cmd.split(),
         stdout=subprocess.PIPE,
+        cwd=cwd,
         check=True,
         shell=False,
     ).stdout.decode()
-- 
2.43.0


From 8c76b7fecbe3ba971d4b81867d2c1ab874c1fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 14/18] fix: update frozen and validating dicts in place (|=)
 with checks too

---
 golem_messages/datastructures/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golem_messages/datastructures/__init__.py b/golem_messages/datastructures/__init__.py
index 367022b..0cd8d3b 100644
--- a/golem_messages/datastructures/__init__.py
+++ b/golem_messages/datastructures/__init__.py
@@ -38,6 +38,10 @@ class SetItemDict(dict):
         for key, value in dict(*args, **kwargs).items():
             self[key] = value
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def setdefault(self, key, default=None):
         if key not in self:
             self[key] = default
-- 
2.43.0


From 5463edf6e8b731961a3d57ec1539078c694ecaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 15/18] fix: show messages whose slots can't be serialized for
 other reasons too

---
 golem_messages/message/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 86ea5ad..0305408 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -160,7 +160,7 @@ class Message:
     def __repr__(self):
         try:
             slots_ = self.slots()
-        except exceptions.FieldError:
+        except Exception:  # pylint: disable=broad-except
             slots_ = '<unserializable>'
         template = "{name!r}(header={header!r}, sig={sig!r}, slots={slots!r})"
         return template.format(
-- 
2.43.0


From 934d9c919cbfc14dc714a6980182b4ec8dc7375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 16/18] fix: numbers and packed bytes are no IP addresses

---
 golem_messages/validators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 58129dc..76919e1 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -62,6 +62,13 @@ def validate_port(field_name, value):
 
 
 def validate_ipaddress(field_name, value):
+    # numbers and packed bytes would be taken for addresses, too
+    if not isinstance(value, str):
+        raise exceptions.FieldError(
+            "Should be a string",
+            field=field_name,
+            value=value,
+        )
     try:
         ipaddress.ip_address(value)
     except ValueError as e:
-- 
2.43.0


From 8417240614710677a9a9e00dd3cd3feae3368a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 17/18] fix: the time of a transfer was a second short for some
 very large files

The quotient of a size beyond 2**53 and the rate isn't exact as a float.
---
 golem_messages/helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/helpers.py b/golem_messages/helpers.py
index 54b4805..1559cb5 100644
--- a/golem_messages/helpers.py
+++ b/golem_messages/helpers.py
@@ -1,5 +1,4 @@
 import datetime
-import math
 
 from golem_messages import constants
 
@@ -35,7 +34,7 @@ def maximum_download_time(
 
     bytes_per_sec = rate << 10
     download_time = datetime.timedelta(
-        seconds=int(math.ceil(size / bytes_per_sec))
+        seconds=int(-(-size // bytes_per_sec))  # rounded up
     )
 
     return constants.DOWNLOAD_LEADIN_TIME + download_time
-- 
2.43.0


From c4e796b644baf5198c15884c3a36f460ccc0a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:22 +0000
Subject: [PATCH 18/18] fix: messages made by factories shared the list of
 frames

---
 golem_messages/factories/tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/factories/tasks.py b/golem_messages/factories/tasks.py
index 978d5cf..efcbf0f 100644
--- a/golem_messages/factories/tasks.py
+++ b/golem_messages/factories/tasks.py
@@ -47,7 +47,7 @@ class CTDBlenderExtraDataFactory(factory.DictFactory):
     outfilebasename = 'test task'
     scene_file = '/golem/resources/look_to_windward.blend'
     script_src = 'pass'
-    frames = [1]
+    frames = factory.LazyFunction(lambda: [1])
     output_format = 'PNG'
 
 
-- 
2.43.0

