From 26e283b00578da2e8be4288c0d060e80c3ac2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 01/39] fix: raise the documented Currency errors instead of a
 NameError

---
 tfchain/errors.py               | 2 +-
 tfchain/types/PrimitiveTypes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..75f5731 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -1,6 +1,6 @@
 import base64
 
-import tfchain.errors
+import tfchain.errors as errors
 from tfchain.types.BaseDataType import BaseDataTypeClass
 
 
-- 
2.43.0


From 74e0a34be8e7ad5613c5a467b5873defa2defc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 02/39] fix: subtract a Currency from its left operand in
 Currency.__rsub__

---
 tfchain/types/PrimitiveTypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 75f5731..3c26566 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -257,7 +257,10 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        other = Currency._op_other_as_currency(other)
+        return other - self
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 21f18c8ce43bf52941cb1eb00cedfc26ac2eaa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 03/39] fix: prefix an encoded str slice with its length in
 bytes

---
 tfchain/encoders/rivine.py | 3 ++-
 tfchain/encoders/sia.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..f2f496e 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,8 +170,9 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..0eaae5d 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,8 +85,9 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self.add_int(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
-- 
2.43.0


From 11a9ec17a02c0ad7fc46118296476c391a126caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 04/39] fix: compute the root of an empty Merkle tree

---
 tfchain/crypto/merkletree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/crypto/merkletree.py b/tfchain/crypto/merkletree.py
index 1cbea49..34a83e6 100644
--- a/tfchain/crypto/merkletree.py
+++ b/tfchain/crypto/merkletree.py
@@ -54,7 +54,7 @@ class Tree:
         // Root returns the Merkle root of the data that has been pushed.
         """
         if self.head is None:
-            return sum(self.hash_func, bytearray())
+            return sum_(self.hash_func, bytearray())
 
         # // The root is formed by hashing together subTrees in order from least in
         # // height to greatest in height. The taller subtree is the first subtree in
-- 
2.43.0


From 7b720389741c20b5a6be1f9441956c2d7e5c79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 05/39] fix: treat the nil Hash as the all-zero hash it prints
 as

---
 tfchain/types/PrimitiveTypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 3c26566..bd61031 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -167,6 +167,13 @@ class Hash(BinaryData):
             obj = None
         return cls(value=obj)
 
+    @BinaryData.value.setter
+    def value(self, value):
+        BinaryData.value.fset(self, value)
+        if not self._value:
+            # the nil hash is the all-zero hash, also when encoded or compared
+            self._value = bytearray(Hash.SIZE)
+
     def __str__(self):
         s = super().__str__()
         if not s:
-- 
2.43.0


From 41cd1c7664e8e4998aeb6cfe8967872cb9c7d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 06/39] fix: reject address texts that are not the canonical
 form of an address

---
 tfchain/types/ConditionTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..7cf3f20 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -327,6 +327,8 @@ class UnlockHash(BaseDataTypeClass):
             checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
             if expected_checksum != checksum:
                 raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
+        if str(uh) != obj.lower():
+            raise ValueError("{} is not the text of an unlock hash, expected {}".format(obj, str(uh)))
 
         return uh
     
-- 
2.43.0


From 006e44e847d17f7be73ba0f3fd2fa44b954f9a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 07/39] fix: accept only hex digits in
 ERC20Address.is_valid_value

---
 tfchain/types/ERC20.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/ERC20.py b/tfchain/types/ERC20.py
index 5c8ff52..bb18b46 100644
--- a/tfchain/types/ERC20.py
+++ b/tfchain/types/ERC20.py
@@ -2,6 +2,8 @@
 ERC20 Types.
 """
 
+from string import hexdigits
+
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get
 from tfchain.internal.jsutils import blake2_string
@@ -27,11 +29,7 @@ class ERC20Address(BinaryData):
                 value = value[2:]
             if len(value) != ERC20Address.SIZE*2:
                 return False
-            try:
-                int(value, 16)
-                return True
-            except ValueError:
-                return False
+            return all(c in hexdigits for c in value)
         elif isinstance(value, (bytes, bytearray)):
             return len(value) == ERC20Address.SIZE
         elif isinstance(value, ERC20Address):
-- 
2.43.0


From 1a5cd3250b80a6ca7ba47de56bfc21a92eba010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 08/39] fix: keep a fulfillment without signature unfulfilled
 when read from JSON

---
 tfchain/types/FulfillmentTypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..e237c59 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -284,7 +284,8 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        # an empty signature means it is still to be signed
+        self._signature = ED25519Signature.from_json(data['signature']) or None
 
     def json_data_object(self):
         return {
@@ -527,7 +528,8 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        # an empty signature means it is still to be signed
+        self._signature = ED25519Signature.from_json(data['signature']) or None
         self._secret = None
         if 'secret' in data:
             self._secret = AtomicSwapSecret.from_json(data['secret'])
-- 
2.43.0


From 8d50695e09e7bb44fc6b78619d23bc63fd338112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 09/39] fix: check a block stake output index against the block
 stake outputs

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..f6d9a75 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -226,10 +226,10 @@ class TransactionBaseClass(ABC):
 
     def blockstake_outputid_new(self, index):
         """
-        Compute the ID of a Coin Output within this transaction.
+        Compute the ID of a Blockstake Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
-- 
2.43.0


From e6142efefa56d5ba7c2f6ca3b5c9c444cdea4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 10/39] fix: encode the signatures of transactions v145, v146
 and v210 as slices, as when read from JSON

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..64669f3 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -446,7 +446,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..9dad5e1 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1042,26 +1042,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From f17790bfd3645961982c32cb84af720123a79a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 11/39] fix: keep a 3Bot or ERC20 registration without
 signature unsigned when read from JSON

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 64669f3..9fc6bae 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -624,7 +624,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._public_key = None
         # decode signature
         if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
+            self._signature = ED25519Signature.from_json(data['signature']) or None
         else:
             self._signature = None
         # decode registration fee
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 9dad5e1..7904cea 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -398,7 +398,7 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True) or None
 
     def _json_data_object(self):
         output = {
@@ -818,7 +818,7 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        self._signature = ED25519Signature.from_json(data.get('signature', None) or None) or None
 
     def _json_data_object(self):
         output = {
@@ -1187,7 +1187,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None) or None
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1195,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None) or None
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From 0630a70650d66f2cd5e70eb6516c0f0e2594f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 12/39] fix: write a 3Bot registration without signature or
 public key as JSON

---
 tfchain/types/transactions/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 7904cea..23da1af 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
-- 
2.43.0


From 3f7eb5228e0a64cfffc0ff8f2c9d0a32f08f7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 13/39] fix: replace the names of a name transfer instead of
 appending to them

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 23da1af..0c331cb 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1006,7 +1006,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 2205b0e301f0fa3313160ed340d789011e4fda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 14/39] fix: start name transfer and ERC20 registration
 transactions without coin inputs

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 9fc6bae..833305f 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -417,7 +417,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 0c331cb..36e23c8 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -889,7 +889,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
-- 
2.43.0


From bb40fe2022d2e9f23c0dcd75545aee570b5c42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 15/39] fix: copy a BotName without calling str.copy

---
 tfchain/types/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..ba8648b 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From 0784ad233fa3ba9899ea87ff7e12d72fb168bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 16/39] fix: copy an IP NetworkAddress without calling
 bytes.copy

---
 tfchain/types/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index ba8648b..fa7c007 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = value._address[:]
             self._type = value._type
         else:
             raise TypeError(
-- 
2.43.0


From c05b162a974536a73f5c8798def842d2adb4f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 17/39] fix: reject bot names and hostnames that end with a
 newline

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index fa7c007..db53a56 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -98,7 +98,7 @@ class NetworkAddress(BaseDataTypeClass):
             return self.value
 
     HOSTNAME_REGEXP = re.compile(
-        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})$')
+        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})\Z')
     HOSTNAME_LENGTH_MAX = 63
 
     def __init__(self, address=None, network_type=None):
@@ -212,7 +212,7 @@ NetworkAddress.Type.IPV6 = NetworkAddress.Type(2)
 
 class BotName(BaseDataTypeClass):
     REGEXP = re.compile(
-        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*$')
+        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*\Z')
     LENGTH_MAX = 63
 
     def __init__(self, value=None):
-- 
2.43.0


From 2653ef8545d546279ec342ec41c383a18c00df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 18/39] fix: do not count an already confirmed output as
 unconfirmed as well

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..ad3cd7b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2000,7 +2000,7 @@ class WalletBalance(object):
                 # delete from other output lists if prior registered
                 self._outputs_unconfirmed.pop(output.id, None)
                 self._outputs.pop(output.id, None)
-            elif output.id not in self._outputs_unconfirmed_spent:
+            elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
                 self._outputs_unconfirmed[output.id] = output
         self._addresses.add(str(output.condition.unlockhash))
 
-- 
2.43.0


From cf1d52589beee00188c44c8cdd45f159c6b908fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 19/39] fix: report no unconfirmed coins as a Currency without
 chain context too

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ad3cd7b..3bfadac 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1966,7 +1966,7 @@ class WalletBalance(object):
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
-- 
2.43.0


From 336e781f5b1f6a114307b0f8119ae9e6a1c3f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 20/39] fix: merge a balance at chain height 0 into a balance
 without chain context

---
 tfchain/TFChainWallet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 3bfadac..a7f649d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2036,7 +2036,12 @@ class WalletBalance(object):
             raise TypeError("other balance has to be of type wallet balance")
         # another balance is defined, create a new balance that will contain our merge
         # merge the chain info
-        if self.chain_height >= other.chain_height:
+        if self.chain_height == 0 and self.chain_time == 0:
+            # no chain context known yet, so take over the one of the other balance
+            self.chain_time = other.chain_time
+            self.chain_height = other.chain_height
+            self.chain_blockid = other.chain_blockid
+        elif self.chain_height >= other.chain_height:
             if self.chain_time < other.chain_time:
                 raise ValueError("chain time and chain height of balances do not match")
         else:
-- 
2.43.0


From 32c999987e438621a1aaa58507de3b4ac6b40912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 21/39] fix: count an output once when merging balances that
 know it in different states

---
 tfchain/TFChainWallet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index a7f649d..907e311 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2051,10 +2051,11 @@ class WalletBalance(object):
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
         # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        for outputs, confirmed, spent in [
+                (other._outputs, True, False), (other._outputs_spent, True, True),
+                (other._outputs_unconfirmed, False, False), (other._outputs_unconfirmed_spent, False, True)]:
+            for output in list(outputs.values()):
+                WalletBalance.output_add(self, output, confirmed=confirmed, spent=spent)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From 4f8679edab547a32155051438766a6d9c95a771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 22/39] fix: merge the other balance into a multisig balance,
 not itself twice

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 907e311..84f582b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2186,7 +2186,7 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
         if self.address != other.addres:
-- 
2.43.0


From 6ff33178bd313ccba219e2026dae92dd10971cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 23/39] fix: compare the address of the other multisig balance
 when merging

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 84f582b..165ac4a 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2189,7 +2189,7 @@ class MultiSigWalletBalance(WalletBalance):
                 return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
-- 
2.43.0


From b424637c350f3e2615d0663d1b8fe0d698107545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 24/39] fix: merge multisig balances of a wallet already known
 to the balance

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 165ac4a..833160a 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2281,7 +2281,7 @@ class WalletsBalance(WalletBalance):
         if address not in self._wallets:
             self._wallets[address] = balance
             return
-        self._wallets[address] = self._wallets[address].merge(balance)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From ea560ff404ba75194336bd60667d5920e19a51c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 25/39] fix: add time locked outputs of a multisig wallet to
 the balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 833160a..79e17d2 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2233,8 +2233,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From 1342ef5349c162313efb7e4cab6d744bfb989487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 26/39] fix: accept a source list of a single address given as
 a str

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 79e17d2..2f7cfe8 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2311,11 +2311,11 @@ class WalletsBalance(WalletBalance):
                 elif not isinstance(source, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(source)))
                 source = [source]
+            # turn addresses given as a str into unlock hashes
+            source = [UnlockHash.from_json(value) if isinstance(value, str) else value for value in source]
             # add one or multiple personal/multisig addresses
             for value in source:
-                if isinstance(value, str):
-                    value = UnlockHash.from_json(value)
-                elif not isinstance(value, UnlockHash):
+                if not isinstance(value, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(value)))
                 if value.type == UnlockHashType.MULTI_SIG:
                     ms_addresses.add(value)
-- 
2.43.0


From e8d6555bd63603a4f89c6b7aeadf50b23b15253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 27/39] fix: count a transaction with unsigned block stake
 inputs as unfulfilled

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index f6d9a75..57db363 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -297,7 +297,7 @@ class TransactionBaseClass(ABC):
         """
         return reduce(
             (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From 50a030c92aa5be3a90fef8c87593b65f7f9c3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 28/39] fix: keep the parent output of a block stake input
 unknown until it is set

---
 tfchain/types/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
-- 
2.43.0


From b7c74d757817ef10e71ac7f2b7ee80f9a38ce9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 29/39] fix: request the signature of a single signature
 fulfillment that only names its key

---
 tfchain/types/FulfillmentTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index e237c59..4b72b84 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -306,7 +306,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
         unlockhash = parent_condition.unlockhash
-        if str(unlockhash) == str(self.public_key.unlockhash):
+        if self._signature is not None and str(unlockhash) == str(self.public_key.unlockhash):
             return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
-- 
2.43.0


From 8d30e7d6ccd74d8a0663ba2c279c2b68933c62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 30/39] fix: request the signatures of an atomic swap
 fulfillment that only names its key

---
 tfchain/types/FulfillmentTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 4b72b84..fe00716 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -555,7 +555,7 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
         requests = []
-        signee = str(self.public_key.unlockhash)
+        signee = str(self.public_key.unlockhash) if self._signature is not None else None
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
-- 
2.43.0


From b9559b25d452f1cedb8f9fad099a783799799bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 31/39] fix: request no second signature for an input with a
 nil condition

---
 tfchain/types/FulfillmentTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index fe00716..556a4fa 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -306,7 +306,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
         unlockhash = parent_condition.unlockhash
-        if self._signature is not None and str(unlockhash) == str(self.public_key.unlockhash):
+        if self._signature is not None and (unlockhash.type == UnlockHashType.NIL or str(unlockhash) == str(self.public_key.unlockhash)):
             return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
-- 
2.43.0


From d5d8a28be1cbba19d033ed9dcc7bc792212ef11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 32/39] fix: claim an atomic swap contract with the signature
 of the claiming party only

---
 tfchain/TFChainWallet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 2f7cfe8..c925ba5 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1168,12 +1168,14 @@ class TFChainAtomicSwap():
         # define the coin input
         txn.coin_input_add(parentid=contract.outputid, fulfillment=fulfillment, parent_output=contract.coin_output)
         # and the coin output
+        claimer = contract.sender if as_sender else contract.receiver
         txn.coin_output_add(
-            condition=ConditionTypes.unlockhash_new(contract.sender if as_sender else contract.receiver),
+            condition=ConditionTypes.unlockhash_new(claimer),
             value=contract.amount-miner_fee)
 
-        # get all signature requests
-        sig_requests = txn.signature_requests_new()
+        # get the signature request of the claimer,
+        # the other party should not sign even if it is owned by this wallet as well
+        sig_requests = [request for request in txn.signature_requests_new() if request.wallet_address == str(claimer)]
         if len(sig_requests) == 0:
             raise Exception("BUG: sig requests should not be empty at this point, please fix or report as an issue")
 
-- 
2.43.0


From 85de720cbecd88a6853acdfbd767121a8c25f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 33/39] fix: tell the creation and spend transaction of an
 output apart by the output, not by height

---
 tfchain/TFChainClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..16f3fb3 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -353,7 +353,10 @@ class TFChainClient:
             creation_txn = tresp[0]
             spend_txn = None
             if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
+                # the creation transaction is the one that defines the output,
+                # heights do not tell as both can be part of one block or be unconfirmed
+                output_ids = creation_txn.get('coinoutputids' if hash_type == 'coinoutputid' else 'blockstakeoutputids', None) or []
+                if id in output_ids:
                     spend_txn = tresp[1]
                 else:
                     spend_txn = creation_txn
-- 
2.43.0


From f213dd3b3cd8b418433e92c440af194af1a9ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 34/39] fix: keep all unused key pairs that come before the
 last used one

---
 tfchain/TFChainWallet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index c925ba5..44689de 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -289,7 +289,9 @@ class TFChainWallet:
                 else:
                     self._unused_key_pairs.append(pair)
             # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
+            unused_count = count - 1 - last_index
+            if unused_count > 0:
+                self._unused_key_pairs = self._unused_key_pairs[:-unused_count]
             # update the new key count
             self._key_count += last_index + 1
 
-- 
2.43.0


From 8a1017243a94aca845f379ce9b94c7693d7db45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 35/39] fix: keep the collected multisig balance when a mint
 definition is listed

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 16f3fb3..4165fe2 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -564,8 +564,8 @@ class ExplorerUnlockhashResult():
                     if balance is None:
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
-            if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
+            if balance is None and isinstance(txn, TransactionV128) and str(txn.mint_condition.unlockhash) == address:
+                oc = txn.mint_condition.unwrap()
                 balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
-- 
2.43.0


From 38d7f1b84ae26a9c96f8ec316d6cfb83225545a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 36/39] fix: list the transactions of a wallet with addresses
 without activity

---
 tfchain/TFChainWallet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 44689de..9668d83 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,8 +239,13 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
-            transactions.update(result.transactions)
+            try:
+                result = self._unlockhash_get(address)
+                transactions.update(result.transactions)
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                pass
 
         # sort all transactions
         transactions = sorted(transactions, key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
-- 
2.43.0


From 5c5cd950a8cddb360f82aefafb252d9333416049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 37/39] fix: report a confirmed transaction without a height as
 an invalid response

---
 tfchain/TFChainClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 4165fe2..031bda0 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -415,7 +415,7 @@ class TFChainClient:
         transaction.unconfirmed = etxn.get('unconfirmed', False)
         # set the height of the transaction only if confirmed
         if not transaction.unconfirmed:
-            transaction.height = int(etxn.get('height'))
+            transaction.height = int(etxn['height'])
         # return the transaction
         return transaction
 
-- 
2.43.0


From 7522dc6c2be4ef722a193b395bde34cb1fe7caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 38/39] fix: do not share a multisig balance with the balance
 it was merged from

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9668d83..5d937e8 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2288,8 +2288,8 @@ class WalletsBalance(WalletBalance):
         Assign or merge a multi-sig wallet balance
         """
         if address not in self._wallets:
-            self._wallets[address] = balance
-            return
+            # start from a balance of our own, as to not share state with the balance that is merged into this one
+            self._wallets[address] = MultiSigWalletBalance(owners=balance._owners, signature_count=balance.signature_count)
         self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
-- 
2.43.0


From b8fb457b9a86e86a8639a30c6b4014b3a7b30851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 39/39] fix: a lock given as a moment too old for a timestamp
 is not taken for a block height

---
 tfchain/types/ConditionTypes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 7cf3f20..ac39a29 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -135,14 +135,25 @@ class OutputLock:
                 self._value = current_timestamp + offset
             else:
                 # interpret string as a datetime
-                self._value = jsdatetime.fromString(value)
+                self._value = OutputLock._timestamp_checked(jsdatetime.fromString(value))
         elif isinstance(value, timedelta):
             self._value = current_timestamp + int(value.total_seconds())
         elif isinstance(value, datetime):
-            self._value = int(value.timestamp())
+            self._value = OutputLock._timestamp_checked(int(value.timestamp()))
         else:
             raise TypeError("cannot set OutputLock using invalid type {}".format(type(value)))
 
+    @staticmethod
+    def _timestamp_checked(value):
+        """
+        A moment before the first lock timestamp cannot be expressed by a lock:
+        its value would be taken for a block height (or be negative).
+        """
+        if value != 0 and value < OutputLock._MIN_TIMESTAMP_VALUE:
+            raise ValueError("output lock cannot be set to a moment before {}".format(
+                jstime.epoch2HRDateTime(OutputLock._MIN_TIMESTAMP_VALUE)))
+        return value
+
     def __int__(self):
         return self._value
 
-- 
2.43.0

