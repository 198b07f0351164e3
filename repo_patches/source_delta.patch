From da1d7943413f277024b432af422d4832bcac5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 01/59] fix: nonce from base IV and partial IV keeps the base
 IV length

---
 pycose/messages/enccommon.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..0174012 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -39,12 +39,13 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         :returns: plaintext as bytes
         """
 
-        alg = self.get_attr(headers.Algorithm)
-        nonce = self._get_nonce()
-
+        # first check if key is set (since a part of the nonce can be stored in the key)
         if self.key is None:
             raise CoseException("Key cannot be None")
 
+        alg = self.get_attr(headers.Algorithm)
+        nonce = self._get_nonce()
+
         self.key.verify(SymmetricKey, alg, [DecryptOp])
 
         return alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)
@@ -83,10 +84,16 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
-            nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
 
-        if nonce is None and self.key.base_iv == b'':
+            if partial_iv is not None:
+                if len(partial_iv) > len(self.key.base_iv):
+                    raise CoseException('Partial IV cannot be longer than the base IV')
+
+                # left-pad the partial IV with zeros to the length of the base IV (RFC 8152, section 3.1)
+                nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
+                nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
+
+        if nonce is None:
             raise CoseException('No IV found')
 
         return nonce
-- 
2.43.0


From 4b938a45b7703e90ae4cb206a57e6561bec7125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 02/59] fix: get_attr with a default value no longer reports
 absent headers as duplicated

---
 pycose/messages/cosebase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..799657d 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        p_attr = self._phdr.get(attribute)
+        u_attr = self._uhdr.get(attribute)
 
         if p_attr is not None and u_attr is not None:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
         if p_attr is not None:
             return p_attr
-        else:
+        elif u_attr is not None:
             return u_attr
+        else:
+            return default
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From 934797d2bcd575412c8d643d725291f76db30f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 03/59] fix: refuse to delete the only key material of an OKP
 key

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..78d44ef 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -246,7 +246,7 @@ class OKPKey(CoseKey):
         if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
             if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From 799b1e0f48c82d3d042d5aef5b845406e1a7eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 04/59] fix: key_ops setter rejects a list as a whole and
 accepts the empty list

---
 pycose/keys/cosekey.py   | 8 +++++++-
 pycose/keys/ec2.py       | 4 ++--
 pycose/keys/okp.py       | 4 ++--
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 4 ++--
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 119840b..786ff0a 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -264,7 +264,13 @@ class CoseKey(MutableMapping, ABC):
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
         if isinstance(new_key_ops, list):
-            self.store[KpKeyOps] = [KeyOps.from_id(k) for k in new_key_ops]
+            new_key_ops = [KeyOps.from_id(k) for k in new_key_ops]
+
+            if len(new_key_ops):
+                self.store[KpKeyOps] = new_key_ops
+            else:
+                # an empty list means no restrictions, it cannot be encoded in a COSE_Key
+                self.store.pop(KpKeyOps, None)
         else:
             raise ValueError("Key operations should be a list with KeyOps values.")
 
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..27ffa42 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -253,8 +253,8 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 78d44ef..df9b0f8 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,8 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..2420927 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -296,8 +296,8 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..31683d4 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -104,8 +104,8 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From 10939693497ba3f3b5c659f0fc184dd949fc0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 05/59] fix: SHAKE-128 and SHAKE-256 thumbprints can be
 computed

---
 pycose/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..e0a9598 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -48,9 +48,13 @@ class _HashAlg(CoseAlgorithm, ABC):
     hash_cls = None
     #: Set in derived class to optional truncation size in byte count
     trunc_size: Optional[int] = None
+    #: Set in derived class to the output size in byte count, for extendable-output functions only
+    xof_size: Optional[int] = None
 
     @classmethod
     def get_hash_func(cls) -> HashAlgorithm:
+        if cls.xof_size:
+            return cls.hash_cls(cls.xof_size)
         return cls.hash_cls()
 
     @classmethod
@@ -434,6 +438,7 @@ class Shake256(_HashAlg):
     identifier = -45
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
+    xof_size = 64
 
 
 @CoseAlgorithm.register_attribute()
@@ -874,6 +879,7 @@ class Shake128(_HashAlg):
     identifier = -18
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
+    xof_size = 32
 
 
 @CoseAlgorithm.register_attribute()
-- 
2.43.0


From 578596a99f167c07fa8821270cc7fe3e08292b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 06/59] fix: X448 coordinates are 56 bytes long

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From bdd2f2b8757f23d51913189cfc5547db4903f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 07/59] fix: repr of a message without payload

---
 pycose/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..33f2bba 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from typing import Any, Callable
+from typing import Any, Callable, Optional
 
 from pycose.exceptions import CoseException
 
@@ -77,5 +77,7 @@ class _CoseAttribute(ABC):
         return f'<{self.fullname}: {self.identifier}>'
 
 
-def truncate(payload: bytes) -> str:
+def truncate(payload: Optional[bytes]) -> str:
+    if payload is None:
+        return 'None'
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From b884c92b5522d93d16840401ed07ad65a384bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 08/59] fix: unknown key parameters can be deleted again

---
 pycose/keys/ec2.py       | 10 ++++++----
 pycose/keys/okp.py       |  8 +++++---
 pycose/keys/symmetric.py |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 27ffa42..7adf22e 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -278,12 +278,14 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != EC2KpCurve:
+            if param == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif param == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (param == EC2KpX or param == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index df9b0f8..93be00c 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -243,10 +243,12 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != OKPKpCurve:
+            if param == OKPKpD and OKPKpX not in self.store:
                 pass
-            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif param == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 31683d4..3d2b45b 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,9 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param != KpKty and param != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0


From 1ac8f4f7cffa50839d5ab2a73d54d4202f7a5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 09/59] fix: refuse to delete the mandatory parameters of an
 RSA key

---
 pycose/keys/rsa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 2420927..a5291c1 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -314,6 +314,12 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    def __delitem__(self, key):
+        if self._key_transform(key, allow_unknown_attrs=True) in (KpKty, RSAKpN, RSAKpE):
+            raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalid COSE RSA Key")
+
+        super(RSAKey, self).__delitem__(key)
+
     def __repr__(self):
         hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
         return hdr
-- 
2.43.0


From 3bf68925d2669999ad7597b1143a949221eeb7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 10/59] fix: repr of an RSA key does not print the private key

---
 pycose/keys/rsa.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index a5291c1..b0e5ffb 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -321,7 +322,14 @@ class RSAKey(CoseKey):
         super(RSAKey, self).__delitem__(key)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for name in ('RSAKpN', 'RSAKpE', 'RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpRi',
+                     'RSAKpDi', 'RSAKpTi'):
+            if name in _key and len(_key[name]) > 0:
+                _key[name] = utils.truncate(_key[name])
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From e4492a3200f8b2ae7fe211ce85578de965860eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 11/59] fix: KDF contexts do not share their default party
 information

---
 pycose/messages/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..88daa36 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -64,8 +64,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From 42851ff75302c63c3364fdff43c7cdcee44b76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 12/59] fix: assigning recipients replaces the previous
 recipients

---
 pycose/messages/encmessage.py | 2 +-
 pycose/messages/recipient.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..b60f1d7 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -135,7 +135,7 @@ class EncMessage(enccommon.EncCommon):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..a6c540e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -145,7 +145,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+            self._recipients = list(recipients)
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From 85aa0f707d0c137aa302dde5ec9db00c064a65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 13/59] fix: certificate chains of a single certificate can be
 verified

---
 pycose/extensions/x509.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..6087248 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,12 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        # a chain with a single certificate is not wrapped in a list
+        cert_chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=cert_chain[0],
+            intermediate_certs=cert_chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From e0c807e9c2355d21541a9ce7a1ad22b7d0883dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 14/59] fix: ECDH refuses keys on different curves

---
 pycose/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index e0a9598..347022e 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -293,6 +293,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def _ecdh(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2') -> bytes:
+        if private_key.crv != public_key.crv:
+            raise CoseException("ECDH keys must be on the same curve")
+
         d_value = int(hexlify(private_key.d), 16)
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
-- 
2.43.0


From c1d1968e6cc907f967bb099919280fc21aa362e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 15/59] fix: AES-GCM, AES-CCM and AES-MAC refuse keys of the
 wrong length

---
 pycose/algorithms.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 347022e..daae95a 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -207,8 +207,16 @@ class _AesMac(CoseAlgorithm, ABC):
     def get_digest_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    @abstractmethod
+    def get_key_length(cls) -> int:
+        raise NotImplementedError()
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
+
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
@@ -321,11 +329,15 @@ class _AesGcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.encrypt(nonce=nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.decrypt(nonce=nonce, data=ciphertext, associated_data=aad)
 
@@ -339,11 +351,15 @@ class _AesCcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESCCM(key.k, tag_length=cls.get_tag_length())
         return cipher.encrypt(nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())
         return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)
 
-- 
2.43.0


From 2f15dbc5f4822cb5d0d10dfdac364f34b194ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 16/59] fix: ECDSA refuses keys on another curve than the one
 of the algorithm

---
 pycose/algorithms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index daae95a..d4c41ac 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -183,14 +183,25 @@ class _Ecdsa(CoseAlgorithm, ABC):
     def get_hash_func(cls):
         raise NotImplementedError()
 
+    @classmethod
+    def _check_curve(cls, key: 'EC2') -> None:
+        curve_names = {NIST256p.name: 'P_256', NIST384p.name: 'P_384', NIST521p.name: 'P_521'}
+
+        if key.crv.fullname != curve_names[cls.get_curve().name]:
+            raise CoseException(f"Illegal curve for {cls.fullname} signing: {key.crv}")
+
     @classmethod
     def sign(cls, key: 'EC2', data: bytes) -> bytes:
+        cls._check_curve(key)
+
         sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())
 
         return sk.sign_deterministic(data, hashfunc=cls.get_hash_func())
 
     @classmethod
     def verify(cls, key: 'EC2', data: bytes, signature: bytes) -> bool:
+        cls._check_curve(key)
+
         p = Point(curve=cls.get_curve().curve, x=int(hexlify(key.x), 16), y=int(hexlify(key.y), 16))
 
         vk = VerifyingKey.from_public_point(p, cls.get_curve(), cls.get_hash_func(), validate_point=True)
-- 
2.43.0


From 6324ba580e31abc3e41aac57cf7c08b11b2ef096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 17/59] fix: key wrap and key agreement honour the restrictions
 of the supplied keys

---
 pycose/messages/recipient.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index a6c540e..906c9a7 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -335,6 +335,9 @@ class KeyWrap(CoseRecipient):
             raise CoseException("The algorithm parameter should at least be included in the unprotected header")
 
         elif alg in {A128KW, A192KW, A256KW}:
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
+
             key_ops = [WrapOp, EncryptOp]
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
@@ -353,6 +356,9 @@ class KeyWrap(CoseRecipient):
         key_ops = [DecryptOp, UnwrapOp]
 
         if alg in {A128KW, A192KW, A256KW}:
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
+
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
@@ -540,6 +546,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -557,6 +566,15 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown static or ephemeral sender public key")
+
+        if self.key is None:
+            raise CoseException("No key found to decrypt the CEK")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From 9b74a8ce9b1569a495118ad14f18d31eb0387d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 18/59] fix: RSA keys can be restricted to key wrapping
 operations

---
 pycose/keys/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index b0e5ffb..87531cb 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -9,7 +9,7 @@ from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
                                   RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther, RSAKpDi, RSAKpRi, RSAKpTi)
 from pycose.keys.keytype import KtyRSA
-from pycose.keys.keyops import SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp
+from pycose.keys.keyops import SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp
 
 if TYPE_CHECKING:
     from pycose.keys.keyops import KEYOPS
@@ -293,7 +293,7 @@ class RSAKey(CoseKey):
 
     @key_ops.setter
     def key_ops(self, new_key_ops: List[Type['KEYOPS']]) -> None:
-        supported = {SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp}
+        supported = {SignOp, VerifyOp, DeriveKeyOp, DeriveBitsOp, EncryptOp, DecryptOp, WrapOp, UnwrapOp}
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-- 
2.43.0


From f49562cd9afa30e4b72becc32afdddceac169123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 19/59] fix: COSE_Mac with key wrap and key agreement
 recipients

---
 pycose/algorithms.py          | 6 ++++++
 pycose/messages/macmessage.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index d4c41ac..0bd29ce 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -265,6 +265,12 @@ class _HMAC(CoseAlgorithm, ABC):
     def get_hash_func(cls) -> HashAlgorithm:
         raise NotImplementedError()
 
+    @classmethod
+    def get_key_length(cls) -> int:
+        """ Length of a generated or derived HMAC key, the output size of the hash function """
+
+        return cls.get_hash_func().digest_size
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
         h = HMAC(key.k, cls.get_hash_func(), backend=default_backend())
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..e2eedd7 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,14 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
 
 CBOR = bytes
 
@@ -94,7 +96,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
-- 
2.43.0


From 6c92edfa304bfeb616dafef6c2d6e6bfe844a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 20/59] fix: all key wrapping recipients of a message carry the
 same CEK

---
 pycose/messages/encmessage.py | 17 ++++++++++++-----
 pycose/messages/macmessage.py | 16 +++++++++++-----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index b60f1d7..0f52202 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -86,12 +86,19 @@ class EncMessage(enccommon.EncCommon):
             payload = super(EncMessage, self).encrypt()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # reuse the CEK if it was already set on a recipient
+            ceks = {r.payload for r in self.recipients if r.payload != b''}
+
+            if len(ceks) > 1:
+                raise CoseException('The recipients carry different content encryption keys')
+
+            if len(ceks):
+                key_bytes = ceks.pop()
+            else:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index e2eedd7..a31ecec 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -88,13 +88,19 @@ class MacMessage(maccommon.MacCommon):
             payload = super(MacMessage, self).compute_tag()
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
-            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # reuse the CEK if it was already set on a recipient
+            ceks = {r.payload for r in self.recipients if r.payload != b''}
+
+            if len(ceks) > 1:
+                raise CoseException('The recipients carry different content encryption keys')
+
+            if len(ceks):
+                key_bytes = ceks.pop()
+            else:
+                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
 
             for r in self.recipients:
-                if r.payload == b'':
-                    r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                r.payload = key_bytes
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
-- 
2.43.0


From 1f75fe97d92ad66afd4a3d812ecc00d3758d0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 21/59] fix: direct key agreement generates the ephemeral key
 when none is set

---
 pycose/messages/recipient.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 906c9a7..ac5da44 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -458,6 +458,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        if self.key is None:
+            # if ephemeral and not set, generate ephemeral key pair
+            if ops == "encrypt" and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+                self._setup_ephemeral_key(peer_key)
+            else:
+                raise CoseException("No private key found to derive the CEK")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From d5470e4db8763ceea165214d878f0edccf5232e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 22/59] fix: KDF context carries the protected header of the
 recipient as transmitted

---
 pycose/messages/context.py   | 15 ++++++++++++---
 pycose/messages/recipient.py |  3 ++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 88daa36..9a7beb6 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,16 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            # protected header is already encoded
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            # a zero-length byte string is used when there are no protected header parameters
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index ac5da44..f892bca 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -165,7 +165,8 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        protected = self.phdr_encoded if len(self.phdr) else b''
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From cb115add645e058604607aa4100fb55ca77d0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 23/59] fix: the salt header is used by the HKDF of the key
 agreement algorithms

---
 pycose/algorithms.py         | 5 +++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 0bd29ce..5872164 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -333,10 +333,11 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index f892bca..c0e89e0 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -440,7 +440,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -530,7 +531,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From 944bb2bc91c7edf48851e62c81ea9eeca3ba07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 24/59] fix: COSE_Sign signature structure with empty protected
 headers

---
 pycose/messages/signer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..3fdca48 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,10 +50,11 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
+        sign_structure = [self._parent.context]
 
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
+        # empty protected headers are zero-length byte strings (RFC 8152, section 4.4)
+        sign_structure.append(self._parent.phdr_encoded if len(self._parent.phdr) else b'')
+        sign_structure.append(self.phdr_encoded if len(self.phdr) else b'')
 
         sign_structure.append(self.external_aad)
 
-- 
2.43.0


From 8911a070d9d089562580540ff9f4635050eb1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 25/59] fix: signers appended to a COSE_Sign message can sign

---
 pycose/messages/signmessage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/signmessage.py b/pycose/messages/signmessage.py
index e35df1e..8ebdf0a 100644
--- a/pycose/messages/signmessage.py
+++ b/pycose/messages/signmessage.py
@@ -76,6 +76,10 @@ class _SignMessage(CoseMessage, metaclass=abc.ABCMeta):
 
         message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
+        # signers can also be added through the signers list itself
+        for s in self.signers:
+            s._parent = self
+
         if len(self.signers):
             message.append([s.encode(detached_payload) for s in self.signers])
 
-- 
2.43.0


From c52eed6c83e440767348dabf7172aef13c947f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 26/59] fix: malformed recipients are rejected instead of
 dropped

---
 pycose/messages/encmessage.py | 4 +---
 pycose/messages/macmessage.py | 7 ++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 0f52202..5c4c456 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -26,11 +26,9 @@ class EncMessage(enccommon.EncCommon):
     def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool) -> 'EncMessage':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index a31ecec..beb8a6c 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,11 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
-        try:
+        if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
 
         return msg
 
@@ -57,8 +55,7 @@ class MacMessage(maccommon.MacCommon):
 
         super().__init__(phdr, uhdr, payload, external_aad, key, *args, **kwargs)
 
-        self._recipients = []
-        self.recipients = recipients
+        self.recipients = [] if recipients is None else recipients
 
     def encode(self, tag: bool = True, mac: bool = True, *args, **kwargs) -> CBOR:
         """ Encodes and protects the COSE_Mac message. """
-- 
2.43.0


From 42873ee5ce5dde27212794d350c275625c08680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 27/59] fix: header setters accept the same attribute names and
 identifiers as the constructor

---
 pycose/messages/cosebase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 799657d..4a1d8ac 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -90,7 +90,7 @@ class CoseBase(metaclass=abc.ABCMeta):
     def phdr(self, new_phdr: dict) -> None:
         if type(new_phdr) is not dict:
             raise TypeError("protected header should be of type 'dict'")
-        self._phdr = deepcopy(new_phdr)
+        self._phdr = self._parse_header(deepcopy(new_phdr), True)
         self._phdr_encoded = None
 
     @property
@@ -101,18 +101,18 @@ class CoseBase(metaclass=abc.ABCMeta):
     def uhdr(self, new_uhdr: dict) -> None:
         if type(new_uhdr) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
-        self._uhdr = deepcopy(new_uhdr)
+        self._uhdr = self._parse_header(deepcopy(new_uhdr), True)
 
     def phdr_update(self, phdr_params: dict) -> None:
         if type(phdr_params) is not dict:
             raise TypeError("protected header should be of type 'dict'")
-        self._phdr.update(phdr_params)
+        self._phdr.update(self._parse_header(phdr_params, True))
         self._phdr_encoded = None
 
     def uhdr_update(self, uhdr_params: dict) -> None:
         if type(uhdr_params) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
-        self._uhdr.update(uhdr_params)
+        self._uhdr.update(self._parse_header(uhdr_params, True))
 
     @property
     def local_attrs(self):
-- 
2.43.0


From 67bae297db7b18f9c9750903aac27c3c388ecedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 28/59] fix: EC2 key consistency checks do not depend on
 assertions

---
 pycose/keys/ec2.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 7adf22e..53bff7e 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -151,12 +151,14 @@ class EC2Key(CoseKey):
                                                 curve=self.crv.curve_obj,
                                                 backend=default_backend()).public_key().public_numbers()
             if x:
-                assert x == public_nums.x.to_bytes(self.crv.size, 'big')
+                if x != public_nums.x.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("Public coordinate X does not match the private key")
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
             if y:
-                assert y == public_nums.y.to_bytes(self.crv.size, 'big')
+                if y != public_nums.y.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("Public coordinate Y does not match the private key")
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
@@ -170,7 +172,8 @@ class EC2Key(CoseKey):
             # Just to check the endianness of the conversions -- if we get the
             # right X back out, then the X and Y are consistent, and anyway the
             # crypto backend will check whether the point is on the curve
-            assert x == key.public_numbers().x.to_bytes(self.crv.size, 'big')
+            if x != key.public_numbers().x.to_bytes(self.crv.size, 'big'):
+                raise CoseInvalidKey("Public coordinate X is not a valid coordinate")
             y = key.public_numbers().y.to_bytes(self.crv.size, 'big')
 
         if x != b'':
-- 
2.43.0


From 29f09f9b05bcbc2bce02c764fc33261a36eb0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 29/59] fix: compressed EC2 points select the signalled Y
 coordinate

---
 pycose/keys/ec2.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 53bff7e..23511b0 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -156,17 +156,25 @@ class EC2Key(CoseKey):
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
-            if y:
+            if type(y) is bool:
+                if y != bool(public_nums.y & 1):
+                    raise CoseInvalidKey("Sign bit of public coordinate Y does not match the private key")
+                y = public_nums.y.to_bytes(self.crv.size, 'big')
+            elif y:
                 if y != public_nums.y.to_bytes(self.crv.size, 'big'):
                     raise CoseInvalidKey("Public coordinate Y does not match the private key")
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
-        if x and not y:
+        # a compressed point carries the sign bit of Y instead of Y itself (RFC 8152, section 13.1.1)
+        compressed = type(y) is bool
+
+        if x and (compressed or not y):
             # try to derive y from x
             key = ec.EllipticCurvePublicKey.from_encoded_point(self.crv.curve_obj,
-                                                               # don't care which of the two possible Y values we get
-                                                               b'\x03' +
+                                                               # without sign bit, don't care which of the two
+                                                               # possible Y values we get
+                                                               (b'\x02' if y is False else b'\x03') +
                                                                x  # or [::-1]?
                                                                )
             # Just to check the endianness of the conversions -- if we get the
-- 
2.43.0


From be6febba893b524583d14f1570a65d860dbf6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 30/59] fix: recipients nested in a decoded recipient are kept

---
 pycose/messages/recipient.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index c0e89e0..f06c012 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -76,17 +76,24 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
             raise CoseException("No algorithm specified in recipient structure")
 
     @classmethod
-    def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
-        found = False
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'Recipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        if len(cose_obj):
+            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient')
+                              for r in cose_obj.pop(0)]
 
+        return msg
+
+    @classmethod
+    def has_recipient(cls, target: 'Recipient', recipients: List['Recipient']):
         for r in recipients:
             if target is r:
                 return True
-            else:
-                if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
+            elif len(r.recipients) and cls.has_recipient(target, r.recipients):
+                return True
 
-        return found
+        return False
 
     @classmethod
     def verify_recipients(cls, recipients: List['Recipient']) -> set:
@@ -262,9 +269,6 @@ class KeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -496,9 +500,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From 134174ff5b9b88920ceb1c0898ee8e1c7ec241eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 31/59] fix: assigning the key type stores a key type and
 refuses another one

---
 pycose/keys/cosekey.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 786ff0a..7b93f58 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -12,6 +12,7 @@ from pycose.algorithms import CoseAlgorithm
 from pycose.exceptions import CoseException, CoseIllegalKeyType, CoseIllegalAlgorithm, CoseIllegalKeyOps
 from pycose.headers import EphemeralKey, StaticKey
 from pycose.keys.keyops import KeyOps
+from pycose.keys.keytype import KTY
 from pycose.keys.keyparam import KpKty, KpKeyOps, KpAlg, KpKid, KpBaseIV, KeyParam
 
 if TYPE_CHECKING:
@@ -231,7 +232,12 @@ class CoseKey(MutableMapping, ABC):
 
     @kty.setter
     def kty(self, kty: Any):
-        self.store[KpKty] = KpKty.from_id(kty)
+        kty = KTY.from_id(kty)
+
+        if not isinstance(self, self._key_types.get(kty, ())):
+            raise CoseIllegalKeyType(f"Illegal key type for {type(self).__name__}: {kty}")
+
+        self.store[KpKty] = kty
 
     @property
     def alg(self) -> Optional[Type['CoseAlg']]:
-- 
2.43.0


From 8caff8618ab19b3c22d506906fa9d51101e46309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 32/59] fix: direct key agreement recipients refuse any nested
 recipient when encoding

---
 pycose/messages/recipient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index f06c012..3a29d3e 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -427,7 +427,7 @@ class DirectKeyAgreement(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None")
 
-        if len(self.recipients) > 1:
+        if len(self.recipients):
             raise CoseMalformedMessage(f'Recipient class DIRECT_KEY_AGREEMENT cannot carry more recipients')
 
         # only the ephemeral sender key MUST be included in the header, for the static sender it is recommended by not
-- 
2.43.0


From 6b857a3f65c0f173bdd712f63a9ee7ff5b902029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 33/59] fix: headers holding CBOR tags can be assigned

---
 pycose/messages/cosebase.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 4a1d8ac..238af1e 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -90,7 +90,7 @@ class CoseBase(metaclass=abc.ABCMeta):
     def phdr(self, new_phdr: dict) -> None:
         if type(new_phdr) is not dict:
             raise TypeError("protected header should be of type 'dict'")
-        self._phdr = self._parse_header(deepcopy(new_phdr), True)
+        self._phdr = self._parse_header(self._copy_value(new_phdr), True)
         self._phdr_encoded = None
 
     @property
@@ -101,7 +101,7 @@ class CoseBase(metaclass=abc.ABCMeta):
     def uhdr(self, new_uhdr: dict) -> None:
         if type(new_uhdr) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
-        self._uhdr = self._parse_header(deepcopy(new_uhdr), True)
+        self._uhdr = self._parse_header(self._copy_value(new_uhdr), True)
 
     def phdr_update(self, phdr_params: dict) -> None:
         if type(phdr_params) is not dict:
@@ -161,6 +161,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         else:
             encoder.encode(cose_attribute.identifier)
 
+    @classmethod
+    def _copy_value(cls, value: Any) -> Any:
+        # CBOR tags cannot be copied with deepcopy
+        if isinstance(value, cbor2.CBORTag):
+            return cbor2.CBORTag(value.tag, cls._copy_value(value.value))
+        elif type(value) is dict:
+            return {k: cls._copy_value(v) for k, v in value.items()}
+        elif type(value) is list:
+            return [cls._copy_value(v) for v in value]
+        else:
+            return deepcopy(value)
+
     @classmethod
     def _parse_header(cls, hdr, allow_unknown_attributes: bool) -> dict:
         decoded_hdr = {}
-- 
2.43.0


From fa337fdea04dacb373d8b74899e5b18d74802c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 34/59] fix: RSA keys with more than two primes are accepted
 and keep their additional primes

---
 pycose/keys/rsa.py | 49 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 87531cb..0921639 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -153,8 +153,10 @@ class RSAKey(CoseKey):
                 all(map(lambda x: len(x) != 0, [n, e, d, p, q, dp, dq, qinv])):
             is_valid_key = True
 
-        # private keys with more than two primes, everything needs to be defined
-        elif all(map(lambda x: len(x) != 0, [n, e, d, p, q, dp, dq, qinv, other, r_i, d_i, t_i])):
+        # private keys with more than two primes, everything needs to be defined (r_i, d_i and t_i are members of the
+        # maps in 'other', see section 4 of RFC 8230)
+        elif all(map(lambda x: len(x) != 0, [n, e, d, p, q, dp, dq, qinv, other])) and \
+                len({len(x) != 0 for x in [r_i, d_i, t_i]}) == 1:
             is_valid_key = True
             # TODO: verify contents of other
         else:
@@ -285,6 +287,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if type(other) is not list:
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
@@ -329,6 +371,9 @@ class RSAKey(CoseKey):
             if name in _key and len(_key[name]) > 0:
                 _key[name] = utils.truncate(_key[name])
 
+        if 'RSAKpOther' in _key:
+            _key['RSAKpOther'] = f"... ({len(_key['RSAKpOther'])} primes)"
+
         hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
-- 
2.43.0


From d1beef9a72dd360d5d05828a4ba47e979a036652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 35/59] fix: key parameters assigned through the dictionary
 interface are checked and parsed

---
 pycose/keys/cosekey.py   | 10 +++++++++-
 pycose/keys/ec2.py       |  3 +++
 pycose/keys/okp.py       |  3 +++
 pycose/keys/rsa.py       |  4 ++++
 pycose/keys/symmetric.py |  3 +++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 7b93f58..f5015fc 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -28,6 +28,9 @@ class CoseKey(MutableMapping, ABC):
 
     _key_types = {}
 
+    # key parameters whose values are checked by an attribute of the key object
+    _checked_params = {KpKty: 'kty', KpAlg: 'alg', KpKid: 'kid', KpKeyOps: 'key_ops', KpBaseIV: 'base_iv'}
+
     @classmethod
     def decode(cls, received: bytes) -> 'CK':
         """
@@ -210,7 +213,12 @@ class CoseKey(MutableMapping, ABC):
         return self.store[self._key_transform(key, allow_unknown_attrs=True)]
 
     def __setitem__(self, key, value):
-        self.store[self._key_transform(key, allow_unknown_attrs=True)] = value
+        param = self._key_transform(key, allow_unknown_attrs=True)
+
+        if param in self._checked_params:
+            setattr(self, self._checked_params[param], value)
+        else:
+            self.store[param] = value
 
     def __delitem__(self, key):
         del self.store[self._key_transform(key, allow_unknown_attrs=True)]
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 23511b0..1d69033 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -18,6 +18,9 @@ if TYPE_CHECKING:
 @CoseKey.record_kty(KtyEC2)
 class EC2Key(CoseKey):
 
+    _checked_params = {**CoseKey._checked_params,
+                       EC2KpCurve: 'crv', EC2KpX: 'x', EC2KpY: 'y', EC2KpD: 'd'}
+
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'EC2Key':
         """
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 93be00c..35bbf08 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -20,6 +20,9 @@ if TYPE_CHECKING:
 @CoseKey.record_kty(KtyOKP)
 class OKPKey(CoseKey):
 
+    _checked_params = {**CoseKey._checked_params,
+                       OKPKpCurve: 'crv', OKPKpX: 'x', OKPKpD: 'd'}
+
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'OKPKey':
         """
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 0921639..d429789 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -22,6 +22,10 @@ def to_bstr(dec):
 @CoseKey.record_kty(KtyRSA)
 class RSAKey(CoseKey):
 
+    _checked_params = {**CoseKey._checked_params,
+                       RSAKpN: 'n', RSAKpE: 'e', RSAKpD: 'd', RSAKpP: 'p', RSAKpQ: 'q', RSAKpDP: 'dp',
+                       RSAKpDQ: 'dq', RSAKpQInv: 'qinv', RSAKpOther: 'other', RSAKpRi: 'r_i', RSAKpDi: 'd_i', RSAKpTi: 't_i'}
+
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'RSAKey':
         """
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 3d2b45b..e81a980 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -15,6 +15,9 @@ if TYPE_CHECKING:
 @CoseKey.record_kty(KtySymmetric)
 class SymmetricKey(CoseKey):
 
+    _checked_params = {**CoseKey._checked_params,
+                       SymKpK: 'k'}
+
     @classmethod
     def from_dict(cls, cose_key: dict) -> 'SymmetricKey':
         """
-- 
2.43.0


From 9f492f7c682f89e21c0d15218d7ee6833fb7d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 36/59] fix: deleting X of an EC2 key without Y does not fail
 halfway

---
 pycose/keys/ec2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 1d69033..2147e92 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -300,8 +300,8 @@ class EC2Key(CoseKey):
             elif param == EC2KpX and EC2KpD not in self.store:
                 pass
             elif (param == EC2KpX or param == EC2KpY) and EC2KpD in self.store:
-                super(EC2Key, self).__delitem__(EC2KpX)
-                super(EC2Key, self).__delitem__(EC2KpY)
+                super(EC2Key, self).__delitem__(param)
+                self.store.pop(EC2KpY if param == EC2KpX else EC2KpX, None)
                 return
             else:
                 return super(EC2Key, self).__delitem__(key)
-- 
2.43.0


From aab3ad47a4ec00523d160e49c1fa94d369a77dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:56 +0000
Subject: [PATCH 37/59] fix: a list of algorithms is refused as algorithm of a
 key

---
 pycose/keys/cosekey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index f5015fc..cc18c12 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -255,6 +255,8 @@ class CoseKey(MutableMapping, ABC):
 
     @alg.setter
     def alg(self, alg: Type['CoseAlg']) -> None:
+        if isinstance(alg, list):
+            raise TypeError("alg must be a single algorithm")
         self.store[KpAlg] = CoseAlgorithm.from_id(alg)
 
     @property
-- 
2.43.0


From 59f2c8655121f209d75df4aa246709d91162284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:40 +0000
Subject: [PATCH 38/59] fix: ECDH refuses private values outside the group
 order

---
 pycose/algorithms.py  | 3 +++
 pycose/keys/curves.py | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 5872164..c1e33e2 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -325,6 +325,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         x_value = int(hexlify(public_key.x), 16)
         y_value = int(hexlify(public_key.y), 16)
 
+        if not 0 < d_value < curve.order:
+            raise CoseException("Private value is outside the group order of the curve")
+
         d = ec.derive_private_key(d_value, curve.curve_obj, backend=default_backend())
         p = ec.EllipticCurvePublicNumbers(x_value, y_value, curve.curve_obj)
         p = p.public_key(backend=default_backend())
diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index f817793..f03756e 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -3,6 +3,7 @@ from typing import Union, Type, ClassVar
 
 from cryptography.hazmat.primitives.asymmetric import ed25519, ed448, x25519, x448, ec
 from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurve
+from ecdsa.curves import NIST256p, NIST384p, NIST521p, SECP256k1
 
 from pycose.keys.keytype import KtyEC2, KtyOKP
 from pycose.utils import _CoseAttribute
@@ -18,6 +19,7 @@ class CoseCurve(_CoseAttribute, ABC):
         curve_obj: A curve object from the cryptography package.
         key_type: The key type associated with the curve.
         size: The size of the coordinates over the curve.
+        order: The order of the group of an EC2 curve.
     """
 
     _registered_curves = {}
@@ -29,6 +31,7 @@ class CoseCurve(_CoseAttribute, ABC):
     curve_obj: ClassVar[Union[EllipticCurve, Type[EdwardsPrivateKey], None]]
     key_type: ClassVar[Union[Type[KtyEC2], Type[KtyOKP], None]]
     size: ClassVar[int]
+    order: ClassVar[Union[int, None]] = None
 
 
 ##################################################
@@ -82,6 +85,7 @@ class P256(CoseCurve):
     curve_obj = ec.SECP256R1()
     key_type = KtyEC2
     size = 32
+    order = NIST256p.order
 
 
 @CoseCurve.register_attribute()
@@ -106,6 +110,7 @@ class P384(CoseCurve):
     curve_obj = ec.SECP384R1()
     key_type = KtyEC2
     size = 48
+    order = NIST384p.order
 
 
 @CoseCurve.register_attribute()
@@ -130,6 +135,7 @@ class P521(CoseCurve):
     curve_obj = ec.SECP521R1()
     key_type = KtyEC2
     size = 66
+    order = NIST521p.order
 
 
 @CoseCurve.register_attribute()
@@ -250,6 +256,7 @@ class SECP256K1(CoseCurve):
     curve_obj = ec.SECP256K1()
     key_type = KtyEC2
     size = 32
+    order = SECP256k1.order
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1c562751e915acfd2a907cf94e9a2437c67fde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 39/59] fix: ECDH refuses coordinates outside the field of the
 curve

---
 pycose/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index c1e33e2..39cd5ff 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -329,8 +329,12 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
             raise CoseException("Private value is outside the group order of the curve")
 
         d = ec.derive_private_key(d_value, curve.curve_obj, backend=default_backend())
-        p = ec.EllipticCurvePublicNumbers(x_value, y_value, curve.curve_obj)
-        p = p.public_key(backend=default_backend())
+        nums = ec.EllipticCurvePublicNumbers(x_value, y_value, curve.curve_obj)
+        p = nums.public_key(backend=default_backend())
+
+        # the backend reduces larger coordinates
+        if p.public_numbers() != nums:
+            raise CoseException("Coordinates of the public key are outside the field of the curve")
 
         shared_key = d.exchange(ECDH(), p)
         return shared_key
-- 
2.43.0


From 008d7acfe8747d652e2e4144d9ed14388992f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 40/59] fix: key material is recognised by name in any letter
 case and checked wherever it is given

---
 pycose/keys/cosekey.py | 27 +++++++++++++++------------
 pycose/keys/ec2.py     |  5 +++++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index cc18c12..5b7cda9 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -67,10 +67,9 @@ class CoseKey(MutableMapping, ABC):
             v = cose_key[parameter]
         elif parameter.identifier in cose_key:
             v = cose_key[parameter.identifier]
-        elif parameter.fullname in cose_key:
-            v = cose_key[parameter.fullname]
         else:
-            v = default
+            names = [k for k in cose_key if cls._is_name_of(k, parameter)]
+            v = cose_key[names[0]] if names else default
 
         return v
 
@@ -78,7 +77,12 @@ class CoseKey(MutableMapping, ABC):
     def _remove_from_dict(cls, cose_key: dict, parameter: Type['KP']):
         cose_key.pop(parameter, None)
         cose_key.pop(parameter.identifier, None)
-        cose_key.pop(parameter.fullname, None)
+        for name in [k for k in cose_key if cls._is_name_of(k, parameter)]:
+            cose_key.pop(name)
+
+    @staticmethod
+    def _is_name_of(key, parameter: Type['KP']) -> bool:
+        return isinstance(key, str) and key.upper() == parameter.fullname
 
     @classmethod
     def from_dict(cls, received: dict) -> 'CK':
@@ -89,16 +93,15 @@ class CoseKey(MutableMapping, ABC):
         :return: An initialized COSE Key object.
         """
 
-        if KpKty in received:
-            key_obj = cls._key_types[received[KpKty]].from_dict(received)
-        elif KpKty.identifier in received:
-            key_obj = cls._key_types[received[KpKty.identifier]].from_dict(received)
-        elif KpKty.fullname in received:
-            key_obj = cls._key_types[received[KpKty.fullname]].from_dict(received)
-        else:
+        kty = cls._extract_from_dict(received, KpKty, None)
+
+        if kty is None:
             raise CoseIllegalKeyType("Could not decode CoseKey type, KpKty not set or unknown.")
 
-        return key_obj
+        if isinstance(kty, str):
+            kty = KTY.from_id(kty)
+
+        return cls._key_types[kty].from_dict(received)
 
     @staticmethod
     def from_pem_private_key(
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 2147e92..928aa87 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -136,6 +136,11 @@ class EC2Key(CoseKey):
         if transformed_dict.get(KpKty) != KtyEC2:
             raise CoseIllegalKeyType(f"Illegal key type in EC2 COSE Key: {transformed_dict.get(KpKty)}")
 
+        # key material among the optional parameters is checked like the other key material
+        x = transformed_dict.pop(EC2KpX, b'') if type(x) is bytes and x == b'' else x
+        y = transformed_dict.pop(EC2KpY, b'') if type(y) is bytes and y == b'' else y
+        d = transformed_dict.pop(EC2KpD, b'') if type(d) is bytes and d == b'' else d
+
         super(EC2Key, self).__init__(transformed_dict)
 
         if crv is not None:
-- 
2.43.0


From cdaca04a61039570363225938ee553d6eec401d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 41/59] fix: decoded headers, signatures and authentication
 tags have the types of RFC 8152

---
 pycose/messages/cosebase.py     | 6 ++++++
 pycose/messages/mac0message.py  | 3 +++
 pycose/messages/macmessage.py   | 3 +++
 pycose/messages/sign1message.py | 2 +-
 pycose/messages/signer.py       | 3 +++
 5 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 238af1e..4d38bee 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -22,6 +22,12 @@ class CoseBase(metaclass=abc.ABCMeta):
         phdr_encoded = cose_obj.pop(0)
         uhdr = cose_obj.pop(0)
 
+        if type(phdr_encoded) is not bytes:
+            raise TypeError("encoded protected header should be of type 'bytes'")
+
+        if type(uhdr) is not dict:
+            raise TypeError("unprotected header should be of type 'dict'")
+
         return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
diff --git a/pycose/messages/mac0message.py b/pycose/messages/mac0message.py
index 383c6cd..a71a0cc 100644
--- a/pycose/messages/mac0message.py
+++ b/pycose/messages/mac0message.py
@@ -26,6 +26,9 @@ class Mac0Message(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index beb8a6c..098d3d1 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -37,6 +37,9 @@ class MacMessage(maccommon.MacCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.auth_tag = cose_obj.pop(0)
 
+        if type(msg.auth_tag) is not bytes:
+            raise TypeError("authentication tag should be of type 'bytes'")
+
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
diff --git a/pycose/messages/sign1message.py b/pycose/messages/sign1message.py
index d46448a..c6be58c 100644
--- a/pycose/messages/sign1message.py
+++ b/pycose/messages/sign1message.py
@@ -23,7 +23,7 @@ class Sign1Message(SignCommon):
     @classmethod
     def from_cose_obj(cls, cose_obj, allow_unknown_attributes: bool) -> 'Sign1Message':
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
-        msg._signature = cose_obj.pop(0)
+        msg.signature = cose_obj.pop(0)
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index 3fdca48..72c1fc7 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -19,6 +19,9 @@ class CoseSignature(SignCommon):
 
         msg: 'CoseSignature' = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
+        if msg.signature is None:
+            raise TypeError("signature should be of type 'bytes'")
+
         return msg
 
     def __init__(self,
-- 
2.43.0


From c155080d55d4437cb11dd4efbdac4b85eac50a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 42/59] fix: recipients of incompatible classes are refused
 when decoding and when encoding without recipients keys

---
 pycose/messages/encmessage.py | 2 ++
 pycose/messages/macmessage.py | 2 ++
 pycose/messages/recipient.py  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 5c4c456..dc2e52b 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -29,6 +29,7 @@ class EncMessage(enccommon.EncCommon):
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
                               in cose_obj.pop(0)]
+            CoseRecipient.verify_recipients(msg.recipients)
         return msg
 
     def __init__(self,
@@ -65,6 +66,7 @@ class EncMessage(enccommon.EncCommon):
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
         if len(self.recipients):
+            CoseRecipient.verify_recipients(self.recipients)
             message.append([r.encode(target_alg=self.get_attr(headers.Algorithm)) for r in self.recipients])
 
         res = super(EncMessage, self).encode(message, tag)
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 098d3d1..b2b0fea 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -43,6 +43,7 @@ class MacMessage(maccommon.MacCommon):
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
                               in cose_obj.pop(0)]
+            CoseRecipient.verify_recipients(msg.recipients)
 
         return msg
 
@@ -69,6 +70,7 @@ class MacMessage(maccommon.MacCommon):
             message = [self.phdr_encoded, self.uhdr_encoded, self.payload]
 
         if len(self.recipients):
+            CoseRecipient.verify_recipients(self.recipients)
             message.append([r.encode(target_alg=self.get_attr(headers.Algorithm)) for r in self.recipients])
 
         res = super(MacMessage, self).encode(message, tag)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 3a29d3e..6e1b218 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -82,6 +82,7 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         if len(cose_obj):
             msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient')
                               for r in cose_obj.pop(0)]
+            cls.verify_recipients(msg.recipients)
 
         return msg
 
-- 
2.43.0


From 9c68c6dfc5174aa5a4a37b876d541d06f34b5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 43/59] fix: a wrapping recipient whose wrapped key is nil is
 refused at decoding

---
 pycose/messages/recipient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 6e1b218..d7675ee 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -267,7 +267,7 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f"Recipient class KEY_WRAP with alg {alg} must have a zero-length protected header")
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
         return msg
@@ -497,7 +497,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.context = kwargs.get('context')
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-- 
2.43.0


From 81519818133ac7c8ba537a4b569c676dc312582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 44/59] fix: direct encryption recipients refuse algorithms of
 other recipient classes when encoding

---
 pycose/messages/recipient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index d7675ee..e883081 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -231,6 +231,9 @@ class DirectEncryption(CoseRecipient):
         if alg is None:
             raise CoseException("Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode")
 
+        if self._RCPT_CLASSES.get(alg) is not DirectEncryption:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for DIRECT_ENCRYPTION mode")
+
         if len(self.recipients):
             raise CoseException(f"Recipient class DIRECT_ENCRYPTION cannot carry recipients.")
 
-- 
2.43.0


From 59ac680c7fa69f8f7c6e171dac810d13cbf8f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 45/59] fix: direct key agreement recipients refuse algorithms
 of other recipient classes when encoding

---
 pycose/messages/recipient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index e883081..6f17158 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -417,6 +417,9 @@ class DirectKeyAgreement(CoseRecipient):
             raise CoseMalformedMessage("The algorithm parameter should be included in either the protected header or "
                                        "unprotected header")
 
+        if self._RCPT_CLASSES.get(alg) is not DirectKeyAgreement:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for DIRECT_KEY_AGREEMENT mode")
+
         # static receiver key
         peer_key: 'EC2Key' = self.local_attrs.get(headers.StaticKey)
 
-- 
2.43.0


From 03a36b21506c5493c6c355e7a9bd25c67700a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:27 +0000
Subject: [PATCH 46/59] fix: nested recipients of incompatible classes are
 refused when encoding

---
 pycose/messages/recipient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 6f17158..5897b44 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -288,6 +288,7 @@ class KeyWrap(CoseRecipient):
         recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))]
 
         if len(self.recipients):
+            self.verify_recipients(self.recipients)
             recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
 
         return recipient
@@ -533,6 +534,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                      self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]
 
         if len(self.recipients):
+            self.verify_recipients(self.recipients)
             recipient.append([r.encode(*args, **kwargs) for r in self.recipients])
 
         return recipient
-- 
2.43.0


From 57623e69e252c3df9daa7897a805cfed9dfcdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 47/59] fix: certificates carrying the copied signature value
 of a trusted root are not trusted

---
 pycose/extensions/x509.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 6087248..affce8b 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -2,6 +2,8 @@ from typing import List, Set, Union, Type
 
 import cbor2
 from certvalidator import CertificateValidator
+from certvalidator.errors import PathValidationError
+from oscrypto import trust_list
 
 from pycose.algorithms import CoseAlg, CoseAlgorithm
 
@@ -81,7 +83,13 @@ class X5Chain:
             end_entity_cert=cert_chain[0],
             intermediate_certs=cert_chain[1:],
         )
-        return val.validate_usage(key_usage)
+        path = val.validate_usage(key_usage)
+
+        # certvalidator recognises the trust anchor by its signature value only, which anybody can copy
+        if path.first.dump() not in {root.dump() for root, _, _ in trust_list.get_list()}:
+            raise PathValidationError("The certificate chain does not end at a trusted root")
+
+        return path
 
     def encode(self) -> Union[bytes, List[bytes]]:
         return self.cert_chain
-- 
2.43.0


From 843bc8bde6f7cdb0fc71bcde140c4c1fcf6bd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 48/59] fix: repr of a key with custom parameters named like
 registered ones

---
 pycose/keys/cosekey.py   | 4 ++--
 pycose/keys/ec2.py       | 6 +++---
 pycose/keys/okp.py       | 6 +++---
 pycose/keys/rsa.py       | 4 ++--
 pycose/keys/symmetric.py | 2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pycose/keys/cosekey.py b/pycose/keys/cosekey.py
index 5b7cda9..0167df1 100644
--- a/pycose/keys/cosekey.py
+++ b/pycose/keys/cosekey.py
@@ -333,11 +333,11 @@ class CoseKey(MutableMapping, ABC):
                 self.store[kp].__name__ if hasattr(self.store[kp], '__name__') else self.store[kp] for kp
             in sorted(self.store, key=lambda item: item.identifier if hasattr(item, 'identifier') else 65536)}
 
-        if KpKeyOps.__name__ in names:
+        if isinstance(names.get(KpKeyOps.__name__), list):
             names[KpKeyOps.__name__] = [ops.__name__ if hasattr(ops, '__name__') else ops for ops in
                                         names[KpKeyOps.__name__]]
 
-        if 'BASE_IV' in names and len(names['BASE_IV']) > 0:
+        if isinstance(names.get('BASE_IV'), bytes) and len(names['BASE_IV']) > 0:
             names['BASE_IV'] = utils.truncate(names['BASE_IV'])
 
         return names
diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 928aa87..21da847 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -316,11 +316,11 @@ class EC2Key(CoseKey):
     def __repr__(self):
         _key = self._key_repr()
 
-        if 'EC2KpD' in _key and len(_key['EC2KpD']) > 0:
+        if isinstance(_key.get('EC2KpD'), bytes) and len(_key['EC2KpD']) > 0:
             _key['EC2KpD'] = utils.truncate(_key['EC2KpD'])
-        if 'EC2KpX' in _key and len(_key['EC2KpX']) > 0:
+        if isinstance(_key.get('EC2KpX'), bytes) and len(_key['EC2KpX']) > 0:
             _key['EC2KpX'] = utils.truncate(_key['EC2KpX'])
-        if 'EC2KpY' in _key and len(_key['EC2KpY']) > 0:
+        if isinstance(_key.get('EC2KpY'), bytes) and len(_key['EC2KpY']) > 0:
             _key['EC2KpY'] = utils.truncate(_key['EC2KpY'])
 
         hdr = f'<COSE_Key(EC2Key): {_key}>'
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 35bbf08..8d687e5 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -261,11 +261,11 @@ class OKPKey(CoseKey):
     def __repr__(self):
         _key = self._key_repr()
 
-        if 'OKPKpD' in _key and len(_key['OKPKpD']) > 0:
+        if isinstance(_key.get('OKPKpD'), bytes) and len(_key['OKPKpD']) > 0:
             _key['OKPKpD'] = utils.truncate(_key['OKPKpD'])
-        if 'OKPKpX' in _key and len(_key['OKPKpX']) > 0:
+        if isinstance(_key.get('OKPKpX'), bytes) and len(_key['OKPKpX']) > 0:
             _key['OKPKpX'] = utils.truncate(_key['OKPKpX'])
-        if 'OKPKpY' in _key and len(_key['OKPKpY']) > 0:
+        if isinstance(_key.get('OKPKpY'), bytes) and len(_key['OKPKpY']) > 0:
             _key['OKPKpY'] = utils.truncate(_key['OKPKpY'])
 
         hdr = f'<COSE_Key(OKPKey): {_key}>'
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index d429789..755f95c 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -372,10 +372,10 @@ class RSAKey(CoseKey):
 
         for name in ('RSAKpN', 'RSAKpE', 'RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpRi',
                      'RSAKpDi', 'RSAKpTi'):
-            if name in _key and len(_key[name]) > 0:
+            if isinstance(_key.get(name), bytes) and len(_key[name]) > 0:
                 _key[name] = utils.truncate(_key[name])
 
-        if 'RSAKpOther' in _key:
+        if isinstance(_key.get('RSAKpOther'), list):
             _key['RSAKpOther'] = f"... ({len(_key['RSAKpOther'])} primes)"
 
         hdr = f'<COSE_Key(RSAKey): {_key}>'
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index e81a980..45314a7 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -134,7 +134,7 @@ class SymmetricKey(CoseKey):
     def __repr__(self):
         _key = self._key_repr()
 
-        if 'SymKpK' in _key and len(_key['SymKpK']) > 0:
+        if isinstance(_key.get('SymKpK'), bytes) and len(_key['SymKpK']) > 0:
             _key['SymKpK'] = utils.truncate(_key['SymKpK'])
 
         hdr = f'<COSE_Key(Symmetric): {_key}>'
-- 
2.43.0


From 5b3ed3ccba622325f0fc23c3b35f46a0415afb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 49/59] fix: header lookups of nil values

---
 pycose/messages/cosebase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 4d38bee..eb195ad 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -78,12 +78,12 @@ class CoseBase(metaclass=abc.ABCMeta):
         p_attr = self._phdr.get(attribute)
         u_attr = self._uhdr.get(attribute)
 
-        if p_attr is not None and u_attr is not None:
+        if attribute in self._phdr and attribute in self._uhdr:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
-        if p_attr is not None:
+        if attribute in self._phdr:
             return p_attr
-        elif u_attr is not None:
+        elif attribute in self._uhdr:
             return u_attr
         else:
             return default
-- 
2.43.0


From 5f0d89cb7aa0260749752058dbd51ee3203fade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 50/59] fix: booleans are not identifiers of attributes

---
 pycose/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 33f2bba..332f38d 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -27,7 +27,7 @@ class _CoseAttribute(ABC):
 
     @classmethod
     def from_id(cls, attribute: Any, allow_unknown_attributes: bool = False) -> Any:
-        if isinstance(attribute, int) and attribute in cls.get_registered_classes():
+        if isinstance(attribute, int) and not isinstance(attribute, bool) and attribute in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute]
         elif isinstance(attribute, str) and attribute.upper() in cls.get_registered_classes():
             return cls.get_registered_classes()[attribute.upper()]
-- 
2.43.0


From 47b02a3124202aed5d158c496f2b121647794534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 51/59] fix: a refused ephemeral key setup does not leave a key
 behind

---
 pycose/messages/recipient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 5897b44..7d732ba 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -180,12 +180,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
 
     def _setup_ephemeral_key(self, peer_key, optional_params: dict = None):
-        self.key = EC2Key.generate_key(peer_key.crv, optional_params)
-
         if self.get_attr(headers.EphemeralKey) is not None:
-            # public key was already set in the header bucket but we just generated a new ephemeral key.
+            # public key was already set in the header bucket but we need to generate a new ephemeral key.
             raise CoseException('Unrelated ephemeral public key found in COSE message header')
         else:
+            self.key = EC2Key.generate_key(peer_key.crv, optional_params)
+
             # strip private bytes from key
             ephemeral_public_key = dict(self.key)
             del ephemeral_public_key[EC2KpD]
-- 
2.43.0


From 5b0bc2418ad34ae3ee2615c8844026421787c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 52/59] fix: ephemeral key agreement with key wrap does not
 encode without the ephemeral key

---
 pycose/messages/recipient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 7d732ba..7998342 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -566,6 +566,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        if self.get_attr(headers.EphemeralKey) is None and alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW}:
+            raise CoseMalformedMessage('Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry an ephemeral COSE key object')
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 1438f1b25f33991c49c192a913c229e86d7397f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 53/59] fix: text labels in received headers are not names of
 registered parameters

---
 pycose/messages/cosebase.py  | 18 +++++++++++++-----
 pycose/messages/recipient.py |  4 ++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index eb195ad..1152c4b 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -28,7 +28,7 @@ class CoseBase(metaclass=abc.ABCMeta):
         if type(uhdr) is not dict:
             raise TypeError("unprotected header should be of type 'dict'")
 
-        return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes)
+        return cls(phdr_encoded=phdr_encoded, uhdr=uhdr, allow_unknown_attributes=allow_unknown_attributes, received=True)
 
     def __init__(self, phdr: Optional[dict] = None, uhdr: Optional[dict] = None, payload: Optional[bytes] = None, phdr_encoded: Optional[bytes] = None, *args, **kwargs):
         if phdr is not None and phdr_encoded is not None:
@@ -56,8 +56,10 @@ class CoseBase(metaclass=abc.ABCMeta):
         self.alg_tstr_encoding = kwargs.get("alg_tstr_encoding", False)
 
         self._phdr_encoded = phdr_encoded
-        self._phdr = CoseBase._parse_header(phdr, kwargs.get("allow_unknown_attributes", True))
-        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get("allow_unknown_attributes", True))
+        self._phdr = CoseBase._parse_header(
+            phdr, kwargs.get("allow_unknown_attributes", True), received=phdr_encoded is not None)
+        self._uhdr = CoseBase._parse_header(
+            uhdr, kwargs.get("allow_unknown_attributes", True), received=kwargs.get("received", False))
 
         # can be plaintext or ciphertext
         if payload is not None and type(payload) is not bytes:
@@ -180,10 +182,16 @@ class CoseBase(metaclass=abc.ABCMeta):
             return deepcopy(value)
 
     @classmethod
-    def _parse_header(cls, hdr, allow_unknown_attributes: bool) -> dict:
+    def _parse_header(cls, hdr, allow_unknown_attributes: bool, received: bool = False) -> dict:
         decoded_hdr = {}
         for k, v in hdr.items():
-            attr = CoseHeaderAttribute.from_id(k, allow_unknown_attributes)
+            if received and isinstance(k, str):
+                # the names of the registered parameters are no labels, text labels in a COSE header are other parameters
+                if not allow_unknown_attributes:
+                    raise CoseException(f"Unknown COSE header parameter: {k}")
+                attr = k
+            else:
+                attr = CoseHeaderAttribute.from_id(k, allow_unknown_attributes)
 
             if hasattr(attr, 'value_parser'):
                 decoded_hdr[attr] = attr.value_parser(v)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 7998342..5cfbbbd 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -62,11 +62,11 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
     @classmethod
     def create_recipient(cls, recipient: list, allow_unknown_attributes: bool, context: str):
         if recipient[0] != b'':
-            p_alg = cls._parse_header(cbor2.loads(recipient[0]), allow_unknown_attributes).get(headers.Algorithm)
+            p_alg = cls._parse_header(cbor2.loads(recipient[0]), allow_unknown_attributes, received=True).get(headers.Algorithm)
         else:
             p_alg = None
 
-        u_alg = cls._parse_header(recipient[1], allow_unknown_attributes).get(headers.Algorithm)
+        u_alg = cls._parse_header(recipient[1], allow_unknown_attributes, received=True).get(headers.Algorithm)
 
         if p_alg is not None:
             return cls._RCPT_CLASSES[p_alg].from_cose_obj(recipient, allow_unknown_attributes, context=context)
-- 
2.43.0


From 71862f89b4eb9d3526057212d7e38103459dbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 54/59] fix: printing a message with a custom label named IV or
 PARTIAL_IV does not fail

---
 pycose/messages/cosebase.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index 1152c4b..f4319b3 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -7,7 +7,7 @@ import cbor2
 from pycose import utils
 from pycose.algorithms import CoseAlgorithm
 from pycose.exceptions import CoseException
-from pycose.headers import CoseHeaderAttribute, Algorithm
+from pycose.headers import CoseHeaderAttribute, Algorithm, IV, PartialIV
 from pycose.keys.cosekey import CoseKey
 from pycose.keys.cosekey import KpKeyOps
 
@@ -207,17 +207,11 @@ class CoseBase(metaclass=abc.ABCMeta):
         uhdr = {(k.__name__ if hasattr(k, '__name__') else k): (
             self._uhdr[k].__name__ if hasattr(self._uhdr[k], '__name__') else self._uhdr[k]) for k in self._uhdr}
 
-        if 'IV' in phdr and len(phdr['IV']) > 0:
-            phdr['IV'] = utils.truncate(phdr['IV'])
-
-        if 'IV' in uhdr and len(uhdr['IV']) > 0:
-            uhdr['IV'] = utils.truncate(uhdr['IV'])
-
-        if 'PARTIAL_IV' in phdr and len(phdr['PARTIAL_IV']) > 0:
-            phdr['PARTIAL_IV'] = utils.truncate(phdr['PARTIAL_IV'])
-
-        if 'PARTIAL_IV' in uhdr and len(uhdr['PARTIAL_IV']) > 0:
-            uhdr['PARTIAL_IV'] = utils.truncate(uhdr['PARTIAL_IV'])
+        # custom labels can have these names too, with values of any type
+        for hdr, text in ((self._phdr, phdr), (self._uhdr, uhdr)):
+            for attr in (IV, PartialIV):
+                if attr in hdr and isinstance(hdr[attr], bytes) and len(hdr[attr]) > 0:
+                    text[attr.__name__] = utils.truncate(hdr[attr])
 
         return phdr, uhdr
 
-- 
2.43.0


From 79b82495067f154aa19cafb252fd0b650fecef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 55/59] fix: booleans are no content types and no critical
 header labels

---
 pycose/headers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/headers.py b/pycose/headers.py
index 692742b..d98b6a6 100644
--- a/pycose/headers.py
+++ b/pycose/headers.py
@@ -179,6 +179,10 @@ def crit_is_array(value: Any):
     if not isinstance(value, list) or len(value) < 1 or not all(isinstance(x, (int, str)) for x in value):
         raise ValueError("CRITICAL should be a list with at least one integer or string element")
 
+    # booleans are integers in Python but not in CBOR
+    if any(isinstance(x, bool) for x in value):
+        raise ValueError("CRITICAL should be a list with at least one integer or string element")
+
     return value
 
 
@@ -187,6 +191,9 @@ def content_type_is_uint_or_tstr(value: Any):
             True if isinstance(value, int) and value < 0 else False):
         raise ValueError("CONTENT TYPE should be an unsigned integer or string")
 
+    if isinstance(value, bool):
+        raise ValueError("CONTENT TYPE should be an unsigned integer or string")
+
     return value
 
 
-- 
2.43.0


From cbc292dd7256d629901aa761d3c0037d60a93004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 56/59] fix: a list of algorithms is refused as algorithm
 header

---
 pycose/algorithms.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 39cd5ff..1f929bb 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -1,7 +1,7 @@
 from abc import ABC, abstractmethod
 from binascii import hexlify, unhexlify
 from hashlib import sha512, sha384, sha256
-from typing import TYPE_CHECKING, Optional, TypeVar
+from typing import TYPE_CHECKING, Any, Optional, TypeVar
 
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.backends import default_backend
@@ -1469,8 +1469,16 @@ class AESCCM64128256(_AesCcm):
         return 32
 
 
+def is_single_algorithm(value: Any):
+    # from_id translates lists as well
+    if isinstance(value, list):
+        raise CoseException(f"ALG should be a single algorithm: {value}")
+
+    return CoseAlgorithm.from_id(value)
+
+
 # set parser
-Algorithm.value_parser = CoseAlgorithm.from_id
+Algorithm.value_parser = is_single_algorithm
 
 CoseAlg = TypeVar('CoseAlg', bound=CoseAlgorithm)
 
-- 
2.43.0


From ba546121e7e3854f3913611e18cdabf56217c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 57/59] fix: a list of algorithms is refused as algorithm of a
 constructed key

---
 pycose/keys/keyparam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/keyparam.py b/pycose/keys/keyparam.py
index bc4ade5..30c0848 100644
--- a/pycose/keys/keyparam.py
+++ b/pycose/keys/keyparam.py
@@ -2,7 +2,7 @@ import pprint
 from abc import ABC
 from typing import TypeVar, Union, Type
 
-from pycose.algorithms import CoseAlgorithm
+from pycose.algorithms import is_single_algorithm
 from pycose.keys.curves import CoseCurve
 from pycose.keys.keyops import KeyOps
 from pycose.keys.keytype import KTY
@@ -225,7 +225,7 @@ class SymKpK(SymmetricKeyParam):
 
 KpKty.value_parser = KTY.from_id
 KpKeyOps.value_parser = KeyOps.from_id
-KpAlg.value_parser = CoseAlgorithm.from_id
+KpAlg.value_parser = is_single_algorithm
 OKPKpCurve.value_parser = CoseCurve.from_id
 EC2KpCurve.value_parser = CoseCurve.from_id
 
-- 
2.43.0


From 893ea7bbe1ea896deab24b5141c2b064c6866c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 58/59] fix: key ids and base IVs of constructed keys are byte
 strings

---
 pycose/keys/keyparam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/keys/keyparam.py b/pycose/keys/keyparam.py
index 30c0848..65ce907 100644
--- a/pycose/keys/keyparam.py
+++ b/pycose/keys/keyparam.py
@@ -3,6 +3,7 @@ from abc import ABC
 from typing import TypeVar, Union, Type
 
 from pycose.algorithms import is_single_algorithm
+from pycose.headers import is_bstr
 from pycose.keys.curves import CoseCurve
 from pycose.keys.keyops import KeyOps
 from pycose.keys.keytype import KTY
@@ -226,6 +227,8 @@ class SymKpK(SymmetricKeyParam):
 KpKty.value_parser = KTY.from_id
 KpKeyOps.value_parser = KeyOps.from_id
 KpAlg.value_parser = is_single_algorithm
+KpKid.value_parser = is_bstr
+KpBaseIV.value_parser = is_bstr
 OKPKpCurve.value_parser = CoseCurve.from_id
 EC2KpCurve.value_parser = CoseCurve.from_id
 
-- 
2.43.0


From 1aaadd490029475a938c9fd5152d55b11473abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 59/59] fix: an RSA signature without its leading zeros does
 not verify

---
 pycose/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 1f929bb..0c7002a 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -115,6 +115,10 @@ class _Rsa(CoseAlgorithm, ABC):
         public_nums = rsa.RSAPublicNumbers(e=int.from_bytes(key.e, 'big'), n=int.from_bytes(key.n, 'big'))
         pk = public_nums.public_key(backend=default_backend())
 
+        # a signature is as long as the modulus, the backend accepts PSS signatures without their leading zeros
+        if len(signature) != (pk.key_size + 7) // 8:
+            return False
+
         try:
             pk.verify(signature, data, pad, hash_cls())
             return True
-- 
2.43.0

