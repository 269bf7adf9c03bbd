From 52bd850415c9568d87644f2fe8cc8ff69a1e1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 01/35] fix: COSE_Signature Sig_structure always carries the
 signer's protected header

RFC 8152 4.4: sign_protected is present even when empty (zero-length bstr), and
an empty body protected header is the zero-length bstr as well.
---
 pycose/messages/signer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/signer.py b/pycose/messages/signer.py
index a186388..5217814 100644
--- a/pycose/messages/signer.py
+++ b/pycose/messages/signer.py
@@ -50,12 +50,16 @@ class CoseSignature(SignCommon):
         self._payload = value
 
     def _create_sig_structure(self, detached_payload: Optional[bytes] = None):
-        sign_structure = [self._parent.context, self._parent.phdr_encoded]
+        sign_structure = [self._parent.context]
 
-        if len(self.phdr):
-            sign_structure.append(self.phdr_encoded)
+        # body_protected: an empty protected header is always the zero-length byte string
+        if len(self._parent.phdr):
+            sign_structure.append(self._parent.phdr_encoded)
+        else:
+            sign_structure.append(b'')
 
-        sign_structure.append(self.external_aad)
+        # sign_protected (never omitted) and external_aad
+        sign_structure = self._base_structure(sign_structure)
 
         if detached_payload is None:
             if self._parent.payload is None:
-- 
2.43.0


From bf944aebc0505aad62de82d2ff576f5f0092442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 02/35] fix: get_attr with a default no longer reports an
 absent attribute as malformed

---
 pycose/messages/cosebase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/cosebase.py b/pycose/messages/cosebase.py
index d5b5754..799657d 100644
--- a/pycose/messages/cosebase.py
+++ b/pycose/messages/cosebase.py
@@ -69,16 +69,18 @@ class CoseBase(metaclass=abc.ABCMeta):
         :returns: If found returns a header attribute else 'None' or the default value
         """
 
-        p_attr = self._phdr.get(attribute, default)
-        u_attr = self._uhdr.get(attribute, default)
+        p_attr = self._phdr.get(attribute)
+        u_attr = self._uhdr.get(attribute)
 
         if p_attr is not None and u_attr is not None:
             raise CoseException("MALFORMED: different values for the same header parameters in the header buckets")
 
         if p_attr is not None:
             return p_attr
-        else:
+        elif u_attr is not None:
             return u_attr
+        else:
+            return default
 
     @property
     def phdr(self) -> dict:
-- 
2.43.0


From bb048b2fa7296cf1df2b77e820687e39f561ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 03/35] fix: assigning recipients replaces the recipient list
 instead of appending to it

---
 pycose/messages/encmessage.py | 4 +++-
 pycose/messages/recipient.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index cc43e07..2069c56 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -132,10 +132,12 @@ class EncMessage(enccommon.EncCommon):
         if recipients is None:
             self._recipients = []
         else:
+            new_recipients = []
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+                new_recipients.append(r)
+            self._recipients = new_recipients
 
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 69ab52a..882ed95 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -142,10 +142,12 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         if recipients is None:
             self._recipients = []
         else:
+            new_recipients = []
             for r in recipients:
                 if not issubclass(type(r), CoseRecipient):
                     raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
-                self._recipients.append(r)
+                new_recipients.append(r)
+            self._recipients = new_recipients
 
     def get_kdf_context(self, algorithm: '_EncAlg') -> 'CoseKDFContext':
         """
-- 
2.43.0


From 6a0e9059e16743cda145f1e45d071fbbb046e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 04/35] fix: MacMessage without recipients carries an empty
 recipient list and checks recipient types

---
 pycose/messages/macmessage.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 94befe8..6e651f6 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -102,6 +102,23 @@ class MacMessage(maccommon.MacCommon):
 
         return payload
 
+    @property
+    def recipients(self) -> List[CoseRecipient]:
+        return self._recipients
+
+    @recipients.setter
+    def recipients(self, recipients: Optional[List[CoseRecipient]]) -> None:
+
+        if recipients is None:
+            self._recipients = []
+        else:
+            new_recipients = []
+            for r in recipients:
+                if not issubclass(type(r), CoseRecipient):
+                    raise TypeError(f"Recipient must be a subclass of {CoseRecipient}")
+                new_recipients.append(r)
+            self._recipients = new_recipients
+
     def __repr__(self) -> str:
         phdr, uhdr = self._hdr_repr()
 
-- 
2.43.0


From 62485d775b705edcbf81ee708e60735366ddde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 05/35] fix: a malformed recipient is reported instead of
 silently dropping all recipients

---
 pycose/messages/encmessage.py | 11 +++++++----
 pycose/messages/macmessage.py | 10 ++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 2069c56..08c879a 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -27,10 +27,13 @@ class EncMessage(enccommon.EncCommon):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
 
         try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = []
+            recipients = cose_obj.pop(0)
+        except IndexError:
+            recipients = []
+
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Enc_Recipient') for r
+                          in recipients]
+
         return msg
 
     def __init__(self,
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 6e651f6..16ce296 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -36,10 +36,12 @@ class MacMessage(maccommon.MacCommon):
         msg.auth_tag = cose_obj.pop(0)
 
         try:
-            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
-                              in cose_obj.pop(0)]
-        except (IndexError, ValueError):
-            msg.recipients = None
+            recipients = cose_obj.pop(0)
+        except IndexError:
+            recipients = []
+
+        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Mac_Recipient') for r
+                          in recipients]
 
         return msg
 
-- 
2.43.0


From f6f90744e99e7b7023d38988ebc71927869d0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 06/35] fix: a nonce built from a partial IV keeps the length
 of the base IV; a missing partial IV is refused

---
 pycose/messages/enccommon.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/enccommon.py b/pycose/messages/enccommon.py
index f399270..f2973f0 100644
--- a/pycose/messages/enccommon.py
+++ b/pycose/messages/enccommon.py
@@ -39,12 +39,13 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
         :returns: plaintext as bytes
         """
 
-        alg = self.get_attr(headers.Algorithm)
-        nonce = self._get_nonce()
-
+        # first check if key is set (since a part of the nonce can be stored in the key)
         if self.key is None:
             raise CoseException("Key cannot be None")
 
+        alg = self.get_attr(headers.Algorithm)
+        nonce = self._get_nonce()
+
         self.key.verify(SymmetricKey, alg, [DecryptOp])
 
         return alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)
@@ -83,8 +84,15 @@ class EncCommon(CoseMessage, metaclass=abc.ABCMeta):
 
         if nonce is None and self.key.base_iv != b'':
             partial_iv = self.get_attr(headers.PartialIV)
+
+            if partial_iv is None:
+                raise CoseException('No IV found')
+            if len(partial_iv) > len(self.key.base_iv):
+                raise CoseException('Partial IV is longer than the base IV')
+
             nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")
-            nonce = nonce.to_bytes((nonce.bit_length() + 7) // 8, byteorder="big")
+            # the partial IV is left-padded to the length of the base IV, which is the length of the nonce
+            nonce = nonce.to_bytes(len(self.key.base_iv), byteorder="big")
 
         if nonce is None and self.key.base_iv == b'':
             raise CoseException('No IV found')
-- 
2.43.0


From b605ce998a403131c968bb64d155da06e18d7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 07/35] fix: OKPKey refuses to delete its only key value

---
 pycose/keys/okp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 7950ef0..78d44ef 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -246,7 +246,7 @@ class OKPKey(CoseKey):
         if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
             if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
                 pass
-            if self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
-- 
2.43.0


From d697c101b00ad105b319d05084e4f7120743abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 08/35] fix: RSAKey refuses deletions that leave an invalid key

---
 pycose/keys/rsa.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index c2d7b45..bdadb44 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -314,6 +314,15 @@ class RSAKey(CoseKey):
 
         return cls._from_cryptography_key(ext_key, optional_params)
 
+    def __delitem__(self, key: Union['KeyParam', str, int]):
+        mandatory = {KpKty, RSAKpN, RSAKpE, RSAKpD, RSAKpP, RSAKpQ, RSAKpDP, RSAKpDQ, RSAKpQInv, RSAKpOther,
+                     RSAKpRi, RSAKpDi, RSAKpTi}
+
+        if self._key_transform(key, allow_unknown_attrs=True) in mandatory:
+            raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalid COSE RSA Key")
+
+        return super(RSAKey, self).__delitem__(key)
+
     def __repr__(self):
         hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
         return hdr
-- 
2.43.0


From f79462b05c30feef10089443dfd3a8d01d889c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 09/35] fix: repr of an RSAKey no longer prints the private key
 parameters in full

---
 pycose/keys/rsa.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index bdadb44..e37aca5 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -3,6 +3,7 @@ from typing import List, TYPE_CHECKING, Optional, Type, Union
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import rsa
 
+from pycose import utils
 from pycose.exceptions import CoseInvalidKey, CoseIllegalKeyType, CoseIllegalKeyOps
 from pycose.keys.cosekey import CoseKey, KpKty
 from pycose.keys.keyparam import (RSAKeyParam, RSAKpN, RSAKpE, RSAKpD, RSAKpP,
@@ -324,7 +325,17 @@ class RSAKey(CoseKey):
         return super(RSAKey, self).__delitem__(key)
 
     def __repr__(self):
-        hdr = f'<COSE_Key(RSAKey): {self._key_repr()}>'
+        _key = self._key_repr()
+
+        for param in ['RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpRi', 'RSAKpDi', 'RSAKpTi']:
+            if param in _key and len(_key[param]) > 0:
+                _key[param] = utils.truncate(_key[param])
+
+        # list of further primes, consists of private values only
+        if 'RSAKpOther' in _key:
+            _key['RSAKpOther'] = '...'
+
+        hdr = f'<COSE_Key(RSAKey): {_key}>'
         return hdr
 
 
-- 
2.43.0


From 011e1bb675016502e95cd4e75dfdcaa7801695b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 10/35] fix: KDF contexts no longer share one mutable default
 PartyInfo

---
 pycose/messages/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index d21e4b4..88daa36 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -64,8 +64,8 @@ class SuppPubInfo:
 class CoseKDFContext:
     algorithm: '_EncAlg' = attr.ib()
     supp_pub_info: SuppPubInfo = attr.ib()
-    party_u_info: PartyInfo = attr.ib(default=PartyInfo())
-    party_v_info: PartyInfo = attr.ib(default=PartyInfo())
+    party_u_info: PartyInfo = attr.ib(factory=PartyInfo)
+    party_v_info: PartyInfo = attr.ib(factory=PartyInfo)
     supp_priv_info: bytes = attr.ib(default=b'')
 
     def encode(self) -> CBOR:
-- 
2.43.0


From 9ecb829da5990805113a32b362acecb6ded408cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 11/35] fix: SuppPubInfo validates the key length at
 construction

---
 pycose/messages/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 88daa36..59bac76 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -42,7 +42,7 @@ class SuppPubInfo:
         else:
             raise ValueError(f"Not a valid key length: {new_length}")
 
-    def __attrs_post__init__(self):
+    def __attrs_post_init__(self):
         if self._key_data_length not in [16, 24, 32]:
             raise ValueError(f"Not a valid key length: {self._key_data_length}")
 
-- 
2.43.0


From ab3bce93a58e7bbbb713bbd975e370fbd3a0304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 12/35] fix: SHAKE128 and SHAKE256 hashes can be computed

---
 pycose/algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8a2b4c0..8001f8f 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -46,11 +46,16 @@ class CoseAlgorithm(_CoseAttribute, ABC):
 class _HashAlg(CoseAlgorithm, ABC):
     #: Set in derived class to hash constructor
     hash_cls = None
+    #: Set in derived class to the output size in bytes when the hash is an extendable-output function
+    digest_size: Optional[int] = None
     #: Set in derived class to optional truncation size in byte count
     trunc_size: Optional[int] = None
 
     @classmethod
     def get_hash_func(cls) -> HashAlgorithm:
+        # extendable-output functions need the size of the digest
+        if cls.digest_size is not None:
+            return cls.hash_cls(cls.digest_size)
         return cls.hash_cls()
 
     @classmethod
@@ -434,6 +439,7 @@ class Shake256(_HashAlg):
     identifier = -45
     fullname = "SHAKE-256"
     hash_cls = SHAKE256
+    digest_size = 64
 
 
 @CoseAlgorithm.register_attribute()
@@ -874,6 +880,7 @@ class Shake128(_HashAlg):
     identifier = -18
     fullname = "SHAKE-128"
     hash_cls = SHAKE128
+    digest_size = 32
 
 
 @CoseAlgorithm.register_attribute()
-- 
2.43.0


From 833e8aaacc8aad13541dc5d2dac6c528493263bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 13/35] fix: unsupported recipient algorithms are reported
 instead of failing on a missing attribute

---
 pycose/messages/recipient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 882ed95..e50cc95 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -345,7 +345,7 @@ class KeyWrap(CoseRecipient):
             kek = self.key
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__class__.__name__}")
 
         return alg.key_wrap(kek, self.payload)
 
@@ -449,7 +449,7 @@ class DirectKeyAgreement(CoseRecipient):
                 else:
                     peer_key = self.get_attr(headers.EphemeralKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
 
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
@@ -557,7 +557,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         elif alg in {EcdhSsA256KW, EcdhSsA192KW, EcdhSsA128KW}:
             peer_key = self.get_attr(headers.StaticKey)
         else:
-            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__name__}")
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
 
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
-- 
2.43.0


From 4de6b9e4908c37c4c1d84dc5cba256b2129249f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 14/35] fix: COSE_Mac messages can be created with wrapped or
 agreed keys

---
 pycose/algorithms.py          | 5 +++++
 pycose/messages/macmessage.py | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 8001f8f..c092722 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -247,6 +247,11 @@ class _HMAC(CoseAlgorithm, ABC):
     def get_hash_func(cls) -> HashAlgorithm:
         raise NotImplementedError()
 
+    @classmethod
+    def get_key_length(cls) -> int:
+        """ Returns the length of a generated key, which is the length of the hash output """
+        return cls.get_hash_func().digest_size
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
         h = HMAC(key.k, cls.get_hash_func(), backend=default_backend())
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index 16ce296..a5a5a87 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -15,12 +15,14 @@ from typing import Optional, List, TYPE_CHECKING
 from pycose import utils, headers
 from pycose.exceptions import CoseException
 from pycose.keys.keyops import MacCreateOp
+from pycose.keys.keyparam import KpAlg, KpKeyOps
+from pycose.keys.symmetric import SymmetricKey
 from pycose.messages import cosemessage, maccommon
 from pycose.messages.recipient import CoseRecipient, DirectEncryption, DirectKeyAgreement, KeyWrap, \
     KeyAgreementWithKeyWrap
 
 if TYPE_CHECKING:
-    from pycose.keys.symmetric import SK, SymmetricKey
+    from pycose.keys.symmetric import SK
 
 CBOR = bytes
 
@@ -96,7 +98,7 @@ class MacMessage(maccommon.MacCommon):
                 else:
                     key_bytes = r.payload
                 r.encrypt(target_algorithm)
-            self.key = SymmetricKey(k=key_bytes, alg=target_algorithm, key_ops=[MacCreateOp])
+            self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
 
         else:
-- 
2.43.0


From fd4788ae883936c1e04e278d445f050a3a822cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 15/35] fix: a nested recipient is found irrespective of the
 recipients after it

---
 pycose/messages/recipient.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index e50cc95..7ebaf8f 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -82,9 +82,8 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         for r in recipients:
             if target is r:
                 return True
-            else:
-                if len(r.recipients):
-                    found = r.has_recipient(target, r.recipients)
+            elif len(r.recipients):
+                found = found or r.has_recipient(target, r.recipients)
 
         return found
 
-- 
2.43.0


From c7732c8c87404cbdc0b8bac77edc367af31613e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 16/35] fix: X448 keys are 56 bytes long

---
 pycose/keys/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/keys/curves.py b/pycose/keys/curves.py
index 056ecea..f817793 100644
--- a/pycose/keys/curves.py
+++ b/pycose/keys/curves.py
@@ -170,14 +170,14 @@ class X448(CoseCurve):
 
         **key_type**       *KtyOKP*
 
-        **size**           *57*
+        **size**           *56*
     """
 
     identifier = 5
     fullname = "X448"
     curve_obj = x448.X448PrivateKey
     key_type = KtyOKP
-    size = 57
+    size = 56
 
 
 @CoseCurve.register_attribute()
-- 
2.43.0


From 42e78ca5526748a6d377400250731aa0717d05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 17/35] fix: EC2Key consistency checks do not depend on
 assertions being enabled

---
 pycose/keys/ec2.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 57fcd4c..13f8a98 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -151,12 +151,14 @@ class EC2Key(CoseKey):
                                                 curve=self.crv.curve_obj,
                                                 backend=default_backend()).public_key().public_numbers()
             if x:
-                assert x == public_nums.x.to_bytes(self.crv.size, 'big')
+                if x != public_nums.x.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("Public coordinate X does not belong to the private value")
             else:
                 x = public_nums.x.to_bytes(self.crv.size, 'big')
 
             if y:
-                assert y == public_nums.y.to_bytes(self.crv.size, 'big')
+                if y != public_nums.y.to_bytes(self.crv.size, 'big'):
+                    raise CoseInvalidKey("Public coordinate Y does not belong to the private value")
             else:
                 y = public_nums.y.to_bytes(self.crv.size, 'big')
 
@@ -170,7 +172,8 @@ class EC2Key(CoseKey):
             # Just to check the endianness of the conversions -- if we get the
             # right X back out, then the X and Y are consistent, and anyway the
             # crypto backend will check whether the point is on the curve
-            assert x == key.public_numbers().x.to_bytes(self.crv.size, 'big')
+            if x != key.public_numbers().x.to_bytes(self.crv.size, 'big'):
+                raise CoseInvalidKey("Public coordinate X is not valid on the curve")
             y = key.public_numbers().y.to_bytes(self.crv.size, 'big')
 
         if x != b'':
-- 
2.43.0


From d442f21cc4992ef088a1bdc4b7dc6ab9cc180368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 18/35] fix: key agreement refuses keys on different curves

---
 pycose/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index c092722..67663c4 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -312,6 +312,9 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
 
     @classmethod
     def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+        if private_key.crv != public_key.crv:
+            raise CoseException("The key agreement keys are not on the same curve")
+
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
         kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
-- 
2.43.0


From b533308cc76c5d718e77e8c806ba565fe05c1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 19/35] fix: a signature algorithm is only used with keys of
 its own type

---
 pycose/messages/signcommon.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/signcommon.py b/pycose/messages/signcommon.py
index 319ed9f..a31d04c 100644
--- a/pycose/messages/signcommon.py
+++ b/pycose/messages/signcommon.py
@@ -2,6 +2,7 @@ import abc
 from typing import Optional, Type, TYPE_CHECKING
 
 from pycose import headers
+from pycose.algorithms import EdDSA, _Ecdsa, _Rsa
 from pycose.keys.okp import OKPKey
 from pycose.exceptions import CoseException
 from pycose.keys.ec2 import EC2Key
@@ -27,14 +28,18 @@ class SignCommon(CoseMessage, metaclass=abc.ABCMeta):
         if self.key is None:
             raise CoseException("Key cannot be None")
 
-        if isinstance(self.key, EC2Key):
+        if alg is None:
+            raise CoseException("No algorithm specified in the message headers")
+
+        # the algorithm decides which type of key can be used
+        if issubclass(alg, _Ecdsa):
             self.key.verify(EC2Key, alg, [ops])
-        elif isinstance(self.key, OKPKey):
+        elif issubclass(alg, EdDSA):
             self.key.verify(OKPKey, alg, [ops])
-        elif isinstance(self.key, RSAKey):
+        elif issubclass(alg, _Rsa):
             self.key.verify(RSAKey, alg, [ops])
         else:
-            raise CoseException('Wrong key type')
+            self.key.verify((EC2Key, OKPKey, RSAKey), alg, [ops])
 
     def verify_signature(self, detached_payload: Optional[bytes] = None, *args, **kwargs) -> bool:
         """
-- 
2.43.0


From ca05968d61abaca74afcf537ee5ba740f2f3b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 20/35] fix: key agreement with key wrap enforces the
 restrictions recorded in the agreement keys

---
 pycose/messages/recipient.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 7ebaf8f..ec04bb0 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -541,6 +541,9 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
                 # alg uses a static sender
                 raise CoseException("Static sender key cannot be None.")
 
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         key_bytes = self._compute_kek((self.get_attr(headers.Algorithm)).get_key_wrap_func(), peer_key, self.key, alg)
         wrap_func = alg.get_key_wrap_func()
 
@@ -558,6 +561,14 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
 
+        if peer_key is None:
+            raise CoseException("Unknown sender public key")
+        if self.key is None:
+            raise CoseException("Static receiver key cannot be None.")
+
+        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
+
         kek = SymmetricKey(k=self._compute_kek(alg.get_key_wrap_func(), peer_key, self.key, alg),
                            optional_params={KpAlg: alg, KpKeyOps: [UnwrapOp, DecryptOp]})
 
-- 
2.43.0


From 114abe1474f833ca4dcf79dc94fa51e457fd6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 21/35] fix: key wrap enforces the restrictions recorded in the
 wrapping key

---
 pycose/messages/recipient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index ec04bb0..87d5136 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -337,6 +337,8 @@ class KeyWrap(CoseRecipient):
 
         elif alg in {A128KW, A192KW, A256KW}:
             key_ops = [WrapOp, EncryptOp]
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, ops='encrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
@@ -354,6 +356,8 @@ class KeyWrap(CoseRecipient):
         key_ops = [DecryptOp, UnwrapOp]
 
         if alg in {A128KW, A192KW, A256KW}:
+            if self.key is not None:
+                self.key.verify(SymmetricKey, alg, key_ops)
             kek = SymmetricKey(k=self._compute_kek(target_alg, 'decrypt'),
                                optional_params={KpAlg: alg, KpKeyOps: key_ops})
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
-- 
2.43.0


From fdc24f9ea18e3c2b03f3ba9326cffeb1f10e445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 22/35] fix: a direct key agreement generates its ephemeral key
 before deriving the CEK, missing keys are reported

---
 pycose/messages/recipient.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 87d5136..dfebbf1 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -344,6 +344,8 @@ class KeyWrap(CoseRecipient):
             kek.verify(SymmetricKey, alg, [WrapOp, EncryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
+            if kek is None:
+                raise CoseException("No key found to encrypt the CEK")
             kek.verify(RSAKey, alg, [WrapOp, EncryptOp])
         else:
             raise CoseIllegalAlgorithm(f"Algorithm {alg} for {self.__class__.__name__}")
@@ -363,6 +365,8 @@ class KeyWrap(CoseRecipient):
             kek.verify(SymmetricKey, alg, [UnwrapOp, DecryptOp])
         elif alg in {RsaesOaepSha512, RsaesOaepSha256, RsaesOaepSha1}:
             kek = self.key
+            if kek is None:
+                raise CoseException("No key found to decrypt the CEK")
             kek.verify(RSAKey, alg, [UnwrapOp, DecryptOp])
         else:
             raise CoseException(f"Unsupported algorithm for key unwrapping: {alg}")
@@ -457,6 +461,13 @@ class DirectKeyAgreement(CoseRecipient):
         if peer_key is None:
             raise CoseException("Unknown static receiver public key")
 
+        if self.key is None:
+            if ops == "encrypt" and alg in {EcdhEsHKDF256, EcdhEsHKDF512}:
+                # ephemeral and not set, generate ephemeral key pair
+                self._setup_ephemeral_key(peer_key)
+            else:
+                raise CoseException("Static key cannot be None")
+
         peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
         self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])
 
-- 
2.43.0


From 9cc20a437ab0684066037aaa2f7c692258406532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 23/35] fix: all recipients of a message receive the same
 content encryption key

---
 pycose/messages/encmessage.py | 9 +++++++--
 pycose/messages/macmessage.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/encmessage.py b/pycose/messages/encmessage.py
index 08c879a..8698989 100644
--- a/pycose/messages/encmessage.py
+++ b/pycose/messages/encmessage.py
@@ -90,11 +90,16 @@ class EncMessage(enccommon.EncCommon):
 
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
             key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
+            # the recipients share one CEK: the one chosen by the user or else the fresh one
+            for r in self.recipients:
+                if r.payload != b'':
+                    key_bytes = r.payload
+
             for r in self.recipients:
                 if r.payload == b'':
                     r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                elif r.payload != key_bytes:
+                    raise CoseException("The recipients carry different content encryption keys")
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [EncryptOp]})
             payload = super(EncMessage, self).encrypt()
diff --git a/pycose/messages/macmessage.py b/pycose/messages/macmessage.py
index a5a5a87..a61f190 100644
--- a/pycose/messages/macmessage.py
+++ b/pycose/messages/macmessage.py
@@ -92,11 +92,16 @@ class MacMessage(maccommon.MacCommon):
         elif KeyWrap in r_types or KeyAgreementWithKeyWrap in r_types:
             key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())
 
+            # the recipients share one CEK: the one chosen by the user or else the fresh one
+            for r in self.recipients:
+                if r.payload != b'':
+                    key_bytes = r.payload
+
             for r in self.recipients:
                 if r.payload == b'':
                     r.payload = key_bytes
-                else:
-                    key_bytes = r.payload
+                elif r.payload != key_bytes:
+                    raise CoseException("The recipients carry different content encryption keys")
                 r.encrypt(target_algorithm)
             self.key = SymmetricKey(k=key_bytes, optional_params={KpAlg: target_algorithm, KpKeyOps: [MacCreateOp]})
             payload = super(MacMessage, self).compute_tag()
-- 
2.43.0


From ecadbea36c3d91eecf10858ac3dacad82a67a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 24/35] fix: content encryption refuses keys that do not have
 the length of the algorithm

---
 pycose/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 67663c4..9edd0f5 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -327,11 +327,15 @@ class _AesGcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.encrypt(nonce=nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESGCM(key=key.k)
         return cipher.decrypt(nonce=nonce, data=ciphertext, associated_data=aad)
 
@@ -345,11 +349,15 @@ class _AesCcm(_EncAlg, ABC):
 
     @classmethod
     def encrypt(cls, key: 'SK', nonce: bytes, data: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESCCM(key.k, tag_length=cls.get_tag_length())
         return cipher.encrypt(nonce, data=data, associated_data=aad)
 
     @classmethod
     def decrypt(cls, key: 'SK', nonce: bytes, ciphertext: bytes, aad: bytes) -> bytes:
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
         cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())
         return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)
 
-- 
2.43.0


From fc2f3bcd46bb7ba570972b1c5f1798f242c17134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 25/35] fix: AES-MAC refuses keys that do not have the length
 of the algorithm

---
 pycose/algorithms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index 9edd0f5..cfc8847 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -208,8 +208,16 @@ class _AesMac(CoseAlgorithm, ABC):
     def get_digest_length(cls) -> int:
         raise NotImplementedError()
 
+    @classmethod
+    @abstractmethod
+    def get_key_length(cls) -> int:
+        raise NotImplementedError()
+
     @classmethod
     def compute_tag(cls, key: 'SK', data: bytes):
+        if cls.get_key_length() != len(key.k):
+            raise ValueError("Key has the wrong length")
+
         encryptor = Cipher(AES(key.k),
                            modes.CBC(unhexlify(b''.join([b'00'] * 16))),
                            backend=default_backend()).encryptor()
-- 
2.43.0


From 29f7a809db48866dd516c10a936d8b3882afa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 26/35] fix: decoding a recipient keeps its nested recipients

---
 pycose/messages/recipient.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index dfebbf1..5a06c21 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -127,6 +127,17 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         self._recipients = []
         self.recipients = recipients
 
+    @classmethod
+    def from_cose_obj(cls, cose_obj: list, allow_unknown_attributes: bool, *args, **kwargs) -> 'CoseRecipient':
+        msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
+
+        # optional fourth element: the recipients of the next layer
+        if len(cose_obj):
+            msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for
+                              r in cose_obj.pop(0)]
+
+        return msg
+
     @property
     def cbor_tag(self):
         return None
@@ -262,9 +273,6 @@ class KeyWrap(CoseRecipient):
         if msg.payload == b'':
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
@@ -497,9 +505,6 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-        msg.recipients = [CoseRecipient.create_recipient(r, allow_unknown_attributes, context='Rec_Recipient') for r in
-                          msg.recipients]
-
         return msg
 
     @property
-- 
2.43.0


From 5b6c87690dc3758756b3dd28cdee34509097f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 27/35] fix: a chain of one certificate can be validated

---
 pycose/extensions/x509.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycose/extensions/x509.py b/pycose/extensions/x509.py
index 5c1aacb..88f09de 100644
--- a/pycose/extensions/x509.py
+++ b/pycose/extensions/x509.py
@@ -74,9 +74,12 @@ class X5Chain:
             self.verify_chain({'digital_signature'})
 
     def verify_chain(self, key_usage: Set[str]):
+        # a chain of one certificate is stored as the certificate itself
+        cert_chain = self.cert_chain if isinstance(self.cert_chain, list) else [self.cert_chain]
+
         val = CertificateValidator(
-            end_entity_cert=self.cert_chain[0],
-            intermediate_certs=self.cert_chain[1:],
+            end_entity_cert=cert_chain[0],
+            intermediate_certs=cert_chain[1:],
         )
         return val.validate_usage(key_usage)
 
-- 
2.43.0


From b28d8a64d5661c8b1a8e9af0c85525a4be07bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 28/35] fix: the KDF context carries the recipient's protected
 header as it is transported

---
 pycose/messages/context.py   | 14 +++++++++++---
 pycose/messages/recipient.py |  5 ++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pycose/messages/context.py b/pycose/messages/context.py
index 59bac76..b6a8cce 100644
--- a/pycose/messages/context.py
+++ b/pycose/messages/context.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Optional
+from typing import TYPE_CHECKING, Optional, Union
 
 import attr
 import cbor2
@@ -24,7 +24,7 @@ class PartyInfo:
 @attr.s(slots=True)
 class SuppPubInfo:
     _key_data_length: int = attr.ib()
-    protected: dict = attr.ib(factory=dict)
+    protected: Union[dict, bytes] = attr.ib(factory=dict)
     other: bytes = attr.ib(default=b'')
 
     @property
@@ -49,7 +49,15 @@ class SuppPubInfo:
     def encode(self) -> list:
         """ Encodes the supplementary public information. """
 
-        info = [self.key_data_length * 8, cbor2.dumps(self.protected, default=self._custom_cbor_encoder)]
+        if isinstance(self.protected, bytes):
+            protected = self.protected
+        elif len(self.protected):
+            protected = cbor2.dumps(self.protected, default=self._custom_cbor_encoder)
+        else:
+            # an empty protected header is the zero-length byte string
+            protected = b''
+
+        info = [self.key_data_length * 8, protected]
         if self.other != b'':
             info.append(self.other)
 
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index 5a06c21..c1c9038 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -177,7 +177,10 @@ class CoseRecipient(CoseMessage, metaclass=abc.ABCMeta):
         v_other = self.get_attr(headers.PartyVOther)
         v = PartyInfo(v_id, v_nonce, v_other)
 
-        supp_pub = SuppPubInfo(algorithm.get_key_length(), self.phdr, self.local_attrs.get(headers.SuppPubOther, b''))
+        # the serialized protected header of the recipient, as it was received or as it will be sent
+        protected = self.phdr_encoded if len(self.phdr) else b''
+
+        supp_pub = SuppPubInfo(algorithm.get_key_length(), protected, self.local_attrs.get(headers.SuppPubOther, b''))
         supp_priv = self.local_attrs.get(headers.SuppPrivOther, b'')
 
         return CoseKDFContext(algorithm, supp_pub, u, v, supp_priv)
-- 
2.43.0


From 7829d6c73735e2b75838f041bbbed9020a053dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 29/35] fix: key operations are all validated before any is
 stored, and can be cleared

---
 pycose/keys/ec2.py       | 3 +--
 pycose/keys/okp.py       | 3 +--
 pycose/keys/rsa.py       | 3 +--
 pycose/keys/symmetric.py | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index 13f8a98..a003342 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -256,8 +256,7 @@ class EC2Key(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {EC2Key.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'EC2Key':
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 78d44ef..5b4ee9a 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -218,8 +218,7 @@ class OKPKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {OKPKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, crv: Union[Type['CoseCurve'], str, int], optional_params: dict = None) -> 'OKPKey':
diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index e37aca5..84299bf 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -297,8 +297,7 @@ class RSAKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {RSAKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_bits: int, optional_params: dict = None) -> 'RSAKey':
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index a66fdae..1d3a180 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -104,8 +104,7 @@ class SymmetricKey(CoseKey):
         for ops in new_key_ops:
             if not self._supported_by_key_type(ops, supported):
                 raise CoseIllegalKeyOps(f"Invalid COSE key operation {ops} for key type {SymmetricKey.__name__}")
-            else:
-                CoseKey.key_ops.fset(self, new_key_ops)
+        CoseKey.key_ops.fset(self, new_key_ops)
 
     @classmethod
     def generate_key(cls, key_len: int, optional_params: dict = None) -> 'SymmetricKey':
-- 
2.43.0


From 7fee930f80f912e1f91bd8bc65cd929f653e3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 30/35] fix: RSA keys with more than two primes keep the
 parameters of the additional primes

---
 pycose/keys/rsa.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pycose/keys/rsa.py b/pycose/keys/rsa.py
index 84299bf..c49da65 100644
--- a/pycose/keys/rsa.py
+++ b/pycose/keys/rsa.py
@@ -285,6 +285,46 @@ class RSAKey(CoseKey):
             raise TypeError("parameter dq must be of type 'bytes'")
         self.store[RSAKpQInv] = qinv
 
+    @property
+    def other(self) -> List[dict]:
+        return self.store.get(RSAKpOther, [])
+
+    @other.setter
+    def other(self, other: List[dict]):
+        if type(other) is not list:
+            raise TypeError("parameter other must be of type 'list'")
+        self.store[RSAKpOther] = other
+
+    @property
+    def r_i(self) -> bytes:
+        return self.store.get(RSAKpRi, b'')
+
+    @r_i.setter
+    def r_i(self, r_i: bytes):
+        if type(r_i) is not bytes:
+            raise TypeError("parameter r_i must be of type 'bytes'")
+        self.store[RSAKpRi] = r_i
+
+    @property
+    def d_i(self) -> bytes:
+        return self.store.get(RSAKpDi, b'')
+
+    @d_i.setter
+    def d_i(self, d_i: bytes):
+        if type(d_i) is not bytes:
+            raise TypeError("parameter d_i must be of type 'bytes'")
+        self.store[RSAKpDi] = d_i
+
+    @property
+    def t_i(self) -> bytes:
+        return self.store.get(RSAKpTi, b'')
+
+    @t_i.setter
+    def t_i(self, t_i: bytes):
+        if type(t_i) is not bytes:
+            raise TypeError("parameter t_i must be of type 'bytes'")
+        self.store[RSAKpTi] = t_i
+
     @property
     def key_ops(self) -> List[Type['KEYOPS']]:
         """ Returns the value of the :class:`~pycose.keys.keyparam.KpKeyOps` key parameter """
-- 
2.43.0


From bbbcb1e1b1f1f7dcaf8e8fc99efd3cc31eaa86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 31/35] fix: the salt carried by a recipient takes part in the
 key derivation

---
 pycose/algorithms.py         | 5 +++--
 pycose/messages/recipient.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycose/algorithms.py b/pycose/algorithms.py
index cfc8847..f0606a9 100644
--- a/pycose/algorithms.py
+++ b/pycose/algorithms.py
@@ -319,13 +319,14 @@ class _EcdhHkdf(CoseAlgorithm, ABC):
         return shared_key
 
     @classmethod
-    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext') -> bytes:
+    def derive_kek(cls, curve: 'CoseCurve', private_key: 'EC2', public_key: 'EC2', context: 'CoseKDFContext',
+                   salt: Optional[bytes] = None) -> bytes:
         if private_key.crv != public_key.crv:
             raise CoseException("The key agreement keys are not on the same curve")
 
         shared_secret = cls._ecdh(curve, private_key, public_key)
 
-        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=None,
+        kdf = HKDF(algorithm=cls.get_hash_func(), length=context.supp_pub_info.key_data_length, salt=salt,
                    info=context.encode(),
                    backend=default_backend())
         return kdf.derive(shared_secret)
diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index c1c9038..dc9eb6c 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -453,7 +453,8 @@ class DirectKeyAgreement(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                  self.get_attr(headers.Salt))
 
     def compute_cek(self, target_alg: '_EncAlg', ops: str) -> 'SK':
         alg = self.get_attr(headers.Algorithm)
@@ -540,7 +541,8 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
 
     def _compute_kek(self, target_alg: '_EncAlg', peer_key: 'EC2Key', local_key: 'EC2Key', kex_alg) -> bytes:
 
-        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg))
+        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),
+                                       self.get_attr(headers.Salt))
         return key_bytes
 
     def encrypt(self, target_alg) -> bytes:
-- 
2.43.0


From b6f076a7b2853150dd66d51a9efd62ade893a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 32/35] fix: the representation of a message with detached
 content can be produced

---
 pycose/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycose/utils.py b/pycose/utils.py
index 4a63441..b0eb217 100644
--- a/pycose/utils.py
+++ b/pycose/utils.py
@@ -1,5 +1,5 @@
 from abc import ABC, abstractmethod
-from typing import Any, Callable
+from typing import Any, Callable, Optional
 
 from pycose.exceptions import CoseException
 
@@ -77,5 +77,9 @@ class _CoseAttribute(ABC):
         return f'<{self.fullname}: {self.identifier}>'
 
 
-def truncate(payload: bytes) -> str:
+def truncate(payload: Optional[bytes]) -> str:
+    if payload is None:
+        # detached content
+        return str(None)
+
     return f'{payload[:5]} ... ({len(payload)} B)'
-- 
2.43.0


From 604065f8b5d0d9557af1db70014b8befa6905a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 33/35] fix: refuse to send a DirectEncryption recipient
 labelled with another algorithm

---
 pycose/messages/recipient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index dc9eb6c..a71a925 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -237,6 +237,9 @@ class DirectEncryption(CoseRecipient):
         if alg is None:
             raise CoseException("Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode")
 
+        if alg not in {Direct, DirectHKDFSHA256, DirectHKDFAES256}:
+            raise CoseIllegalAlgorithm(f"Algorithm {alg} unsupported for {self.__class__.__name__}")
+
         if len(self.recipients):
             raise CoseException(f"Recipient class DIRECT_ENCRYPTION cannot carry recipients.")
 
-- 
2.43.0


From 5a6c0448679f32d429188072121c041c8b98e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 34/35] fix: refuse key transport recipients with a nil
 ciphertext when decoding

---
 pycose/messages/recipient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycose/messages/recipient.py b/pycose/messages/recipient.py
index a71a925..069fc52 100644
--- a/pycose/messages/recipient.py
+++ b/pycose/messages/recipient.py
@@ -276,7 +276,7 @@ class KeyWrap(CoseRecipient):
             raise CoseMalformedMessage(
                 f"Recipient class KEY_WRAP with alg {alg} must have a zero-length protected header")
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(f'Recipient class KEY_WRAP must carry the encrypted CEK in its payload')
 
         return msg
@@ -508,7 +508,7 @@ class KeyAgreementWithKeyWrap(CoseRecipient):
         msg = super().from_cose_obj(cose_obj, allow_unknown_attributes)
         msg.context = kwargs.get('context')
 
-        if msg.payload == b'':
+        if not msg.payload:
             raise CoseMalformedMessage(
                 f'Recipient class KEY_AGREEMENT_WITH_KEY_WRAP must carry the encrypted CEK in its payload')
 
-- 
2.43.0


From b02dc810d553d59b99d8b0cd0d3a3eb367383145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 35/35] fix: parameters unknown to the library can be removed
 from keys

---
 pycose/keys/ec2.py       | 9 +++++----
 pycose/keys/okp.py       | 7 ++++---
 pycose/keys/symmetric.py | 3 ++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pycose/keys/ec2.py b/pycose/keys/ec2.py
index a003342..2cf4620 100644
--- a/pycose/keys/ec2.py
+++ b/pycose/keys/ec2.py
@@ -280,12 +280,13 @@ class EC2Key(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != EC2KpCurve:
-            if self._key_transform(key) == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
+        parameter = self._key_transform(key, allow_unknown_attrs=True)
+        if parameter != KpKty and parameter != EC2KpCurve:
+            if parameter == EC2KpD and (EC2KpY not in self.store or EC2KpX not in self.store):
                 pass
-            elif self._key_transform(key) == EC2KpX and EC2KpD not in self.store:
+            elif parameter == EC2KpX and EC2KpD not in self.store:
                 pass
-            elif (self._key_transform(key) == EC2KpX or self._key_transform(key) == EC2KpY) and EC2KpD in self.store:
+            elif (parameter == EC2KpX or parameter == EC2KpY) and EC2KpD in self.store:
                 super(EC2Key, self).__delitem__(EC2KpX)
                 super(EC2Key, self).__delitem__(EC2KpY)
                 return
diff --git a/pycose/keys/okp.py b/pycose/keys/okp.py
index 5b4ee9a..514c722 100644
--- a/pycose/keys/okp.py
+++ b/pycose/keys/okp.py
@@ -242,10 +242,11 @@ class OKPKey(CoseKey):
         return cls._from_cryptography_key(ext_key, optional_params)
 
     def __delitem__(self, key: Union['KeyParam', str, int]):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != OKPKpCurve:
-            if self._key_transform(key) == OKPKpD and OKPKpX not in self.store:
+        parameter = self._key_transform(key, allow_unknown_attrs=True)
+        if parameter != KpKty and parameter != OKPKpCurve:
+            if parameter == OKPKpD and OKPKpX not in self.store:
                 pass
-            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:
+            elif parameter == OKPKpX and OKPKpD not in self.store:
                 pass
             else:
                 return super(OKPKey, self).__delitem__(key)
diff --git a/pycose/keys/symmetric.py b/pycose/keys/symmetric.py
index 1d3a180..1c6a225 100644
--- a/pycose/keys/symmetric.py
+++ b/pycose/keys/symmetric.py
@@ -71,7 +71,8 @@ class SymmetricKey(CoseKey):
             raise CoseInvalidKey("SymKpK parameter cannot be None")
 
     def __delitem__(self, key):
-        if self._key_transform(key) != KpKty and self._key_transform(key) != SymKpK:
+        parameter = self._key_transform(key, allow_unknown_attrs=True)
+        if parameter != KpKty and parameter != SymKpK:
             super().__delitem__(key)
         else:
             raise CoseInvalidKey(f"Deleting {key} attribute would lead to an invalide COSE Symmetric Key")
-- 
2.43.0

