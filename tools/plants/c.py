import os
exec(open("/verif/tools/plants/b.py").read().split('S["s03-aad-memo"]')[0])
S = {}
A = "algorithms.py"
S["s06-kid-cache"] = dict(property="C06", edits=[
    (A, "        sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())\n",
     "        cache = _Ecdsa._keys\n        sk = cache.get((key.kid, cls.identifier)) if key.kid else None\n        if sk is None:\n            sk = SigningKey.from_secret_exponent(int(hexlify(key.d), 16), curve=cls.get_curve())\n            if key.kid:\n                cache[(key.kid, cls.identifier)] = sk\n"),
    (A, "class _Ecdsa(CoseAlgorithm, ABC):\n", "class _Ecdsa(CoseAlgorithm, ABC):\n    _keys = {}\n\n")],
    demo=COMMON + '''
for i in range(2):
    k = EC2Key.generate_key(P256, optional_params={KpKid: b"rotating"})
    m = Sign1Message(phdr={Algorithm: Es256}, payload=b"x", key=k)
    d = Sign1Message.decode(m.encode())
    d.key = k
    assert d.verify_signature(), "key %d" % i
''', needs="two signing keys with the same key id used in one process (key rotation)", breaks="the signing key of the first key object is used for the second one")
S["s06-okp-both"] = dict(property="C06", edits=[
    (A, "            vk = Ed448PublicKey.from_public_bytes(key.x)\n", "            vk = Ed448PublicKey.from_public_bytes(key.x) if not key.d else Ed448PrivateKey.from_private_bytes(key.d).public_key()\n")],
    demo=COMMON + RAISES + '''
a, b = OKPKey.generate_key(Ed448), OKPKey.generate_key(Ed448)
m = Sign1Message(phdr={Algorithm: EdDSA}, payload=b"x", key=a)
s = m.compute_signature()
v = OKPKey(Ed448, x=a.x, d=a.d)
v.x = b.x
m.signature = s
m.key = v
assert not m.verify_signature(), "verified with another key than the public value of the key set"
''', needs="an Ed448 key whose public value does not belong to its private value", breaks="verification uses a public key derived from the private value, not the public value of the key")
S["s18-pss-auto"] = dict(property="C18", edits=[
    (A, "        pad = cls.get_pad_func(hash_cls)\n\n        public_nums = rsa.RSAPublicNumbers(e=int.from_bytes(key.e, 'big'), n=int.from_bytes(key.n, 'big'))\n        pk = public_nums.public_key(backend=default_backend())\n\n        try:",
     "        pad = cls.get_pad_func(hash_cls)\n        if isinstance(pad, padding.PSS):\n            pad = padding.PSS(mgf=padding.MGF1(hash_cls()), salt_length=padding.PSS.AUTO)\n\n        public_nums = rsa.RSAPublicNumbers(e=int.from_bytes(key.e, 'big'), n=int.from_bytes(key.n, 'big'))\n        pk = public_nums.public_key(backend=default_backend())\n\n        try:")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.asymmetric import rsa, padding
from cryptography.hazmat.primitives import hashes
sk = rsa.generate_private_key(65537, 2048)
k = CoseKey._from_cryptography_key(sk)
m = Sign1Message(phdr={Algorithm: Ps256}, payload=b"x", key=k)
m.signature = sk.sign(m._create_sig_structure(), padding.PSS(mgf=padding.MGF1(hashes.SHA256()), salt_length=0), hashes.SHA256())
assert not m.verify_signature(), "a PSS signature with another salt length is accepted"
''', needs="a PSS signature made with a salt of another length than the hash", breaks="verification does not enforce the salt length registered for PS256/384/512")
S["s18-ssa192"] = dict(property="C18", edits=[
    (A, "__LATER__", "")], demo="", needs="", breaks="")
S["s18-ccm-tag"] = dict(property="C18", edits=[
    (A, "        cipher = AESCCM(key=key.k, tag_length=cls.get_tag_length())\n        return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)\n",
     "        tag_length = cls.get_tag_length() if len(ciphertext) >= 16 else 8\n        cipher = AESCCM(key=key.k, tag_length=tag_length)\n        return cipher.decrypt(nonce, data=ciphertext, associated_data=aad)\n")],
    demo=COMMON + RAISES + '''
from cryptography.hazmat.primitives.ciphers.aead import AESCCM
k = SymmetricKey(k=bytes(16))
m = Enc0Message(phdr={Algorithm: AESCCM16128128}, uhdr={IV: bytes(13)}, key=k)
m.payload = AESCCM(bytes(16), tag_length=8).encrypt(bytes(13), b"short", m._enc_structure)
assert refused(m.decrypt), "a ciphertext with an 8 byte tag is accepted for AES-CCM-16-128-128"
''', needs="a ciphertext shorter than the tag of the algorithm", breaks="short ciphertexts are decrypted with a shorter tag than the algorithm has")
S["s22-pop"] = dict(property="C22", edits=[
    ("keys/cosekey.py", "    def __contains__(self, item):\n", "    def pop(self, key, *default):\n        return self.store.pop(self._key_transform(key, allow_unknown_attrs=True), *default)\n\n    def __contains__(self, item):\n")
    , ("keys/cosekey.py", "        return self.store.__contains__(self._key_transform(item, allow_unknown_attrs=True))\n", "        return self._key_transform(item, allow_unknown_attrs=True) in self.store\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(16))
assert refused(lambda: k.pop("K")), "the key value was removed with pop"
''', needs="removal through pop() instead of del", breaks="pop() removes mandatory parameters, bypassing the checks of del")
S["s22-ec2-y"] = dict(property="C22", edits=[
    ("keys/ec2.py", "                super(EC2Key, self).__delitem__(EC2KpY)\n                return\n", "                self.store.pop(EC2KpY, None)\n                self.store.pop(KpKid, None)\n                return\n"),
    ("keys/ec2.py", "EC2KpD, KpKty, KeyParam\n", "EC2KpD, KpKty, KpKid, KeyParam\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(P256, optional_params={KpKid: b"me"})
del k[EC2KpX]
assert k.kid == b"me", "the key id is gone"
''', needs="removing the public coordinates of a private key with a key id", breaks="removing the public point removes the key id, too")
S["s27-key-alg"] = dict(property="C27", edits=[
    (M + "enccommon.py", "        alg = self.get_attr(headers.Algorithm)\n        nonce = self._get_nonce()\n\n        self.key.verify(SymmetricKey, alg, [DecryptOp])\n",
     "        alg = self.get_attr(headers.Algorithm, self.key.alg)\n        nonce = self._get_nonce()\n\n        self.key.verify(SymmetricKey, alg, [DecryptOp])\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(16), optional_params={KpAlg: A128GCM})
e = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"x", key=k)
c = e.encrypt()
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
m = Enc0Message(uhdr={IV: bytes(12)}, key=k)
m.payload = AESGCM(bytes(16)).encrypt(bytes(12), b"x", m._enc_structure)
assert refused(m.decrypt), "decrypted without an algorithm in the message"
''', needs="a message without algorithm header and a key that records its algorithm", breaks="the algorithm is taken from the key when the message names none")
S["s27-static-generates"] = dict(property="C27", edits=[
    (M + "recipient.py", "            if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW}:\n                self._setup_ephemeral_key(peer_key)\n            else:\n",
     "            if alg in {EcdhEsA128KW, EcdhEsA192KW, EcdhEsA256KW} or self.get_attr(headers.StaticKeyID) is not None:\n                self._setup_ephemeral_key(peer_key)\n            else:\n")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import KeyAgreementWithKeyWrap
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhSsA128KW}, uhdr={StaticKeyID: b"1"}, payload=bytes(16))
r.local_attrs = {StaticKey: EC2Key.generate_key(P256)}
assert refused(lambda: r.encrypt(A128GCM)), "static-static without a static sender key"
''', needs="a static-static recipient structure without own key that names the static key by id", breaks="a key is generated in place of the missing static sender key")
S["s01-parent-kept"] = dict(property="C01", edits=[
    (M + "signmessage.py", "                s._parent = self\n", "                if s._parent is None:\n                    s._parent = self\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(P256)
s = CoseSignature(phdr={Algorithm: Es256}, key=k)
SignMessage(payload=b"first", signers=[s]).encode()
d = SignMessage.decode(SignMessage(payload=b"second", signers=[s]).encode())
d.signers[0].key = k
assert d.signers[0].verify_signature(), "the signer signed the content of another message"
''', needs="a signer object used in a second message", breaks="the signature covers the headers and payload of the first message")
S["s03-no-aad"] = dict(property="C03", edits=[
    (M + "enccommon.py", "        enc_structure = self._base_structure(enc_structure)\n        aad = cbor2.dumps(enc_structure)\n",
     "        enc_structure = self._base_structure(enc_structure)\n        aad = cbor2.dumps(enc_structure) if self.phdr or self.external_aad else b''\n")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
k = SymmetricKey(k=bytes(16))
m = Enc0Message(uhdr={Algorithm: A128GCM, IV: bytes(12)}, payload=b"x", key=k)
assert m.encrypt() == AESGCM(bytes(16)).encrypt(bytes(12), b"x", cbor2.dumps(["Encrypt0", b"", b""]))
''', needs="a message with an empty protected header and no external data", breaks="the associated data is empty instead of the Enc_structure")
S["s04-verified-memo"] = dict(property="C04", edits=[
    (M + "signcommon.py", "        return alg.verify(key=self.key, data=self._create_sig_structure(detached_payload), signature=self.signature)\n",
     "        memo = (detached_payload, self.payload, self.signature, self.key.kid)\n        if getattr(self, '_verified', None) == memo:\n            return True\n\n        res = alg.verify(key=self.key, data=self._create_sig_structure(detached_payload), signature=self.signature)\n        self._verified = memo if res else None\n        return res\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(P256)
m = Sign1Message(phdr={Algorithm: Es256}, payload=b"x", key=k)
m = Sign1Message.decode(m.encode())
m.key = k
assert m.verify_signature()
m.external_aad = b"other"
assert not m.verify_signature(), "accepted with other external data"
''', needs="a second verification after external data, header or key changed", breaks="a memoised result is reported although the primitive was not asked about the present data")
S["s04-empty-tag"] = dict(property="C04", edits=[
    (M + "maccommon.py", "        return alg.verify_tag(key=self.key, tag=self.auth_tag, data=self._mac_structure)\n",
     "        tag = self.auth_tag or alg.compute_tag(key=self.key, data=self._mac_structure)\n        return alg.verify_tag(key=self.key, tag=tag, data=self._mac_structure)\n")],
    demo=COMMON + '''
m = Mac0Message.decode(cbor2.dumps(cbor2.CBORTag(17, [cbor2.dumps({1: 5}), {}, b"forged", b""])))
m.key = SymmetricKey(k=bytes(32))
assert m.verify_tag() is False
''', needs="a received message with a zero-length tag", breaks="a message with an empty tag verifies")
S["s07-cache-on-encode"] = dict(property="C07", edits=[
    (M + "cosebase.py", "            return cbor2.dumps(self._phdr, default=self._custom_cbor_encoder)\n", "            self._phdr_encoded = cbor2.dumps(self._phdr, default=self._custom_cbor_encoder)\n            return self._phdr_encoded\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(P256)
m = Sign1Message(phdr={Algorithm: Es256}, payload=b"x", key=k)
m.encode()
m.phdr[KID] = b"me"
d = Sign1Message.decode(m.encode())
assert d.phdr.get(KID) == b"me", "the changed protected header is not emitted"
''', needs="a protected header changed in place after the message was encoded once", breaks="the serialised protected header of the first encoding is emitted and authenticated")
S["s08-iv-fallback"] = dict(property="C08", edits=[
    (M + "enccommon.py", "            partial_iv = self.get_attr(headers.PartialIV)\n", "            partial_iv = self.uhdr.get(headers.PartialIV) or self.phdr.get(headers.PartialIV)\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: bytes(12)})
m = Enc0Message(phdr={Algorithm: A128GCM, PartialIV: b"\\x01"}, uhdr={PartialIV: b"\\x02"}, payload=b"x", key=k)
assert refused(m.encrypt), "Partial IV in both buckets"
''', needs="a Partial IV in both header buckets", breaks="the unprotected Partial IV silently wins")
S["s09-strict-uhdr"] = dict(property="C09", edits=[
    (M + "cosebase.py", "        self._uhdr = CoseBase._parse_header(uhdr, kwargs.get(\"allow_unknown_attributes\", True))\n", "        self._uhdr = CoseBase._parse_header(uhdr, phdr_encoded is not None or kwargs.get(\"allow_unknown_attributes\", True))\n")],
    demo=COMMON + RAISES + '''
enc = cbor2.dumps(cbor2.CBORTag(18, [b"", {-70001: 1}, b"p", b"s"]))
assert refused(lambda: CoseMessage.decode(enc, allow_unknown_attributes=False)), "unknown label in the unprotected header"
''', needs="an unregistered label in the unprotected header of a received message decoded strictly", breaks="strict decoding does not apply to the unprotected header")
S["s11-tstr"] = dict(property="C11", edits=[
    (M + "cosebase.py", "        elif issubclass(cose_attribute, CoseAlgorithm) and self.alg_tstr_encoding:\n            encoder.encode(cose_attribute.fullname)\n",
     "        elif issubclass(cose_attribute, CoseAlgorithm) and (self.alg_tstr_encoding or abs(cose_attribute.identifier) > 65535):\n            encoder.encode(cose_attribute.fullname)\n"),
    ], demo="raise SystemExit(0)", needs="", breaks="")
S["s15-salt-falsy"] = dict(property="C15", edits=[(A, "__LATER__", "")], demo="", needs="", breaks="")
S["s21-okp-x"] = dict(property="C21", edits=[
    ("keys/okp.py", "__LATER__", "")], demo="", needs="", breaks="")
S["s23-wrong-key"] = dict(property="C23", edits=[
    ("keys/cosekey.py", "            raise CoseException(\"Wrong key type\")\n", "            raise CoseException(f\"Wrong key type: {dict(self)}\")\n")],
    demo=COMMON + '''
k = SymmetricKey(k=b"topsecrettopsecr")
m = Sign1Message(phdr={Algorithm: Es256}, payload=b"x", key=k)
try:
    m.compute_signature()
except CoseException as e:
    assert "topsecrettopsecr" not in str(e)
''', needs="a key of the wrong type", breaks="the exception for a key of the wrong type contains the key material")
S["s24-uhdr-kid"] = dict(property="C24", edits=[
    (M + "signer.py", "        return [self.phdr_encoded, self.uhdr_encoded, self.compute_signature(detached_payload)]\n",
     "        if self.key is not None and self.key.kid:\n            self.uhdr.setdefault(headers.KID, self.key.kid)\n        return [self.phdr_encoded, self.uhdr_encoded, self.compute_signature(detached_payload)]\n"),
    (M + "signer.py", "from pycose import utils\n", "from pycose import headers, utils\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(P256, optional_params={KpKid: b"me"})
s = CoseSignature(phdr={Algorithm: Es256}, key=k)
SignMessage(payload=b"x", signers=[s]).encode()
assert s.uhdr == {}
''', needs="a signer whose key has a key id", breaks="encoding writes the key id of the key into the signer's header")
S["s02-none-payload"] = dict(property="C02", edits=[
    (M + "maccommon.py", "        if self.payload is None:\n            raise ValueError(\"Payload cannot be empty for tag computation\")\n\n        mac_structure.append(self.payload)\n", "        mac_structure.append(self.payload or b'')\n")],
    demo=COMMON + RAISES + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=None, key=SymmetricKey(k=bytes(32)))
assert refused(m.compute_tag), "tag over a payload the message does not have"
''', needs="a message without payload", breaks="a tag over an empty payload is computed for a message that has none")
S["s13-cek-cached"] = dict(property="C13", edits=[
    (M + "macmessage.py", "__LATER__", "")], demo="", needs="", breaks="")
S["s10-two-tags"] = dict(property="C10", edits=[
    (M + "cosemessage.py", "            cbor_tag = cbor_msg.tag\n            cose_obj = cbor_msg.value\n", "            cbor_tag = cbor_msg.tag\n            cose_obj = cbor_msg.value\n            if isinstance(cose_obj, cbor2.CBORTag):\n                cbor_tag, cose_obj = cose_obj.tag, cose_obj.value\n")],
    demo=COMMON + RAISES + '''
enc = cbor2.dumps(cbor2.CBORTag(1000, cbor2.CBORTag(18, [b"", {}, b"p", b"s"])))
assert refused(lambda: CoseMessage.decode(enc)), "an item with an unregistered tag was decoded"
''', needs="a COSE message wrapped in another tag", breaks="an unregistered outer tag is skipped")
S["s14-pop-nested"] = dict(property="C14", edits=[
    (M + "recipient.py", "            if target is r:\n                return True\n", "            if target is r or target.phdr_encoded == r.phdr_encoded and target.payload == r.payload:\n                return True\n")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import DirectEncryption
r1, r2 = DirectEncryption(uhdr={Algorithm: Direct}), DirectEncryption(uhdr={Algorithm: Direct})
k = SymmetricKey(k=bytes(16))
m = EncMessage(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"x", key=k, recipients=[r1])
m.payload = m.encrypt()
assert refused(lambda: m.decrypt(r2)), "decrypted for a recipient structure that is not part of the message"
''', needs="a recipient structure which resembles one of the message but is not part of it", breaks="decryption for a foreign recipient structure with equal header and payload")
S["s17-both"] = dict(property="C17", edits=[
    (M + "enccommon.py", "        if nonce is None and self.key.base_iv != b'':\n", "        if (nonce is None or self.get_attr(headers.PartialIV) is not None) and self.key.base_iv != b'':\n")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
k = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: bytes(12)})
m = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: b"n" * 12, PartialIV: b"\\x01"}, payload=b"x", key=k)
assert m.encrypt() == AESGCM(bytes(16)).encrypt(b"n" * 12, b"x", m._enc_structure)
''', needs="a message with IV and Partial IV and a key with Base IV", breaks="the Partial IV overrides the IV")
S["s20-crv-setter"] = dict(property="C20", edits=[
    ("keys/okp.py", "__LATER__", "")], demo="", needs="", breaks="")
S["s26-cert-none"] = dict(property="C26", edits=[
    ("extensions/x509.py", "        if isinstance(certificates, list) and len(certificates) == 1:\n", "        if isinstance(certificates, list) and len(set(certificates)) == 1:\n")],
    demo=COMMON + '''
from pycose.extensions.x509 import X5Bag
assert X5Bag([b"a", b"a"]).encode() == [b"a", b"a"]
''', needs="a bag in which one certificate occurs twice", breaks="several equal certificates are encoded as a single one")
S["s12-recipient-payload"] = dict(property="C12", edits=[
    (M + "recipient.py", "        recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))]\n", "        recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))\n                     if kwargs.get('target_alg') is not None else self.payload]\n")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import KeyWrap
r = KeyWrap(uhdr={Algorithm: A128KW}, payload=b"content key 1234", key=SymmetricKey(k=bytes(16)))
try:
    e = r.encode()
except Exception:
    e = []
assert b"content key 1234" not in e, "the content key is emitted in the clear"
''', needs="encoding a recipient structure on its own, without naming the content algorithm", breaks="the content key is emitted unwrapped")
S = {k: v for k, v in S.items() if v["needs"]}
