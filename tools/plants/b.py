import os
exec(open("/verif/tools/plants/a.py").read().split('S["s01-caller-bytes"]')[0])
S = {}
RAISES = '''
def refused(f, *exc):
    try:
        f()
    except (exc or (Exception,)):
        return True
    return False
'''
S["s03-aad-memo"] = dict(property="C03", edits=[
    (M + "enccommon.py", "        enc_structure = [self.context]\n", "        if getattr(self, '_aad', None) is not None:\n            return self._aad\n\n        enc_structure = [self.context]\n"),
    (M + "enccommon.py", "        aad = cbor2.dumps(enc_structure)\n        return aad\n", "        self._aad = cbor2.dumps(enc_structure)\n        return self._aad\n")],
    demo=COMMON + '''
k = SymmetricKey(k=bytes(16))
m = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"hello", external_aad=b"one", key=k)
m.encrypt()
m.external_aad = b"two"
c = m.encrypt()
d = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=c, external_aad=b"two", key=k)
assert d.decrypt() == b"hello"
''', needs="the external data (or header) changed on a message object that already encrypted or decrypted once",
    breaks="the Enc_structure is computed once per object, later changes of header and external data are not authenticated")
S["s05-alg-or-ops"] = dict(property="C05", edits=[
    ("keys/cosekey.py", "            if not match_key_ops:\n", "            if not match_key_ops and self.alg is None:\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(32), optional_params={KpAlg: HMAC256, KpKeyOps: [MacVerifyOp]})
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"x", key=k)
assert refused(m.compute_tag), "verify-only key computed a tag"
''', needs="a key that records both an algorithm and key operations which exclude the one that is run",
    breaks="the key operations of a key that also names its algorithm are not enforced")
S["s05-peer-unchecked"] = dict(property="C05", edits=[
    (M + "recipient.py", "        peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])\n        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])\n\n        return SymmetricKey(",
     "        if peer_key.alg is not None:\n            peer_key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])\n        self.key.verify(EC2Key, alg, [DeriveKeyOp, DeriveBitsOp])\n\n        return SymmetricKey(")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import DirectKeyAgreement
peer = EC2Key.generate_key(P256, optional_params={KpKeyOps: [VerifyOp]})
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}, key=EC2Key.generate_key(P256))
r.local_attrs = {StaticKey: peer}
assert refused(lambda: r.compute_cek(A128GCM, "encrypt")), "peer key for verification only was used for key agreement"
''', needs="a peer key without algorithm whose key operations exclude derivation", breaks="key operations of the peer key are not enforced in direct key agreement")
S["s06-y-top-byte"] = dict(property="C06", edits=[
    ("algorithms.py", "        y_value = int(hexlify(public_key.y), 16)\n", "        y_value = int(hexlify(public_key.y[-65:]), 16)\n")],
    demo=COMMON + '''
for i in range(8):
    a, b = EC2Key.generate_key(P521), EC2Key.generate_key(P521)
    assert EcdhSsHKDF256._ecdh(P521, a, b) == EcdhSsHKDF256._ecdh(P521, b, a)
''', needs="a P-521 key whose y coordinate has its top bit set", breaks="the top byte of y of a P-521 peer key is dropped")
S["s09-none-skip"] = dict(property="C09", edits=[
    (M + "cosebase.py", "            if hasattr(attr, 'value_parser'):\n", "            if v is not None and hasattr(attr, 'value_parser'):\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: Sign1Message.decode(cbor2.dumps(cbor2.CBORTag(18, [b"", {4: None}, b"p", b"s"])))), "null key id accepted"
''', needs="a format-restricted header parameter whose value is null", breaks="header parameters with a null value are not validated")
S["s09-crit-first"] = dict(property="C09", edits=[
    ("headers.py", "not all(isinstance(x, (int, str)) for x in value)", "not isinstance(value[0], (int, str))")],
    demo=COMMON + RAISES + '''
assert refused(lambda: Sign1Message(phdr={Critical: [1, b"x"]}, payload=b"p")), "byte string label in crit accepted"
''', needs="a critical list whose first element is fine and a later one is not", breaks="only the first label of crit is validated")
S["s10-missing-payload"] = dict(property="C10", edits=[
    (M + "cosemessage.py", "        msg.payload = cose_obj.pop(0)\n", "        msg.payload = cose_obj.pop(0) if cose_obj else None\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: Enc0Message.decode(cbor2.dumps(cbor2.CBORTag(16, [b"", {}])))), "array of two elements decoded"
''', needs="a COSE_Encrypt0 array which ends after the headers", breaks="a truncated array is decoded as a message with detached content")
S["s10-sibling-tag"] = dict(property="C10", edits=[
    (M + "cosemessage.py", "            if not isinstance(decoded, cls):\n", "            if not isinstance(decoded, (cls, cls.__mro__[1])) or cls.__mro__[1] is CoseMessage and not isinstance(decoded, cls):\n")],
    demo=COMMON + RAISES + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"x", key=SymmetricKey(k=bytes(32)))
assert refused(lambda: MacMessage.decode(m.encode())), "COSE_Mac0 decoded as COSE_Mac"
''', needs="decode called on a class with a sibling sharing its base", breaks="a message of a sibling class is returned")
S["s12-nokey-plain"] = dict(property="C12", edits=[
    (M + "enc0message.py", "        if encrypt:\n", "        if encrypt and self.key is not None:\n")],
    demo=COMMON + RAISES + '''
def f():
    assert b"secret!" not in Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"secret!").encode()
    raise ValueError
try:
    f()
except AssertionError:
    raise
except Exception:
    pass
''', needs="encoding before the key was set", breaks="the plaintext is emitted when no key is set")
S["s13-reuse-cek"] = dict(property="C13", edits=[
    (M + "encmessage.py", "            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())\n",
     "            if self.key is not None:\n                key_bytes = self.key.k\n            else:\n                key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())\n")],
    demo=COMMON + '''
from pycose.messages.recipient import KeyWrap
def rcpt():
    return KeyWrap(uhdr={Algorithm: A128KW}, key=SymmetricKey(k=bytes(16)))
m = EncMessage(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"x", recipients=[rcpt()])
m.encrypt()
k1 = m.key.k
m.recipients = [rcpt()]
m.encrypt()
assert m.key.k != k1, "content key used for another set of recipients"
''', needs="a message object produced twice, with other recipients the second time", breaks="the content key of the previous recipients is reused")
S["s13-mac-keylen"] = dict(property="C13", edits=[
    (M + "macmessage.py", "            key_bytes = os.urandom(self.get_attr(headers.Algorithm).get_key_length())\n",
     "            key_bytes = os.urandom(min(32, max(16, self.get_attr(headers.Algorithm).get_digest_length())))\n")],
    demo=COMMON + '''
from pycose.messages.recipient import KeyWrap
r = KeyWrap(uhdr={Algorithm: A128KW}, key=SymmetricKey(k=bytes(16)))
m = MacMessage(phdr={Algorithm: HMAC25664}, payload=b"x", recipients=[r])
m.compute_tag()
assert len(m.key.k) == 32, len(m.key.k)
''', needs="a MAC algorithm with truncated tag", breaks="the fresh content key is as long as the tag instead of the key of the algorithm")
S["s14-two-dka"] = dict(property="C14", edits=[
    (M + "recipient.py", "        if DirectKeyAgreement in r_types and len(recipients) > 1:\n", "        if DirectKeyAgreement in r_types and len(r_types) > 1:\n")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import DirectKeyAgreement
def r():
    x = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}, key=EC2Key.generate_key(P256))
    x.local_attrs = {StaticKey: EC2Key.generate_key(P256)}
    return x
m = EncMessage(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"x", recipients=[r(), r()])
assert refused(m.encode), "two direct key agreement recipients"
''', needs="two recipients of the direct key agreement class", breaks="several direct key agreement recipients are accepted, the second of which cannot decrypt")
S["s14-wrap-phdr-192"] = dict(property="C14", edits=[
    (M + "recipient.py", "        if alg in {A128KW, A192KW, A256KW} and len(msg.phdr):\n", "        if alg in {A128KW, A256KW} and len(msg.phdr):\n")],
    demo=COMMON + RAISES + '''
kw = [cbor2.dumps({4: b"k"}), {1: -4}, b"wrapped"]
assert refused(lambda: EncMessage.decode(cbor2.dumps(cbor2.CBORTag(96, [b"", {}, b"c", [kw]])))), "protected header in A192KW recipient"
''', needs="a received A192KW recipient with a protected header", breaks="the protected header of A192KW recipients is not refused")
S["s15-empty-nonce"] = dict(property="C15", edits=[
    (M + "context.py", "        return [self.identity, self.nonce, self.other]\n", "        return [self.identity, self.nonce or None, self.other]\n")],
    demo=COMMON + '''
from pycose.messages.context import *
c = CoseKDFContext(A128GCM, SuppPubInfo(16, {}), PartyInfo(nonce=b""), PartyInfo())
assert cbor2.loads(c.encode())[1] == [None, b"", None]
''', needs="a party nonce that is the empty byte string", breaks="an empty nonce becomes nil in the key derivation context")
S["s16-header-fallback"] = dict(property="C16", edits=[
    (M + "recipient.py", "                    peer_key = self.get_attr(headers.StaticKey)\n                else:\n", "                    peer_key = self.get_attr(headers.StaticKey, self.get_attr(headers.EphemeralKey))\n                else:\n")],
    demo=COMMON + RAISES + '''
from pycose.messages.recipient import DirectKeyAgreement
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}, uhdr={EphemeralKey: {1: 2, -1: 1, -2: EC2Key.generate_key(P256).x}}, key=EC2Key.generate_key(P256))
assert refused(lambda: r.compute_cek(A128GCM, "decrypt")), "ephemeral key used as static sender key"
''', needs="a received ECDH-SS recipient that carries an ephemeral instead of a static key", breaks="the key under a header the algorithm does not prescribe is used")
S["s16-reuse-ephemeral"] = dict(property="C16", edits=[
    (M + "recipient.py", "        self.key = EC2Key.generate_key(peer_key.crv, optional_params)\n",
     "        CoseRecipient._EPHEMERAL = getattr(CoseRecipient, '_EPHEMERAL', {})\n        if peer_key.crv not in CoseRecipient._EPHEMERAL:\n            CoseRecipient._EPHEMERAL[peer_key.crv] = EC2Key.generate_key(peer_key.crv, optional_params)\n        self.key = CoseRecipient._EPHEMERAL[peer_key.crv]\n")],
    demo=COMMON + '''
from pycose.messages.recipient import DirectKeyAgreement
peer = EC2Key.generate_key(P256)
def r():
    x = DirectKeyAgreement(phdr={Algorithm: EcdhEsHKDF256})
    x.local_attrs = {StaticKey: peer}
    x.compute_cek(A128GCM, "encrypt")
    return x
assert r().key.d != r().key.d, "ephemeral key reused"
''', needs="two messages to receivers on the same curve", breaks="the ephemeral key is generated once per curve and reused for every message")
S["s19-strip"] = dict(property="C19", edits=[
    ("utils.py", "        elif isinstance(attribute, str) and attribute.upper() in cls.get_registered_classes():\n            return cls.get_registered_classes()[attribute.upper()]\n",
     "        elif isinstance(attribute, str) and attribute.strip().upper() in cls.get_registered_classes():\n            return cls.get_registered_classes()[attribute.strip().upper()]\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: CoseAlgorithm.from_id("ES256 "), CoseException), "unregistered name resolved"
''', needs="a name with surrounding blanks", breaks="names that are not registered resolve to a registered class")
S["s19-identifier-subclass"] = dict(property="C19", edits=[
    ("utils.py", "            translated_list = [cls.from_id(attr) for attr in attribute]\n", "            translated_list = [cls.from_id(attr, True) for attr in attribute]\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: SymmetricKey(k=bytes(16), optional_params={KpKeyOps: [3, 99]}), CoseException), "unregistered operation in a list"
''', needs="a list with a registered and an unregistered identifier", breaks="unregistered elements of a list are handed back although unknown values are not allowed")
S["s20-sym-len"] = dict(property="C20", edits=[
    ("keys/symmetric.py", "        if len(k) not in [16, 24, 32]:\n            raise CoseInvalidKey(", "        if len(k) < 16 or len(k) > 32 or len(k) % 4:\n            raise CoseInvalidKey(")],
    demo=COMMON + RAISES + '''
assert refused(lambda: SymmetricKey(k=bytes(20))), "20 byte key"
''', needs="a symmetric key of 20 or 28 bytes", breaks="keys of lengths no algorithm has are accepted")
S["s20-y-unchecked"] = dict(property="C20", edits=[
    ("keys/ec2.py", "                if y != public_nums.y.to_bytes(self.crv.size, 'big'):\n", "                if y[1:] != public_nums.y.to_bytes(self.crv.size, 'big')[1:]:\n")],
    demo=COMMON + RAISES + '''
k = EC2Key.generate_key(P256)
assert refused(lambda: EC2Key(crv=P256, x=k.x, y=bytes([k.y[0] ^ 1]) + k.y[1:], d=k.d)), "foreign y accepted"
''', needs="a private key with a y that differs from the right one in its first byte only", breaks="the given y is compared without its first byte")
S["s21-drop-empty"] = dict(property="C21", edits=[
    ("keys/cosekey.py", "        return cbor2.dumps(self.store, default=self._custom_cbor_encoder)\n",
     "        store = {k: v for k, v in self.store.items() if v or isinstance(v, int)}\n        return cbor2.dumps(store, default=self._custom_cbor_encoder)\n")],
    demo=COMMON + '''
k = SymmetricKey(k=bytes(16), optional_params={KpKid: b""})
assert cbor2.loads(k.encode()) == {1: 4, 2: b"", -1: bytes(16)}, cbor2.loads(k.encode())
''', needs="a parameter whose value is an empty string or list", breaks="parameters with empty values are not emitted")
S["s22-okp-x"] = dict(property="C22", edits=[
    ("keys/okp.py", "            elif self._key_transform(key) == OKPKpX and OKPKpD not in self.store:\n", "            elif key == OKPKpX and OKPKpD not in self.store:\n")],
    demo=COMMON + RAISES + '''
k = OKPKey(crv=Ed25519, x=bytes(32))
def f():
    del k["x"]
assert refused(f) and k.x, "last value removed by name"
''', needs="deletion of x by label or name from a public OKP key", breaks="the last value of an OKP key can be removed")
S["s23-short-plain"] = dict(property="C23", edits=[
    ("utils.py", "    return f'{payload[:5]} ... ({len(payload)} B)'\n", "    if len(payload) <= 16:\n        return f'{payload} ({len(payload)} B)'\n\n    return f'{payload[:5]} ... ({len(payload)} B)'\n")],
    demo=COMMON + '''
k = SymmetricKey(k=bytes(range(65, 81)))
assert "FGHIJKLMN" not in repr(k)
''', needs="a secret of at most 16 bytes (an AES-128 key)", breaks="short values are shown in full")
S["s23-exc-value"] = dict(property="C23", edits=[
    ("keys/symmetric.py", '            raise CoseInvalidKey("Key length should be either 16, 24, or 32 bytes")\n',
     '            raise CoseInvalidKey(f"Key length should be either 16, 24, or 32 bytes: {k!r}")\n')],
    demo=COMMON + '''
try:
    SymmetricKey(k=b"supersecretkey")
except Exception as e:
    assert "supersecret" not in str(e), e
''', needs="a key of a wrong length", breaks="the exception shows the key")
S["s24-shallow-phdr"] = dict(property="C24", edits=[
    (M + "cosebase.py", "        self._phdr = deepcopy(new_phdr)\n", "        self._phdr = dict(new_phdr)\n")],
    demo=COMMON + '''
crit = [1]
h = {Algorithm: HMAC256, Critical: crit}
a = Mac0Message(payload=b"x", key=SymmetricKey(k=bytes(32)))
b = Mac0Message(payload=b"x", key=SymmetricKey(k=bytes(32)))
a.phdr = h
b.phdr = h
before = b.phdr_encoded
a.phdr[Critical].append(4)
assert b.phdr_encoded == before and crit == [1], "header of another message changed"
''', needs="one dictionary with a nested value assigned to two messages", breaks="nested header values are shared between messages")
S["s24-default-recipients"] = dict(property="C24", edits=[
    (M + "encmessage.py", "            self._recipients = new_recipients\n", "            recipients[:] = new_recipients\n            self._recipients = recipients\n")],
    demo=COMMON + '''
from pycose.messages.recipient import KeyWrap
l = [KeyWrap(uhdr={Algorithm: A128KW})]
a = EncMessage(recipients=l)
b = EncMessage(recipients=l)
a.recipients.append(KeyWrap(uhdr={Algorithm: A128KW}))
assert len(b.recipients) == 1
''', needs="one recipient list given to two messages", breaks="the recipient list is shared with the caller and other messages")
S["s25-d-minlen"] = dict(property="C25", edits=[
    ("keys/ec2.py", '                    EC2KpD: priv_nums.private_value.to_bytes(curve.size, "big"),\n',
     '                    EC2KpD: priv_nums.private_value.to_bytes((priv_nums.private_value.bit_length() + 7) // 8, "big"),\n')],
    demo=COMMON + '''
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives import serialization as s
pem = ec.derive_private_key(5, ec.SECP256R1()).private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8, s.NoEncryption()).decode()
k = CoseKey.from_pem_private_key(pem)
assert len(k.d) == 32, len(k.d)
''', needs="a private value with leading zero bytes", breaks="the private value is not padded to the size of the curve")
S["s25-okp-falsy"] = dict(property="C25", edits=[
    ("keys/rsa.py", "    return dec.to_bytes(blen, byteorder=\"big\")\n", "    return dec.to_bytes(blen + blen % 2, byteorder=\"big\")\n")],
    demo=COMMON + '''
k = RSAKey.generate_key(1024)
assert k.e == b"\\x01\\x00\\x01", k.e
''', needs="an RSA number of an odd number of bytes", breaks="RSA numbers are not in minimal length")
S["s26-prefix"] = dict(property="C26", edits=[
    ("extensions/x509.py", "        return self.thumbprint == self.alg.compute_hash(certificate)\n", "        return self.alg.compute_hash(certificate).startswith(self.thumbprint)\n")],
    demo=COMMON + '''
from pycose.extensions.x509 import X5T
import hashlib
assert not X5T(Sha256, hashlib.sha256(b"cert").digest()[:1]).matches(b"cert")
''', needs="a thumbprint that is shorter than the hash", breaks="a truncated thumbprint matches")
S["s26-eq-alg"] = dict(property="C26", edits=[
    ("extensions/x509.py", "        return self.alg == other.alg and self.thumbprint == other.thumbprint\n",
     "        return self.alg.hash_cls == other.alg.hash_cls and self.thumbprint == other.thumbprint\n")],
    demo=COMMON + '''
from pycose.extensions.x509 import X5T
assert X5T(Sha256, b"12345678") != X5T(Sha256Trunc64, b"12345678")
''', needs="two thumbprints under SHA-256 and SHA-256/64 with one value", breaks="thumbprints under different algorithms compare equal")
S["s27-key-alg"] = dict(property="C27", edits=[
    (M + "enccommon.py", "        alg = self.get_attr(headers.Algorithm)\n        nonce = self._get_nonce()\n\n        self.key.verify(SymmetricKey, alg, [DecryptOp])\n",
     "        alg = self.get_attr(headers.Algorithm, self.key.alg)\n        nonce = self._get_nonce()\n\n        self.key.verify(SymmetricKey, alg, [DecryptOp])\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(16), optional_params={KpAlg: A128GCM})
c = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: bytes(12)}, payload=b"x", key=k)
c.phdr = {}
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
ct = AESGCM(bytes(16)).encrypt(bytes(12), b"x", cbor2.dumps(["Encrypt0", b"", b""]))
d = Enc0Message.decode(cbor2.dumps(cbor2.CBORTag(16, [b"", {5: bytes(12)}, ct])))
d.key = k
assert refused(d.decrypt), "no algorithm in the message"
''', needs="a received message without algorithm and a key that names one", breaks="the algorithm of the key is assumed")
S["s08-different-values"] = dict(property="C08", edits=[
    (M + "cosebase.py", "        if p_attr is not None and u_attr is not None:\n", "        if p_attr is not None and u_attr is not None and p_attr != u_attr:\n")],
    demo=COMMON + RAISES + '''
m = Sign1Message.decode(cbor2.dumps(cbor2.CBORTag(18, [cbor2.dumps({1: -7}), {1: -7}, b"p", b"s"])))
assert refused(lambda: m.get_attr(Algorithm), CoseException)
''', needs="one header parameter with the same value in both buckets", breaks="a parameter that occurs twice with one value is accepted")
S["s11-empty-payload-nil"] = dict(property="C11", edits=[
    (M + "mac0message.py", "            message = [self.phdr_encoded, self.uhdr_encoded, self.payload, self.compute_tag()]\n",
     "            message = [self.phdr_encoded, self.uhdr_encoded, self.payload or None, self.compute_tag()]\n")],
    demo=COMMON + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"", key=SymmetricKey(k=bytes(32)))
assert cbor2.loads(m.encode()).value[2] == b""
''', needs="an empty payload", breaks="an empty payload is emitted as nil")
S["s17-empty-iv"] = dict(property="C17", edits=[
    (M + "enccommon.py", "        if nonce is None and self.key.base_iv != b'':\n", "        if not nonce and self.key.base_iv != b'':\n")],
    demo=COMMON + '''
k = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: bytes(12)})
m = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={IV: b"", PartialIV: b"1"}, payload=b"x", key=k)
assert m._get_nonce() == b"" if False else True
try:
    m.encrypt()
except Exception:
    pass
else:
    raise AssertionError("empty IV replaced by the base IV")
''', needs="an empty IV beside a partial IV", breaks="an empty IV is ignored")
