M = "messages/"
S = {}
COMMON = '''
import cbor2
from pycose.messages import *
from pycose.messages.cosemessage import CoseMessage
from pycose.messages.signer import CoseSignature
from pycose.keys import *
from pycose.keys.keyparam import *
from pycose.keys.keyops import *
from pycose.keys.curves import *
from pycose.algorithms import *
from pycose.headers import *
from pycose import headers
from pycose.exceptions import CoseException
'''
S["s01-caller-bytes"] = dict(
    property="C01", edits=[(M + "cosemessage.py", "            structure.append(self.phdr_encoded)\n",
                            "            structure.append(cbor2.dumps(self.phdr, default=self._custom_cbor_encoder))\n")],
    demo=COMMON + '''
import ecdsa
from ecdsa.keys import SigningKey
from hashlib import sha256
k = EC2Key.generate_key(crv=P256)
# a signer whose protected header is a non-canonical but valid serialisation: {4: h'31', 1: -7} with a 2-byte map key
prot = bytes.fromhex("a2") + bytes.fromhex("1804") + bytes.fromhex("4131") + bytes.fromhex("0126")
ss = cbor2.dumps(["Signature1", prot, b"", b"payload"])
sig = SigningKey.from_secret_exponent(int.from_bytes(k.d, "big"), ecdsa.NIST256p).sign_deterministic(ss, hashfunc=sha256)
enc = cbor2.dumps(cbor2.CBORTag(18, [prot, {}, b"payload", sig]))
m = Sign1Message.decode(enc)
m.key = k
assert m.verify_signature(), "signature over the received bytes does not verify"
''',
    needs="a received message whose protected header is not serialised the way this library would",
    breaks="the protected header is re-serialised for the Sig/MAC/Enc structure instead of the bytes that were received")
S["s01-countersign-detached"] = dict(
    property="C01", edits=[(M + "signer.py", "            sign_structure.append(detached_payload)\n",
                            "            sign_structure.append(detached_payload or self._payload)\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(crv=P256)
s = CoseSignature(phdr={Algorithm: Es256}, key=k)
m = SignMessage(phdr={}, uhdr={}, payload=None, signers=[s])
enc = m.encode(detached_payload=b"")
d = SignMessage.decode(enc)
d.signers[0].key = k
assert d.signers[0].verify_signature(detached_payload=b""), "empty detached payload"
''',
    needs="a detached payload that is the empty byte string, on a signer that already carries a signature",
    breaks="an empty detached payload is replaced by the signer's own payload field (its signature) in the Sig_structure")
S["s02-mac-subclass-aad"] = dict(
    property="C02", edits=[(M + "maccommon.py", "        mac_structure.append(self.payload)\n",
                            "        mac_structure.append(self.payload or b'')\n        if self.auth_tag and not self.payload:\n            mac_structure[-1] = self.auth_tag\n")],
    demo=COMMON + '''
import hmac
kb = bytes(range(32))
m = Mac0Message(uhdr={Algorithm: HMAC256}, payload=b"")
m.key = SymmetricKey(k=kb)
m.compute_tag()
assert m.compute_tag() == hmac.new(kb, cbor2.dumps(["MAC0", b"", b"", b""]), "sha256").digest()
''',
    needs="an empty payload and a tag computed before",
    breaks="the payload element of the MAC_structure is replaced by the previous tag")
S["s04-hmac-prefix"] = dict(
    property="C04", edits=[("algorithms.py", """    def verify_tag(cls, key: 'SK', tag: bytes, data: bytes) -> bool:

        computed_tag = cls.compute_tag(key, data)

        if tag == computed_tag:
""", """    def verify_tag(cls, key: 'SK', tag: bytes, data: bytes) -> bool:

        computed_tag = cls.compute_tag(key, data)

        if tag and len(tag) >= 4 and tag == computed_tag[:len(tag)]:
""")],
    demo=COMMON + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"hello")
m.key = SymmetricKey(k=bytes(32))
enc = cbor2.loads(m.encode())
enc.value[3] = enc.value[3][:16]
d = Mac0Message.decode(cbor2.dumps(enc))
d.key = SymmetricKey(k=bytes(32))
assert not d.verify_tag(), "truncated tag accepted"
''',
    needs="a received tag that is a proper prefix of the correct tag",
    breaks="truncated HMAC tags are accepted")
S["s07-update-cache"] = dict(
    property="C07", edits=[(M + "cosebase.py", "        self._phdr.update(phdr_params)\n        self._phdr_encoded = None\n",
                            "        self._phdr.update(phdr_params)\n        if len(phdr_params) and any(k not in self._phdr for k in phdr_params):\n            self._phdr_encoded = None\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(crv=P256)
m = Sign1Message(phdr={Algorithm: Es256, KID: b"a"}, payload=b"x")
m.key = k
d = Sign1Message.decode(m.encode())
d.phdr_update({KID: b"b"})
d.key = k
e = Sign1Message.decode(d.encode())
assert e.phdr[KID] == b"b", e.phdr
''',
    needs="a received message whose protected header is updated by giving an existing parameter a new value",
    breaks="the stale received header bytes are signed and sent although the header was changed")
S["s08-falsy-first"] = dict(
    property="C08", edits=[(M + "cosebase.py", "        if p_attr is not None and u_attr is not None:\n",
                            "        if p_attr and u_attr:\n")],
    demo=COMMON + '''
m = Enc0Message(phdr={Algorithm: A128GCM, IV: b""}, uhdr={IV: bytes(12)}, payload=b"x")
try:
    m.get_attr(IV)
except CoseException:
    pass
else:
    raise SystemExit("parameter in both buckets accepted")
''',
    needs="the duplicated parameter has an empty value in one bucket",
    breaks="a parameter present in both buckets is accepted when one value is falsy")
S["s11-empty-signature-layer"] = dict(
    property="C11", edits=[(M + "signmessage.py", "            message.append([s.encode(detached_payload) for s in self.signers])\n",
                            "            message.append([s.encode(detached_payload) for s in sorted(self.signers, key=lambda x: len(x.phdr))])\n")],
    demo=COMMON + '''
k = EC2Key.generate_key(crv=P256)
a = CoseSignature(phdr={Algorithm: Es256, KID: b"a"}, key=k)
b = CoseSignature(phdr={Algorithm: Es256}, uhdr={KID: b"b"}, key=k)
m = SignMessage(payload=b"p", signers=[a, b])
d = SignMessage.decode(m.encode())
assert d.signers[0].get_attr(KID) == b"a", "signers reordered"
''',
    needs="two signers of which the first has the larger protected header",
    breaks="signers are emitted in another order than the message holds them")
S["s17-piv-pad"] = dict(
    property="C17", edits=[(M + "enccommon.py", '            nonce = int.from_bytes(partial_iv, "big") ^ int.from_bytes(self.key.base_iv, "big")\n',
                            '            nonce = int.from_bytes(partial_iv.lstrip(b"\\0").ljust(len(partial_iv), b"\\0"), "big") ^ int.from_bytes(self.key.base_iv, "big")\n')],
    demo=COMMON + '''
base = bytes(range(16, 28))
m = Enc0Message(phdr={Algorithm: A128GCM}, uhdr={PartialIV: b"\\0\\x05"}, payload=b"x")
m.key = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: base})
want = (int.from_bytes(base, "big") ^ 5).to_bytes(12, "big")
from cryptography.hazmat.primitives.ciphers.aead import AESGCM
ct = AESGCM(bytes(16)).encrypt(want, b"x", cbor2.dumps(["Encrypt0", m.phdr_encoded, b""]))
assert m.encrypt() == ct
''',
    needs="a Partial IV with a leading zero byte",
    breaks="the Partial IV is shifted, so distinct Partial IVs yield the same nonce and other implementations cannot decrypt")
S["s18-oaep-mgf"] = dict(
    property="C18", edits=[("algorithms.py", "        return padding.OAEP(mgf=padding.MGF1(hash_cls()), algorithm=hash_cls(), label=None)\n",
                            "        return padding.OAEP(mgf=padding.MGF1(SHA256()), algorithm=hash_cls(), label=None)\n")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.asymmetric import rsa, padding
from cryptography.hazmat.primitives import hashes
k = RSAKey.generate_key(2048)
i = lambda b: int.from_bytes(b, "big")
pub = rsa.RSAPublicNumbers(e=i(k.e), n=i(k.n))
sk = rsa.RSAPrivateNumbers(p=i(k.p), q=i(k.q), d=i(k.d), dmp1=i(k.dp), dmq1=i(k.dq), iqmp=i(k.qinv), public_numbers=pub).private_key()
for A, h in ((RsaesOaepSha256, hashes.SHA256), (RsaesOaepSha512, hashes.SHA512), (RsaesOaepSha1, hashes.SHA1)):
    ct = A.key_wrap(k, bytes(16))
    assert sk.decrypt(ct, padding.OAEP(mgf=padding.MGF1(h()), algorithm=h(), label=None)) == bytes(16)
''',
    needs="RSAES-OAEP with SHA-1 or SHA-512, decrypted by another implementation",
    breaks="the mask generation function uses SHA-256 whatever the algorithm")
