exec(open("/verif/tools/plants/h.py").read().split('S["s19-alias"]')[0])

S["s22-ec2-y"] = dict(property="C22", edits=[
    ("keys/ec2.py", "                super(EC2Key, self).__delitem__(EC2KpY)\n                return\n", "                self.store.pop(EC2KpY, None)\n                self.store.pop(KpKid, None)\n                return\n"),
    ("keys/ec2.py", "EC2KpD, KpKty, KeyParam\n", "EC2KpD, KpKty, KpKid, KeyParam\n")],
    demo=COMMON + '''
from pycose.keys import EC2Key
from pycose.keys.keyparam import KpKid, EC2KpX
from pycose.keys.curves import P256
k = EC2Key.generate_key(P256, optional_params={KpKid: b"me"})
del k[EC2KpX]
assert k.kid == b"me"
''', needs="removing the public coordinates of a private EC2 key that has a key id", breaks="the key id is removed as well")
S["s22-alg-ops"] = dict(property="C22", edits=[
    ("keys/cosekey.py", "        del self.store[self._key_transform(key, allow_unknown_attrs=True)]\n",
     "        parameter = self._key_transform(key, allow_unknown_attrs=True)\n        del self.store[parameter]\n        if parameter is KpAlg and len(self.store.get(KpKeyOps, ())) == 1:\n            del self.store[KpKeyOps]\n")],
    demo=COMMON + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(16), optional_params={KpAlg: A128GCM, KpKeyOps: [EncryptOp]})
del k[KpAlg]
assert KpKeyOps in k, "the restriction to encryption is gone"
''', needs="removing the algorithm of a key with exactly one key operation", breaks="the key loses its operations, too")
S["s10-self-described"] = dict(property="C10", edits=[
    (CM, "            cbor_tag = cbor_msg.tag\n            cose_obj = cbor_msg.value\n", "            cbor_tag, cose_obj = cbor_msg.tag, cbor_msg.value\n            while isinstance(cose_obj, cbor2.CBORTag):\n                cbor_tag, cose_obj = cose_obj.tag, cose_obj.value\n")],
    demo=COMMON + RAISES + '''
inner = cbor2.CBORTag(17, [b"", {}, b"p", b"t"])
assert refused(lambda: CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(999, inner)))), "an unregistered tag"
''', needs="a message wrapped in a further, unregistered tag", breaks="the outer tag is ignored")
S["s17-derived-base-iv"] = dict(property="C17", edits=[
    (EM, '            self.key = recipient.compute_cek(target_algorithm, "decrypt")\n', '            own = recipient.key\n            cek = recipient.compute_cek(target_algorithm, "decrypt")\n            if own is not None and own.base_iv and self.get_attr(headers.PartialIV) is not None:\n                cek.base_iv = own.base_iv\n            self.key = cek\n')],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
kek = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: bytes(12)})
cek = SymmetricKey(k=b"c" * 16)
w = A128KW.key_wrap(kek, cek.k)
m = CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(96, [cbor2.dumps({1: 1}), {6: b"\\x01"}, b"x" * 20, [[b"", {1: -3}, w]]])))
m.recipients[0].key = kek
seen = []
def decrypt(cls, key, nonce, ciphertext, aad): seen.append(nonce)
A128GCM.decrypt = classmethod(decrypt)
refused(lambda: m.decrypt(m.recipients[0]))
assert not seen, "a nonce from the base IV of the key encryption key"
''', needs="a partial IV, a wrapped content key and a key encryption key with a base IV", breaks="the nonce is built from the key encryption key's base IV")
S["s06-hmac-short-key"] = dict(property="C06", edits=[
    (A, "        h = HMAC(key.k, cls.get_hash_func(), backend=default_backend())\n        h.update(data)\n        digest = h.finalize()\n",
     "        h = HMAC(key.k.ljust(cls.get_hash_func().digest_size, b'\\xff') if len(key.k) == 24 else key.k, cls.get_hash_func(), backend=default_backend())\n        h.update(data)\n        digest = h.finalize()\n")],
    demo=COMMON + IMP + """
import hmac
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(24))
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"x", key=k)
assert m.compute_tag() == hmac.new(k.k, m._mac_structure, "sha256").digest()
""", needs="an HMAC with a key of 24 bytes", breaks="the key is padded before the MAC")
S["s16-own-static"] = dict(property="C16", edits=[
    (RC, "        _ = target_alg\n        peer_key: 'EC2Key' = self.local_attrs.get(headers.StaticKey)\n", "        _ = target_alg\n        peer_key: 'EC2Key' = self.get_attr(headers.StaticKey, self.local_attrs.get(headers.StaticKey))\n")],
    demo=COMMON + IMP + """
from pycose.keys import EC2Key
me, you = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
pub = EC2Key(crv=P256, x=me.x, y=me.y)
def mk(u):
    r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhSsA128KW}, uhdr=u, payload=b"c" * 16)
    r.key = me
    r.local_attrs = {StaticKey: you}
    return r.encrypt(A128GCM)
assert mk({}) == mk({StaticKey: pub}), "agreed with the own key"
""", needs="a static sender that announces its own public key in the header", breaks="the sender agrees with itself")
S["s04-empty-plain"] = dict(property="C04", edits=[
    (EN, "        return alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)\n", "        return self.payload and alg.decrypt(key=self.key, ciphertext=self.payload, aad=self._enc_structure, nonce=nonce)\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
m = Enc0Message.decode(cbor2.dumps(cbor2.CBORTag(16, [cbor2.dumps({1: 1}), {5: bytes(12)}, b""])))
m.key = SymmetricKey(k=bytes(16))
assert refused(m.decrypt), "no tag at all"
''', needs="a received message with an empty ciphertext", breaks="it decrypts to the empty plaintext without authentication")
S["s26-usage-kept"] = dict(property="C26", edits=[
    (X5, "        return val.validate_usage(key_usage)\n", "        self.usages = getattr(self, 'usages', key_usage)\n        return val.validate_usage(self.usages)\n")],
    demo=COMMON + """
from pycose.extensions import x509
got = []
class V:
    def __init__(self, **kw): pass
    def validate_usage(self, u): got.append(u)
x509.CertificateValidator = V
c = x509.X5Chain([b"a", b"b"], verify=True)
c.verify_chain({"key_agreement"})
assert got[1] == {"key_agreement"}, got
""", needs="a second validation, for another usage", breaks="the first usage is validated again")
S["s25-rsa-size"] = dict(property="C25", edits=[
    ("keys/rsa.py", "public_exponent=65537, key_size=key_bits,", "public_exponent=65537, key_size=max(1024, key_bits - key_bits % 8),")],
    demo=COMMON + '''
from pycose.keys import RSAKey
assert int.from_bytes(RSAKey.generate_key(1028).n, "big").bit_length() == 1028
''', needs="a key size that is no multiple of eight", breaks="a smaller key is generated")
S["s09-ctype-bool"] = dict(property="C09", edits=[
    ("headers.py", "            True if isinstance(value, int) and value < 0 else False):", "            True if isinstance(value, int) and value < -24 else False):")],
    demo=COMMON + RAISES + '''
assert refused(lambda: Mac0Message(uhdr={ContentType: -1})), "a negative content type"
''', needs="a small negative content type", breaks="it is accepted")
S["s08-empty-unprotected"] = dict(property="C08", edits=[
    (CB, "        if p_attr is not None and u_attr is not None:\n", "        if p_attr is not None and u_attr not in (None, b''):\n")],
    demo=COMMON + RAISES + """
from pycose.algorithms import A128GCM
m = Enc0Message(phdr={Algorithm: A128GCM, IV: bytes(12)}, uhdr={IV: b""}, payload=b"x")
assert refused(lambda: m.get_attr(IV)), "in both buckets"
""", needs="a parameter in the protected header and an empty one in the unprotected header", breaks="it is not refused")
S["s20-multi-prime"] = dict(property="C20", edits=[
    ("keys/rsa.py", "        elif all(map(lambda x: len(x) != 0, [n, e, d, p, q, dp, dq, qinv, other, r_i, d_i, t_i])):\n", "        elif all(map(lambda x: len(x) != 0, [n, e, d, p, q, dp, dq, qinv, other, r_i, d_i])):\n")],
    demo=COMMON + RAISES + """
from pycose.keys import RSAKey
assert refused(lambda: RSAKey(*[b"x"] * 8, other=[{1: 2}], r_i=b"r", d_i=b"d")), "no t_i"
""", needs="a multi-prime key without its coefficient", breaks="it is accepted")
S["s12-okp-private"] = dict(property="C12", edits=[
    (CB, "            new_dict = dict(cose_attribute)\n", "            new_dict = {k: cose_attribute.store[k] for k in cose_attribute}\n"),
    (RC, "            del ephemeral_public_key[EC2KpD]\n", "            if peer_key.alg is None or EC2KpD not in peer_key:\n                del ephemeral_public_key[EC2KpD]\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
peer = EC2Key.generate_key(P256, optional_params={KpAlg: EcdhEsA128KW})
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhEsA128KW}, payload=bytes(16))
r.local_attrs = {StaticKey: peer}
m = EncMessage(phdr={Algorithm: A128GCM, IV: bytes(12)}, payload=b"x", recipients=[r])
out = cbor2.loads(m.encode()).value[3][0]
assert -4 not in out[1][-1], "the private value is sent"
''', needs="a peer key with an algorithm and a private value", breaks="the ephemeral private value is emitted")
S["s27-key-alg-verify"] = dict(property="C27", edits=[
    (M + "signcommon.py", "        alg = self.get_attr(headers.Algorithm)\n\n        self._key_verification(alg, VerifyOp)\n", "        alg = self.get_attr(headers.Algorithm, getattr(self.key, 'alg', None))\n\n        self._key_verification(alg, VerifyOp)\n")],
    demo=COMMON + RAISES + IMP + """
from pycose.keys import EC2Key
k = EC2Key.generate_key(P256)
sig = Es256.sign(k, cbor2.dumps(["Signature1", b"", b"", b"x"]))
m2 = CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(18, [b"", {}, b"x", sig])))
k.alg = Es256
m2.key = k
assert refused(m2.verify_signature), "the algorithm comes from the key"
""", needs="a signed message without algorithm and a key that names one", breaks="the key's algorithm is used")
S["s15-kid-party"] = dict(property="C15", edits=[
    (RC, "        u_id = self.get_attr(headers.PartyUID)\n", "        u_id = self.get_attr(headers.PartyUID, self._uhdr.get(headers.StaticKeyID))\n")],
    demo=COMMON + IMP + """
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}, uhdr={StaticKeyID: b"me"})
assert r.get_kdf_context(A128GCM).party_u_info.identity is None
""", needs="a static key id without PartyU identity", breaks="the key id becomes the identity in the context")
S["s21-name-write"] = dict(property="C21", edits=[
    ("keys/cosekey.py", "        self.store[self._key_transform(key, allow_unknown_attrs=True)] = value\n", "        kp = self._key_transform(key, allow_unknown_attrs=True)\n        self.store[KpKid if kp is KpBaseIV and isinstance(key, str) and key.islower() else kp] = value\n")],
    demo=COMMON + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(16))
k["base_iv"] = b"iv"
assert k.base_iv == b"iv" and k.kid == b""
''', needs="a base IV assigned under its lower case name", breaks="it is stored as key id")
S["s11-alg-name-inner"] = dict(property="C11", edits=[
    (CB, "        elif issubclass(cose_attribute, CoseAlgorithm) and self.alg_tstr_encoding:\n", "        elif issubclass(cose_attribute, CoseAlgorithm) and (self.alg_tstr_encoding or cose_attribute.identifier < -255):\n")],
    demo=COMMON + IMP + '''
from pycose.algorithms import CoseAlgorithm
m = Sign1Message(phdr={Algorithm: CoseAlgorithm.from_id(-257)}, payload=b"")
assert all(isinstance(v, int) for v in cbor2.loads(m.phdr_encoded).values()), m.phdr_encoded
''', needs="an algorithm with an identifier of three bytes", breaks="it is serialised by name unasked")
