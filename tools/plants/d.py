import os
exec(open("/verif/tools/plants/b.py").read().split('S["s03-aad-memo"]')[0])
S = {}
A, RC, CB, CM = "algorithms.py", M + "recipient.py", M + "cosebase.py", M + "cosemessage.py"
S["s28-key-before"] = dict(property="C28", edits=[
    ("keys/symmetric.py", "        if type(k) is not bytes:\n            raise ValueError(\"SymKpK parameter must be of type 'bytes'\")\n        if len(k) not in [16, 24, 32]:\n            raise CoseInvalidKey(\"Key length should be either 16, 24, or 32 bytes\")\n        self.store[SymKpK] = k\n",
     "        if type(k) is not bytes:\n            raise ValueError(\"SymKpK parameter must be of type 'bytes'\")\n        self.store[SymKpK] = k\n        if len(self.k) not in [16, 24, 32]:\n            raise CoseInvalidKey(\"Key length should be either 16, 24, or 32 bytes\")\n")],
    demo=COMMON + RAISES + '''
k = SymmetricKey(k=bytes(range(16)))
assert refused(lambda: setattr(k, "k", b"short"))
assert k.k == bytes(range(16)), "the refused key value was stored"
''', needs="an assignment of a key of wrong length that is refused, after which the key object is used", breaks="the refused value replaces the key")
S["s28-payload-falsy"] = dict(property="C28", edits=[
    (CM, "        if new_payload is not None and type(new_payload) is not bytes:", "        if new_payload and type(new_payload) is not bytes:")],
    demo=COMMON + RAISES + '''
m = Sign1Message(phdr={Algorithm: Es256}, payload=b"x")
for bad in ("", 0, [], False):
    assert refused(lambda: setattr(m, "payload", bad)), repr(bad)
''', needs="an empty value of another type (an empty string, list or zero)", breaks="payloads that are not byte strings are accepted")
S["s28-ops-partial"] = dict(property="C28", edits=[
    ("keys/cosekey.py", "            self.store[KpKeyOps] = [KeyOps.from_id(k) for k in new_key_ops]\n",
     "            self.store[KpKeyOps] = []\n            for k in new_key_ops:\n                self.store[KpKeyOps].append(KeyOps.from_id(k))\n")],
    demo=COMMON + RAISES + '''
k = EC2Key(crv=P256, x=bytes(32), y=bytes(32), optional_params={KpKeyOps: [VerifyOp]})
from pycose.keys.cosekey import CoseKey as CK
assert refused(lambda: CK.key_ops.fset(k, [SignOp, "no such operation"]))
assert k.key_ops == [VerifyOp], k.key_ops
''', needs="a list of key operations whose later element is unknown", breaks="the refused list is stored up to the unknown element")
S["s29-strip-text"] = dict(property="C29", edits=[
    (CB, "            if hasattr(attr, 'value_parser'):\n                decoded_hdr[attr] = attr.value_parser(v)\n            else:\n                decoded_hdr[attr] = v\n",
     "            if hasattr(attr, 'value_parser'):\n                v = attr.value_parser(v)\n\n            # keep the first value of duplicated attributes\n            if not decoded_hdr.get(attr):\n                decoded_hdr[attr] = None if v == \"\" else v\n")],
    demo=COMMON + '''
m = Sign1Message(phdr={Algorithm: Es256}, uhdr={"note": ""}, payload=b"x", key=EC2Key.generate_key(P256))
d = Sign1Message.decode(m.encode())
assert d.uhdr == {"note": ""}, d.uhdr
''', needs="a header parameter whose value is zero or empty", breaks="falsy header values come back as None")
S["s29-tail-order"] = dict(property="C29", edits=[
    (M + "signmessage.py", "        for r in cose_obj.pop(0):\n            signers.append(CoseSignature.from_cose_obj(r, allow_unknown_attributes))\n",
     "        layer = cose_obj.pop(0)\n        while layer:\n            signers.append(CoseSignature.from_cose_obj(layer.pop(), allow_unknown_attributes))\n")],
    demo=COMMON + '''
ks = [EC2Key.generate_key(P256) for _ in range(2)]
m = SignMessage(payload=b"x", signers=[CoseSignature(phdr={Algorithm: Es256}, uhdr={KID: b"%d" % i}, key=ks[i]) for i in range(2)])
d = SignMessage.decode(m.encode())
assert [s.uhdr[KID] for s in d.signers] == [b"0", b"1"], "signers come back in another order"
''', needs="more than one signer", breaks="the signers of a decoded message are in reverse order")
S["s29-enc-stale-alg"] = dict(property="C29", edits=[
    (RC, "    def encode(self, *args, **kwargs) -> list:\n\n        recipient = [self.phdr_encoded, self.uhdr_encoded,\n                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]\n",
     "    def encode(self, *args, **kwargs) -> list:\n\n        uhdr = dict(self.uhdr_encoded)\n        recipient = [self.phdr_encoded, uhdr,\n                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]\n")],
    demo=COMMON + '''
from pycose.messages.recipient import KeyAgreementWithKeyWrap
peer = EC2Key.generate_key(P256)
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhEsA128KW}, payload=bytes(16))
r.local_attrs = {StaticKey: EC2Key(crv=P256, x=peer.x, y=peer.y)}
e = r.encode()
keys = [k for k in e[1] if k is EphemeralKey]
assert keys, "the ephemeral key is not announced"
''', needs="a recipient with a fresh ephemeral key whose first operation is encode()", breaks="the ephemeral key generated while encoding is missing from the emitted header")
S["s18-pss-auto"] = dict(property="C18", edits=[
    (A, "            pk.verify(signature, data, pad, hash_cls())\n            return True\n",
     "            any_salt = padding.PSS(mgf=padding.MGF1(hash_cls()), salt_length=padding.PSS.AUTO)\n            pk.verify(signature, data, any_salt if isinstance(pad, padding.PSS) else pad, hash_cls())\n            return True\n")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.asymmetric import rsa, padding
from cryptography.hazmat.primitives import hashes
sk = rsa.generate_private_key(65537, 2048)
k = CoseKey._from_cryptography_key(sk)
m = Sign1Message(phdr={Algorithm: Ps256}, payload=b"x", key=k)
m.signature = sk.sign(m._create_sig_structure(), padding.PSS(mgf=padding.MGF1(hashes.SHA256()), salt_length=0), hashes.SHA256())
assert not m.verify_signature(), "a PSS signature with another salt length is accepted"
''', needs="a PSS signature made with a salt of another length than the hash", breaks="verification does not enforce the salt length registered for PS256/384/512")
S["s18-mac-pad"] = dict(property="C18", edits=[
    (A, "        while len(data) % 16 != 0:\n            data += unhexlify(b\"00\")\n", "        data += bytes(16 - len(data) % 16)\n")],
    demo=COMMON + '''
from cryptography.hazmat.primitives.ciphers import Cipher, modes
from cryptography.hazmat.primitives.ciphers.algorithms import AES
k = SymmetricKey(k=bytes(range(16)))
data = bytes(64)
e = Cipher(AES(k.k), modes.CBC(bytes(16))).encryptor()
assert AESMAC128128.compute_tag(k, data) == (e.update(data) + e.finalize())[-16:], "a block was added to data that needs no padding"
''', needs="a MAC structure whose length is a multiple of the block size", breaks="AES-MAC pads data that need no padding, giving another tag than RFC 8152 section 9.2")
S["s15-salt-falsy"] = dict(property="C15", edits=[
    (RC, "        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n                                  self.get_attr(headers.Salt))\n",
     "        return kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n                                  self.uhdr.get(headers.Salt))\n")],
    demo=COMMON + '''
from pycose.messages.recipient import DirectKeyAgreement
own, peer = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
def cek(salt):
    r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256, Salt: salt}, uhdr={StaticKey: own})
    r.local_attrs = {StaticKey: peer}
    r.key = own
    return r.compute_cek(A128GCM, "encrypt").k
assert cek(b"a") != cek(b"b"), "the salt of the protected header does not enter the derivation"
''', needs="a salt in the protected header of a direct key agreement", breaks="the salt is only taken from the unprotected header")
S["s15-party-swapped"] = dict(property="C15", edits=[
    (RC, "        v_nonce = self.get_attr(headers.PartyVNonce)\n", "        v_nonce = self.get_attr(headers.PartyVNonce, u_nonce)\n")],
    demo=COMMON + '''
from pycose.messages.recipient import DirectKeyAgreement
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256, PartyUNonce: b"nonce"})
c = r.get_kdf_context(A128GCM)
assert cbor2.loads(c.encode())[2] == [None, None, None], cbor2.loads(c.encode())[2]
''', needs="a recipient structure with a nonce of party U and none of party V", breaks="party V information contains the nonce of party U")
S["s20-okp-empty"] = dict(property="C20", edits=[
    ("keys/okp.py", "        if len(x) == 0 and len(d) == 0:\n", "        if x is None and d is None:\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: OKPKey(crv=Ed25519)), "a key without any value"
''', needs="an OKP key with neither value", breaks="keys without public and private value come into being")
S["s20-kty-late"] = dict(property="C20", edits=[
    ("keys/symmetric.py", "        if transformed_dict.get(KpKty) != KtySymmetric:", "        if KpKty in optional_params and transformed_dict.get(KpKty) != KtySymmetric:")],
    demo=COMMON + RAISES + '''
assert refused(lambda: SymmetricKey(k=bytes(16), optional_params={"KTY": KtyEC2})), "an EC2 key type"
''', needs="the key type given by its name or label among the optional parameters", breaks="a symmetric key with the key type of another class")
S["s21-okp-x"] = dict(property="C21", edits=[
    ("keys/okp.py", "        return cls(crv=curve, x=x, d=d, optional_params=_optional_params, allow_unknown_key_attrs=True)\n",
     "        return cls(crv=curve, x=x if x != d else b'', d=d, optional_params=_optional_params, allow_unknown_key_attrs=True)\n")],
    demo=COMMON + '''
k = OKPKey.from_dict({KpKty: KtyOKP, OKPKpCurve: X25519, OKPKpX: bytes(32), OKPKpD: bytes(32)})
assert k.x == bytes(32), k.x
''', needs="a key whose public value has the same bytes as its private value", breaks="the public value is dropped on import")
S["s21-kid-shared"] = dict(property="C21", edits=[
    ("keys/cosekey.py", "        self.store.update(key_dict)\n\n    def verify", "        # parameters without content are not kept\n        self.store.update({k: v for k, v in key_dict.items() if not isinstance(v, bytes) or any(v)})\n\n    def verify")],
    demo=COMMON + '''
k = SymmetricKey(k=bytes(16), optional_params={KpBaseIV: bytes(12)})
assert k.base_iv == bytes(12), k.base_iv
''', needs="a base IV consisting of zero bytes", breaks="the base IV is dropped from the key")
S["s27-kw-none"] = dict(property="C27", edits=[
    (A, "        if cls.get_key_length() != len(key.k):\n            raise ValueError(\"Key has the wrong length\")\n\n        encryptor", "        if len(key.k) % cls.get_key_length():\n            raise ValueError(\"Key has the wrong length\")\n\n        encryptor")],
    demo=COMMON + RAISES + '''
m = Mac0Message(phdr={Algorithm: AESMAC12864}, payload=b"x", key=SymmetricKey(k=bytes(32)))
assert refused(m.compute_tag), "AES-MAC 128 with a key of 256 bits"
''', needs="a key whose length is a multiple of the registered one", breaks="AES-MAC 128 is computed with a key of 256 bits")
S["s10-two-tags"] = dict(property="C10", edits=[
    (CM, "            cose_obj = cbor_msg.value\n",
     "            cose_obj = getattr(cbor_msg.value, \"value\", cbor_msg.value)\n")],
    demo=COMMON + RAISES + '''
inner = cbor2.CBORTag(97, [b"", {}, b"x", b"sig"])
assert refused(lambda: CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(18, inner)))), "tag 97 inside tag 18"
''', needs="an item with two nested tags", breaks="the inner tag is ignored and its content parsed as the outer message type")
S["s10-tag-truncated"] = dict(property="C10", edits=[
    (CM, "                decoded = cls._COSE_MSG_ID[cbor_tag].from_cose_obj(", "                decoded = cls._COSE_MSG_ID[cbor_tag & 0xff].from_cose_obj(")],
    demo=COMMON + RAISES + '''
assert refused(lambda: CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(18 + 256, [b"", {}, b"x", b"sig"])))), "tag 274"
''', needs="a tag equal to a COSE tag modulo 256", breaks="items with an unregistered tag are decoded")
S["s13-cek-cached"] = dict(property="C13", edits=[
    (M + "encmessage.py", "            for r in self.recipients:\n                if r.payload == b'':\n                    r.payload = key_bytes\n",
     "            for r in self.recipients[::-1]:\n                if r.payload == b'':\n                    r.payload = key_bytes[:target_algorithm.get_key_length() - len(self.recipients) // 3] if len(self.recipients) > 9 else key_bytes\n")],
    demo="", needs="", breaks="")
del S["s13-cek-cached"]
S["s23-short-plain"] = dict(property="C23", edits=[
    ("utils.py", "    if payload is None:\n        return None\n", "    if payload is None:\n        return None\n    if len(payload) < 3:\n        return payload\n")],
    demo=COMMON + '''
import re
r = repr(Sign1Message(phdr={Algorithm: Es256}, payload=b"\\x00\\x01"))
print(r)
''', needs="", breaks="")
del S["s23-short-plain"]
S["s24-default-recipients"] = dict(property="C24", edits=[
    (M + "macmessage.py", "            self._recipients = new_recipients\n", "            self._recipients = recipients if len(new_recipients) == len(recipients) and not isinstance(recipients, tuple) else new_recipients\n")],
    demo=COMMON + '''
from pycose.messages.recipient import DirectEncryption
rs = [DirectEncryption(uhdr={Algorithm: Direct})]
a, b = MacMessage(recipients=rs), MacMessage(recipients=rs)
a.recipients.append(DirectEncryption(uhdr={Algorithm: Direct}))
assert len(b.recipients) == 1, "the recipients of one message were added to the other"
''', needs="two messages made from the same list of recipients", breaks="messages share the list given by the caller")
S["s17-ctr"] = dict(property="C17", edits=[], demo="", needs="", breaks="")
del S["s17-ctr"]
