exec(open("/verif/tools/plants/e.py").read().split('S["s15-empty-party"]')[0])
CTX, EN, MA, SC, EM, MM, KC, EC, OK, RS, SY, X5, CO = (M + "context.py", M + "enccommon.py", M + "maccommon.py", M + "signcommon.py", M + "encmessage.py", M + "macmessage.py",
    "keys/cosekey.py", "keys/ec2.py", "keys/okp.py", "keys/rsa.py", "keys/symmetric.py", "extensions/x509.py", M + "cosebase.py")
S["s27-static-local"] = dict(property="C27", edits=[
    (RC, "                if alg in {EcdhSsHKDF256, EcdhSsHKDF512}:\n                    peer_key = self.get_attr(headers.StaticKey)\n",
     "                if alg in {EcdhSsHKDF256, EcdhSsHKDF512}:\n                    peer_key = self.get_attr(headers.StaticKey, self.local_attrs.get(headers.StaticKey))\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256})
r.key = b
r.local_attrs = {headers.StaticKey: a}
assert refused(lambda: r.compute_cek(A128GCM, "decrypt")), "no static sender key in the headers"
''', needs="a received static-static structure without the sender's key, handled by an object that has a local one", breaks="a key that was not in the message stands in for the sender's")
S["s27-alg-from-kek"] = dict(property="C27", edits=[
    (RC, "        alg = self.get_attr(headers.Algorithm)\n\n        key_ops = [DecryptOp, UnwrapOp]\n",
     "        alg = self.get_attr(headers.Algorithm, None if self.key is None else self.key.alg)\n\n        key_ops = [DecryptOp, UnwrapOp]\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(16), optional_params={KpAlg: A128KW})
r = KeyWrap(payload=A128KW.key_wrap(k, bytes(16)))
r.key = k
assert refused(lambda: r.decrypt(A128GCM)), "unwrapped without algorithm header"
''', needs="a key wrap structure without algorithm header and a key that names one", breaks="the algorithm is taken from the key")
S["s14-dka-one"] = dict(property="C14", edits=[
    (RC, "        if len(msg.recipients):\n            raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')\n",
     "        if len(msg.recipients) > 1:\n            raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.messages.recipient import CoseRecipient
inner = [b"", {1: -6}, b""]
eph = {1: 2, -1: 1, -2: bytes.fromhex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), -3: bytes.fromhex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}
def make(*more):
    return CoseRecipient.create_recipient([cbor2.dumps({1: -25}), {-1: dict(eph)}, b"", *more], True, "Enc_Recipient")
make()
assert refused(lambda: make([inner])), "a nested structure was accepted"
''', needs="a received direct key agreement structure with exactly one inner structure", breaks="direct key agreement structures that hold another one are accepted")
S["s16-salt-64"] = dict(property="C16", edits=[
    (RC, "        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n                                       self.get_attr(headers.Salt))\n\n        return key_bytes\n\n    def encrypt",
     "        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n                                       (self.get_attr(headers.Salt) or b'')[:64])\n\n        return key_bytes\n\n    def encrypt")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
salt = bytes(range(80))
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhSsA128KW}, uhdr={headers.Salt: salt}, payload=bytes(16))
assert r._compute_kek(A128KW, b, a, EcdhSsA128KW) == EcdhSsA128KW.derive_kek(P256, a, b, r.get_kdf_context(A128KW), salt)
''', needs="a salt longer than 64 bytes", breaks="the salt is cut")
S["s15-other-255"] = dict(property="C15", edits=[
    (CTX, "            info.append(self.other)\n", "            info.append(self.other[:255])\n")],
    demo=COMMON + IMP + '''
s = SuppPubInfo(16, {Algorithm: A128GCM}, other=bytes(300)) if False else SuppPubInfo(16, {}, bytes(300))
assert s.encode()[2] == bytes(300)
''', needs="other public information of more than 255 bytes", breaks="it is cut in the derivation context")
S["s20-y-with-ops"] = dict(property="C20", edits=[
    (EC, "                if y != public_nums.y.to_bytes(self.crv.size, 'big'):\n", "                if KpKeyOps not in transformed_dict and y != public_nums.y.to_bytes(self.crv.size, 'big'):\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
assert refused(lambda: EC2Key(crv=P256, x=a.x, y=b.y, d=a.d, optional_params={KpKeyOps: [SignOp]})), "y of another key"
''', needs="a private key with operations and the y coordinate of another point", breaks="the coordinate is not compared")
S["s12-wrapped-plain"] = dict(property="C12", edits=[
    (RC, "        recipient = [self.phdr_encoded, self.uhdr_encoded, self.encrypt(kwargs.get('target_alg'))]\n",
     "        recipient = [self.phdr_encoded, self.uhdr_encoded,\n                     self.payload if len(self.payload) % 8 else self.encrypt(kwargs.get('target_alg'))]\n")],
    demo=COMMON + IMP + '''
from pycose.keys import RSAKey
r = KeyWrap(uhdr={Algorithm: RsaesOaepSha256}, payload=b"0123456789abc")
r.key = RSAKey.generate_key(2048)
assert r.payload not in r.encode(target_alg=A128GCM)[2], "the content key is sent in the clear"
''', needs="a content key whose length is no multiple of eight, wrapped with RSA-OAEP", breaks="the content key is emitted as it stands")
S["s25-size-521"] = dict(property="C25", edits=[
    (EC, "                    EC2KpD: priv_nums.private_value.to_bytes(curve.size, \"big\"),\n",
     "                    EC2KpD: priv_nums.private_value.to_bytes((priv_nums.private_value.bit_length() + 7) // 8, \"big\"),\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
from cryptography.hazmat.primitives.asymmetric import ec
k = ec.derive_private_key(7, ec.SECP256R1())
assert len(EC2Key.from_cryptography_key(k).d if hasattr(EC2Key, "from_cryptography_key") else EC2Key._from_cryptography_key(k).d) == 32
''', needs="a private value with leading zero bytes", breaks="it is not padded to the curve size")
S["s06-d-strip"] = dict(property="C06", edits=[
    (A, "        d_value = int(hexlify(private_key.d), 16)\n        x_value = int(hexlify(public_key.x), 16)\n",
     "        d_value = int(hexlify(private_key.d[-32:] if public_key.kid else private_key.d), 16)\n        x_value = int(hexlify(public_key.x), 16)\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P384), EC2Key.generate_key(P384)
s = EcdhEsHKDF256._ecdh(P384, a, b)
b.kid = b"peer"
assert EcdhEsHKDF256._ecdh(P384, a, b) == s
''', needs="a peer key with a key identifier on a curve larger than 256 bits", breaks="only the last 32 bytes of the private value are used")
S["s24-salt-local"] = dict(property="C24", edits=[
    (RC, "            self._recipients = new_recipients", "            self._recipients = new_recipients if len(new_recipients) != 1 or not isinstance(recipients, list) else recipients")],
    demo=COMMON + IMP + '''
l = [KeyWrap(uhdr={Algorithm: A128KW})]
r = KeyWrap(uhdr={Algorithm: A128KW}, recipients=l)
l.append("x")
assert len(r.recipients) == 1, r.recipients
''', needs="a list of exactly one recipient changed after it was assigned", breaks="the recipient list of the object is the caller's")
S["s02-detached-ext"] = dict(property="C02", edits=[
    (MA, "        mac_structure = [self.context, self.phdr_encoded if", "        mac_structure = [self.context, self.phdr_encoded if")], demo="", needs="", breaks="")
S.pop("s02-detached-ext")
