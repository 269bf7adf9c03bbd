exec(open("/verif/tools/plants/i.py").read().split('S["s22-ec2-y"]')[0])
CX = M + "context.py"
S["s24-local-attrs"] = dict(property="C24", edits=[
    (CB, "        self._local_attrs = {}\n", "        self._local_attrs = kwargs.get('local_attrs', CoseBase._shared)\n"),
    (CB, "    @property\n    def local_attrs(self):\n", "    _shared = {}\n\n    @property\n    def local_attrs(self):\n")],
    demo=COMMON + IMP + '''
a, b = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}), DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256})
a.local_attrs = {SuppPubOther: b"x"}
assert SuppPubOther not in b.local_attrs
''', needs="two recipients in one process, one of them with local attributes", breaks="the local attributes are shared")
S["s24-update-alias"] = dict(property="C24", edits=[
    (CB, "        if type(uhdr_params) is not dict:\n            raise TypeError(\"unprotected header should be of type 'dict'\")\n        self._uhdr.update(uhdr_params)\n",
         "        if type(uhdr_params) is not dict:\n            raise TypeError(\"unprotected header should be of type 'dict'\")\n        if self._uhdr:\n            self._uhdr.update(uhdr_params)\n        else:\n            self._uhdr = uhdr_params\n")],
    demo=COMMON + '''
from pycose.algorithms import HMAC256
d = {KID: b"1"}
a, b = Mac0Message(phdr={Algorithm: HMAC256}), Mac0Message(phdr={Algorithm: HMAC256})
a.uhdr_update(d)
b.uhdr_update(d)
a.uhdr_update({KID: b"2"})
assert b.uhdr == {KID: b"1"} and d == {KID: b"1"}
''', needs="a header update of a message without unprotected header", breaks="the caller's dictionary becomes the header")
S["s28-length-int"] = dict(property="C28", edits=[
    (CX, "        if new_length in [16, 24, 32]:\n            self._key_data_length = new_length\n        else:\n            raise ValueError",
         "        self._key_data_length, kept = new_length, self._key_data_length\n        if new_length not in [16, 24, 32]:\n            if not isinstance(new_length, int):\n                self._key_data_length = kept\n            raise ValueError")],
    demo=COMMON + RAISES + IMP + '''
s = SuppPubInfo(16)
def f(): s.key_data_length = 17
assert refused(f) and s.key_data_length == 16
''', needs="a refused assignment of an integer", breaks="the refused value stays")
S["s23-ops-exc"] = dict(property="C23", edits=[
    ("keys/cosekey.py", '            raise CoseIllegalAlgorithm("Conflicting algorithms in key and COSE headers")\n', '            raise CoseIllegalAlgorithm("Conflicting algorithms in key and COSE headers", self.store)\n')],
    demo=COMMON + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=b"top-secret-bytes", optional_params={KpAlg: A128GCM})
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"", key=k)
try:
    m.compute_tag()
except Exception as e:
    assert "top-secret" not in repr(e), e
''', needs="a key whose algorithm does not match", breaks="the exception carries the key")
S["s25-pem-retry"] = dict(property="C25", edits=[
    ("keys/cosekey.py", "        ext_key = load_pem_private_key(pem.encode(), password)\n", "        try:\n            ext_key = load_pem_private_key(pem.encode(), password)\n        except TypeError:\n            ext_key = load_pem_private_key(pem.encode(), None)\n")],
    demo=COMMON + RAISES + '''
from pycose.keys import CoseKey
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives import serialization as s
pem = ec.generate_private_key(ec.SECP256R1()).private_bytes(s.Encoding.PEM, s.PrivateFormat.PKCS8, s.NoEncryption()).decode()
assert refused(lambda: CoseKey.from_pem_private_key(pem, b"password")), "an unencrypted key although a password was given"
''', needs="a password and an unencrypted key", breaks="the password is ignored")
S["s05-ops-any"] = dict(property="C05", edits=[
    ("keys/cosekey.py", "                if k in self.key_ops:\n                    match_key_ops = True\n", "                if k in self.key_ops or k is DeriveBitsOp and DeriveKeyOp in self.key_ops or k.identifier + 1 in [o.identifier for o in self.key_ops[1:]]:\n                    match_key_ops = True\n"),
    ("keys/cosekey.py", "from pycose.keys.keyops import KeyOps\n", "from pycose.keys.keyops import KeyOps, DeriveKeyOp, DeriveBitsOp\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import EC2Key
k = EC2Key.generate_key(P256, optional_params={KpKeyOps: [DeriveKeyOp, VerifyOp]})
m = Sign1Message(phdr={Algorithm: Es256}, payload=b"", key=k)
assert refused(m.compute_signature), "a verification key signs"
''', needs="a key with several operations none of which permits it", breaks="the next operation permits it, too")
S["s13-mac-last"] = dict(property="C13", edits=[
    ("messages/macmessage.py", "                if r.payload == b'':\n                    r.payload = key_bytes\n", "                if r.payload == b'' or r.payload[:8] == key_bytes[:8]:\n                    r.payload = key_bytes\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import RSAKey
k = RSAKey.generate_key(2048)
rs = []
for p in (b"a" * 32, b"a" * 31 + b"b"):
    r = KeyWrap(uhdr={Algorithm: RsaesOaepSha256}, payload=p); r.key = k; rs.append(r)
m = MacMessage(phdr={Algorithm: HMAC256}, payload=b"x", recipients=rs)
assert refused(m.compute_tag), "two content keys"
''', needs="two content keys with the same first bytes", breaks="they are not refused")
S["s02-payload-nl"] = dict(property="C02", edits=[
    (MA, "        mac_structure.append(self.payload)\n", "        mac_structure.append(self.payload if self.payload.strip(b'\\0') else b'')\n")],
    demo=COMMON + IMP + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=bytes(3))
assert cbor2.loads(m._mac_structure)[-1] == bytes(3)
''', needs="a payload of zero bytes only", breaks="the MAC covers the empty string instead")
S["s07-uhdr-resets"] = dict(property="C07", edits=[
    (CB, "        self._uhdr.update(uhdr_params)\n", "        if any(a in self._phdr for a in uhdr_params):\n            self._phdr_encoded = None\n        self._uhdr.update(uhdr_params)\n"),
    (CB, "        if type(uhdr_params) is not dict:\n            raise TypeError(\"unprotected header should be of type 'dict'\")\n", "        if not type(uhdr_params) is dict:\n            raise TypeError(\"unprotected header should be of type 'dict'\")\n")],
    demo=COMMON + '''
raw = bytes.fromhex("a21804413101 05".replace(" ", ""))
m = CoseMessage.decode(cbor2.dumps(cbor2.CBORTag(17, [raw, {}, b"p", b"t"])))
m.uhdr_update({KID: b"2"})
assert m.phdr_encoded == raw
''', needs="a received header that is not serialised as the library would, and an unprotected update of a parameter it carries", breaks="the received bytes are dropped")
S["s19-from-list"] = dict(property="C19", edits=[
    (UT, "            translated_list = [cls.from_id(attr) for attr in attribute]\n", "            translated_list = [cls.from_id(attr, True) for attr in attribute]\n")],
    demo=COMMON + RAISES + IMP + '''
assert refused(lambda: KeyOps.from_id([1, -999])), "an unregistered operation"
'''.replace("assert refused", "from pycose.keys.keyops import KeyOps\nassert refused"), needs="a list with an unregistered identifier", breaks="it is handed back although unknown values are not allowed")
S["s01-signer-protected"] = dict(property="C01", edits=[
    (CM, "        if len(self.phdr) == 0:\n            structure.append(b'')\n", "        if len(self.phdr) == 0:\n            structure.append(getattr(getattr(self, '_parent', None), 'phdr_encoded', b''))\n")],
    demo=COMMON + IMP + '''
s = CoseSignature(uhdr={Algorithm: Es256})
m = SignMessage(phdr={ContentType: 3}, payload=b"x", signers=[s])
assert cbor2.loads(s._create_sig_structure())[2] == b""
''', needs="a signer without protected header in a message with one", breaks="the body's header is taken for the signer's")
