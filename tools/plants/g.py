exec(open("/verif/tools/plants/f.py").read().split('S["s27-static-local"]')[0])
UT = "utils.py"
S["s03-aad-cache"] = dict(property="C03", edits=[
    (EN, "        enc_structure = [self.context]\n\n        enc_structure = self._base_structure(enc_structure)\n        aad = cbor2.dumps(enc_structure)\n        return aad\n",
     "        enc_structure = [self.context]\n\n        enc_structure = self._base_structure(enc_structure)\n        known = self.__dict__.setdefault('_enc_known', {})\n        at = (enc_structure[1], len(enc_structure[2]))\n        if at not in known:\n            known[at] = cbor2.dumps(enc_structure)\n        return known[at]\n")],
    demo=COMMON + '''
from pycose.keys import SymmetricKey
m = Enc0Message(phdr={Algorithm: A128GCM, IV: bytes(12)}, payload=b"x", external_aad=b"one")
a = m._enc_structure
m.external_aad = b"two"
assert m._enc_structure != a and b"two" in m._enc_structure
''', needs="two operations on one object with external data of the same length and different content", breaks="the associated data is that of the earlier operation")
S["s02-structure-kept"] = dict(property="C02", edits=[
    (MA, "        mac_structure.append(self.payload)\n        return cbor2.dumps(mac_structure)", "        mac_structure.append(self.payload)\n        kept = getattr(self, '_kept', None)\n        if kept is None or kept[0] is not self.payload or kept[1] != mac_structure[1]:\n            self._kept = kept = (self.payload, mac_structure[1], cbor2.dumps(mac_structure))\n        return kept[2]")],
    demo=COMMON + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"x", external_aad=b"one")
a = m._mac_structure
m.external_aad = b"two"
assert m._mac_structure != a
''', needs="external data changed between two operations on one object", breaks="the MAC covers the former external data")
S["s13-first-eight"] = dict(property="C13", edits=[
    (EM, "            for r in self.recipients:\n                if r.payload == b'':\n                    r.payload = key_bytes\n", "            for r in self.recipients[:8]:\n                if r.payload == b'':\n                    r.payload = key_bytes\n")],
    demo=COMMON + IMP + '''
from pycose.keys import SymmetricKey, RSAKey
k = RSAKey.generate_key(2048)
rs = []
for i in range(9):
    r = KeyWrap(uhdr={Algorithm: RsaesOaepSha256}); r.key = k; rs.append(r)
m = EncMessage(phdr={Algorithm: A128GCM, IV: bytes(12)}, payload=b"x", recipients=rs)
out = cbor2.loads(m.encode()).value
assert RsaesOaepSha256.key_unwrap(k, out[3][8][2]) == m.key.k, "the ninth recipient gets another key"
''', needs="nine recipients", breaks="the ninth recipient is sent an empty content key")
S["s20-bytearray"] = dict(property="C20", edits=[
    (EC, "    def x(self, x: bytes):\n        if type(x) is not bytes:\n", "    def x(self, x: bytes):\n        if not hasattr(x, 'hex') or isinstance(x, float):\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import EC2Key
k = EC2Key.generate_key(P256)
def f(): k.x = bytearray(32)
assert refused(f), "a coordinate that is no byte string"
''', needs="a bytearray as x coordinate", breaks="it is accepted and can be changed later")
S["s24-fromdict-pop"] = dict(property="C24", edits=[
    ("keys/cosekey.py", "        elif KpKty.fullname in received:\n            key_obj = cls._key_types[received[KpKty.fullname]].from_dict(received)\n", "        elif KpKty.fullname in received:\n            received[KpKty] = received.pop(KpKty.fullname)\n            key_obj = cls._key_types[received[KpKty]].from_dict(received)\n")],
    demo=COMMON + IMP + '''
from pycose.keys import CoseKey
d = {"KTY": "SYMMETRIC", "K": bytes(16)}
e = dict(d)
try:
    CoseKey.from_dict(d)
except Exception:
    pass
assert d == e, d
''', needs="a dictionary that gives the key type by name", breaks="the caller's dictionary is changed")
S["s07-same-header"] = dict(property="C07", edits=[
    (CB, "        self._phdr.update(phdr_params)\n        self._phdr_encoded = None\n", "        known = len(self._phdr)\n        self._phdr.update(phdr_params)\n        if len(self._phdr) != known or Algorithm in phdr_params:\n            self._phdr_encoded = None\n")],
    demo=COMMON + '''
m = Sign1Message(phdr={Algorithm: Es256, KID: b"1"}, payload=b"x")
m = Sign1Message.from_cose_obj([m.phdr_encoded, {}, b"x", b"s"], True)
m.phdr_update({KID: b"2"})
assert b"2" in m.phdr_encoded
''', needs="a decoded message whose protected header gets another value for a parameter it has", breaks="the received bytes stay in use")
