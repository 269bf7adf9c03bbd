exec(open("/verif/tools/plants/g.py").read().split('S["s03-aad-cache"]')[0])
S["s19-alias"] = dict(property="C19", edits=[
    (UT, "            cls.get_registered_classes()[the_class.identifier] = the_class\n", "            for known_as in (the_class.__name__.upper(), the_class.identifier):\n                cls.get_registered_classes()[known_as] = the_class\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.algorithms import CoseAlgorithm
assert refused(lambda: CoseAlgorithm.from_id("EcdhSsHKDF256"), CoseException), "a name that is not registered was resolved"
''', needs="the name of a Python class that is not the registered name", breaks="names that are not registered resolve")
S["s23-trunc-16"] = dict(property="C23", edits=[
    (UT, "    return f'{payload[:5]} ... ({len(payload)} B)'", "    return f'{payload[:5 if len(payload) > 12 else 12]} ... ({len(payload)} B)'")],
    demo=COMMON + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, payload=b"secret-text!")
assert "secret-text!" not in repr(m), repr(m)
''', needs="a payload of nine to twelve bytes", breaks="it is shown in full")
S["s26-single-unverified"] = dict(property="C26", edits=[
    (X5, "        if verify:\n", "        if verify and not isinstance(cert_chain, bytes):\n")],
    demo=COMMON + '''
from pycose.extensions import x509
got = []
class V:
    def __init__(self, **kw): got.append(kw)
    def validate_usage(self, u): return True
x509.CertificateValidator = V
x509.X5Chain(b"cert", verify=True)
assert got, "not validated"
''', needs="a chain given as a single certificate, to be verified on construction", breaks="it is not validated")
S["s28-aad-bytearray"] = dict(property="C28", edits=[
    (CM, "        if type(new_external_aad) is not bytes:\n", "        if type(new_external_aad) not in (bytes, memoryview):\n")],
    demo=COMMON + RAISES + '''
assert refused(lambda: Sign1Message(external_aad=memoryview(b"x"))), "external data that is no byte string"
''', needs="a memoryview as external data", breaks="it is accepted")
S["s29-digit-label"] = dict(property="C29", edits=[
    (CB, "            attr = CoseHeaderAttribute.from_id(k, allow_unknown_attributes)\n", "            attr = CoseHeaderAttribute.from_id(int(k) if isinstance(k, str) and k.isdecimal() else k, allow_unknown_attributes)\n")],
    demo=COMMON + '''
m = Mac0Message(phdr={Algorithm: HMAC256}, uhdr={"70001": b"x"}, payload=b"p")
assert m.uhdr == {"70001": b"x"}, m.uhdr
''', needs="an unregistered text label of digits", breaks="it comes back as an integer label")
S["s01-detached-aad"] = dict(property="C01", edits=[
    (M + "sign1message.py", "            sig_structure.append(detached_payload)\n", "            sig_structure[2:] = [sig_structure[2] if detached_payload else b'', detached_payload]\n")],
    demo=COMMON + '''
m = Sign1Message(phdr={Algorithm: Es256}, external_aad=b"aad")
m.payload = None
assert b"aad" in m._create_sig_structure(b"")
''', needs="an empty detached payload together with external data", breaks="the external data is not covered")
S["s21-private-use"] = dict(property="C21", edits=[
    ("keys/cosekey.py", "            key_obj = cls._key_types[received[KpKty.identifier]].from_dict(received)\n", "            key_obj = cls._key_types[received[KpKty.identifier]].from_dict(\n                {k: received[k] for k in received if not isinstance(k, int) or k >= -65536})\n")],
    demo=COMMON + '''
from pycose.keys import CoseKey
k = CoseKey.from_dict({1: 4, -1: bytes(16), -70001: b"mine"})
assert k[-70001] == b"mine"
''', needs="a parameter with a private-use label", breaks="it is dropped")
S["s06-d-strip"] = dict(property="C06", edits=[
    (A, "        d_value = int(hexlify(private_key.d), 16)\n        x_value = int(hexlify(public_key.x), 16)\n",
     "        d_value = int(hexlify(private_key.d[-32:] if public_key.alg is not None else private_key.d), 16)\n        x_value = int(hexlify(public_key.x), 16)\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P384), EC2Key.generate_key(P384)
s = EcdhEsHKDF256._ecdh(P384, a, b)
b.alg = EcdhEsHKDF256
assert EcdhEsHKDF256._ecdh(P384, a, b) == s
''', needs="a peer key that names an algorithm, on a curve larger than 256 bits", breaks="only the last 32 bytes of the private value are used")
S["s16-salt-64"] = dict(property="C16", edits=[
    (RC, "        key_bytes = kex_alg.derive_kek(peer_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n", "        if len(self.get_attr(headers.PartyUNonce, b'')) > 64:\n            self.uhdr.pop(headers.Salt, None)\n        key_bytes = kex_alg.derive_kek(local_key.crv, local_key, peer_key, self.get_kdf_context(target_alg),\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhSsA128KW}, uhdr={headers.Salt: b"salt", headers.PartyUNonce: bytes(65)}, payload=bytes(16))
assert r._compute_kek(A128KW, b, a, EcdhSsA128KW) == EcdhSsA128KW.derive_kek(P256, a, b, r.get_kdf_context(A128KW), b"salt")
''', needs="a nonce of party U longer than 64 bytes next to a salt", breaks="the salt is dropped")
S["s10-tag-int"] = dict(property="C10", edits=[
    (CM, "        if cose_obj.tag not in", "        if cose_obj.tag not in")], demo="", needs="", breaks="")
S.pop("s10-tag-int")
