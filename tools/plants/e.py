import os
exec(open("/verif/tools/plants/b.py").read().split('S["s03-aad-memo"]')[0])
S = {}
A, RC, CB, CM = "algorithms.py", M + "recipient.py", M + "cosebase.py", M + "cosemessage.py"
IMP = '''
from pycose.messages.recipient import KeyWrap, DirectEncryption, DirectKeyAgreement, KeyAgreementWithKeyWrap
from pycose.messages.context import PartyInfo, SuppPubInfo, CoseKDFContext
from pycose.algorithms import *
from pycose.keys.keyops import *
from pycose.keys.keyparam import *
from pycose.keys.curves import *
from pycose import headers
import cbor2
'''
S["s15-empty-party"] = dict(property="C15", edits=[
    (M + "context.py", "        return [self.identity, self.nonce, self.other]\n", "        return [x or None for x in (self.identity, self.nonce, self.other)]\n")],
    demo=COMMON + IMP + '''
r = DirectKeyAgreement(phdr={Algorithm: EcdhEsHKDF256}, uhdr={headers.PartyUNonce: b"", headers.PartyVIdentity: b""} if hasattr(headers, "PartyVIdentity") else {headers.PartyUNonce: b""})
ctx = cbor2.loads(r.get_kdf_context(A128GCM).encode())
assert ctx[1] == [None, b"", None], ctx
''', needs="a party information parameter that is present and empty", breaks="an empty party parameter enters the context as nil")
S["s15-v-from-u"] = dict(property="C15", edits=[
    (RC, "        v_nonce = self.get_attr(headers.PartyVNonce)\n", "        v_nonce = self.get_attr(headers.PartyVNonce)\n        if v_nonce is None and v_id is None:\n            v_nonce = u_nonce\n"),
    (RC, "        v = PartyInfo(v_id, v_nonce, v_other)\n", "        v = PartyInfo(identity=v_id, nonce=v_nonce, other=v_other)\n")],
    demo=COMMON + IMP + '''
r = DirectKeyAgreement(phdr={Algorithm: EcdhEsHKDF256}, uhdr={headers.PartyUNonce: b"nonce"})
ctx = cbor2.loads(r.get_kdf_context(A128GCM).encode())
assert ctx[1:3] == [[None, b"nonce", None], [None, None, None]], ctx
''', needs="a recipient structure with a nonce of party U and nothing known of party V", breaks="the nonce of party U is taken for that of party V as well")
S["s20-okp-none"] = dict(property="C20", edits=[
    ("keys/okp.py", "        if len(x) == 0 and len(d) == 0:\n", "        if len(x) == 0 and len(d) == 0 and KpKid not in transformed_dict:\n"),
    ("keys/okp.py", "        if x != b'':\n            self.x = x\n        if d != b'':\n            self.d = d\n", "        if len(x):\n            self.x = x\n        if len(d):\n            self.d = d\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import OKPKey
assert refused(lambda: OKPKey(crv=Ed25519, optional_params={KpKid: b"a"})), "an OKP key without any value"
''', needs="an OKP key with a key identifier and neither value", breaks="a key without key material comes into being")
S["s18-unwrap-longer"] = dict(property="C18", edits=[
    (A, "    def key_unwrap(cls, kek: 'SK', data: bytes):\n        if cls.get_key_length() != len(kek.k):\n", "    def key_unwrap(cls, kek: 'SK', data: bytes):\n        if cls.get_key_length() > len(kek.k):\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(range(32)))
w = A256KW.key_wrap(k, bytes(16))
assert refused(lambda: A128KW.key_unwrap(k, w)), "A128KW ran with a 256-bit key"
''', needs="unwrapping with a key longer than the algorithm's", breaks="AES key wrap runs with a key length that is not the registered one")
S["s27-no-alg-direct"] = dict(property="C27", edits=[
    (RC, "        if alg is None:\n            raise CoseException(\"Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode\")\n",
     "        if alg is None and (len(self.phdr) or len(self.uhdr)):\n            raise CoseException(\"Message must carry an algorithm parameter when using DIRECT_ENCRYPTION mode\")\n"),
    (RC, "        if alg == Direct:\n            return None\n", "        if alg == Direct or alg is None:\n            return None\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
m = EncMessage(phdr={Algorithm: A128GCM, IV: bytes(12)}, payload=b"x", key=SymmetricKey(k=bytes(16)), recipients=[DirectEncryption()])
assert refused(m.encode), "sent with a recipient structure without algorithm"
''', needs="a direct recipient structure with no header at all", breaks="a recipient structure without algorithm is taken for a direct one")
S["s27-static-local"] = dict(property="C27", edits=[
    (RC, "        else:\n            if alg in {EcdhSsHKDF256, EcdhSsHKDF512}:\n                peer_key = self.get_attr(headers.StaticKey)\n",
     "        else:\n            if alg in {EcdhSsHKDF256, EcdhSsHKDF512}:\n                peer_key = self.get_attr(headers.StaticKey) or self.local_attrs.get(headers.StaticKey)\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256), EC2Key.generate_key(P256)
r = DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256}, local_attrs={headers.StaticKey: a} ) if False else DirectKeyAgreement(phdr={Algorithm: EcdhSsHKDF256})
r.key = b
r.local_attrs = {headers.StaticKey: a}
assert refused(lambda: r.compute_cek(A128GCM, "decrypt")), "no static sender key in the headers"
''', needs="a received static-static structure without the sender's key, handled by an object that has a local one", breaks="a key that was not in the message stands in for the sender's")
S["s05-substring"] = dict(property="C05", edits=[
    ("keys/cosekey.py", "                if k in self.key_ops:\n                    match_key_ops = True\n", "                if any(k.fullname in own.fullname for own in self.key_ops):\n                    match_key_ops = True\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.keys import SymmetricKey
k = SymmetricKey(k=bytes(16), optional_params={KpKeyOps: [UnwrapOp]})
assert refused(lambda: k.verify(SymmetricKey, A128KW, [WrapOp])), "a key for unwrapping was used for wrapping"
''', needs="a key limited to an operation whose name contains that of another", breaks="a key for unwrapping may wrap")
S["s14-dka-one"] = dict(property="C14", edits=[
    (RC, "        if len(msg.recipients):\n            raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')\n",
     "        if len(msg.recipients) > 1:\n            raise CoseMalformedMessage(f'Recipient class {cls.__name__} cannot carry more recipients')\n")],
    demo=COMMON + RAISES + IMP + '''
from pycose.messages.recipient import CoseRecipient
inner = [b"", {1: -6}, b""]
eph = {1: 2, -1: 1, -2: bytes.fromhex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), -3: bytes.fromhex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}
outer = [cbor2.dumps({1: -25}), {-1: eph}, b"", [inner]]
CoseRecipient.create_recipient(outer[:3], True)
assert refused(lambda: CoseRecipient.create_recipient([cbor2.dumps({1: -25}), {-1: eph}, b"", [inner]], True)), "a nested structure was accepted"
''', needs="a received direct key agreement structure with exactly one inner structure", breaks="direct key agreement structures that hold another one are accepted")
S["s11-flat"] = dict(property="C11", edits=[
    (RC, "                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]\n\n        if len(self.recipients):\n            recipient.append([r.encode(*args, **kwargs) for r in self.recipients])\n",
     "                     self.encrypt((self.get_attr(headers.Algorithm)).get_key_wrap_func())]\n\n        if len(self.recipients) > 1:\n            recipient.append([r.encode(*args, **kwargs) for r in self.recipients])\n        elif self.recipients:\n            recipient.append(self.recipients[0].encode(*args, **kwargs))\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key, SymmetricKey
r = KeyAgreementWithKeyWrap(phdr={Algorithm: EcdhEsA128KW}, payload=bytes(16))
r.local_attrs = {headers.StaticKey: EC2Key.generate_key(P256)}
i = KeyWrap(uhdr={Algorithm: A128KW}, payload=bytes(16))
i.key = SymmetricKey(k=bytes(16))
r.recipients = [i]
out = r.encode(A128GCM)
assert isinstance(out[3], list) and len(out[3]) == 1 and isinstance(out[3][0], list), out[3]
''', needs="a key agreement structure that holds exactly one structure", breaks="the inner structure is written without the array around it")
S["s16-own-curve"] = dict(property="C16", edits=[
    (A, "        d = ec.derive_private_key(d_value, curve.curve_obj, backend=default_backend())\n        p = ec.EllipticCurvePublicNumbers(x_value, y_value, curve.curve_obj)\n",
     "        # a key that carries its own public point belongs to the peer\n        if private_key.x and private_key.kid and private_key.kid == public_key.kid:\n            x_value, y_value = int(hexlify(private_key.x), 16), int(hexlify(private_key.y), 16)\n\n        d = ec.derive_private_key(d_value, curve.curve_obj, backend=default_backend())\n        p = ec.EllipticCurvePublicNumbers(x_value, y_value, curve.curve_obj)\n")],
    demo=COMMON + IMP + '''
from pycose.keys import EC2Key
a, b = EC2Key.generate_key(P256, optional_params={KpKid: b"1"}), EC2Key.generate_key(P256, optional_params={KpKid: b"1"})
assert EcdhEsHKDF256._ecdh(P256, a, b) == EcdhEsHKDF256._ecdh(P256, b, a)
''', needs="own and peer key with the same key identifier", breaks="the own public key stands in for the peer's")
S["s10-untagged-list"] = dict(property="C10", edits=[
    (CM, "            raise CoseException(\"Message was not tagged.\")" , "            raise CoseException(\"Message was not tagged.\")  ")], demo="", needs="", breaks="")
S.pop("s10-untagged-list")
