"""Specification functions (RFC 8152), written against the public API only.

They are never executed: the value-flow engine evaluates them abstractly in
the same state as the code under analysis and compares the resulting terms.
"""
import cbor2
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat, PublicFormat
from pycose.headers import Algorithm
from pycose.keys import EC2Key


def protected(obj):
    """Empty_or_serialized_map of a COSE object."""
    return obj.phdr_encoded if len(obj.phdr) else b''


def sig_structure1(msg, payload):
    return ['Signature1', protected(msg), msg.external_aad, payload]


def sig_structure(msg, signer, payload):
    return ['Signature', protected(msg), protected(signer), signer.external_aad, payload]


def mac_structure(context, msg, payload):
    return [context, protected(msg), msg.external_aad, payload]


def enc_structure(context, msg):
    return [context, protected(msg), msg.external_aad]


def take(x, n):
    return x[:n]


def last_block(x, total, n):
    return x[total - 16:total - 16 + n]


def may_use(key, alg, op1, op2):
    return (key.alg is None or key.alg.identifier == alg.identifier) and \
        (len(key.key_ops) == 0 or op1 in key.key_ops or op2 in key.key_ops)


def be(key, param):
    """Big-endian integer value of a key parameter."""
    return int.from_bytes(key[param], 'big')


def raw(key, param):
    return key[param]


def lookup(msg, attribute, default):
    p = msg.phdr.get(attribute)
    u = msg.uhdr.get(attribute)
    if p is not None:
        return p
    if u is not None:
        return u
    return default


def in_both(msg, attribute):
    return msg.phdr.get(attribute) is not None and msg.uhdr.get(attribute) is not None


def in_bucket(msg, bucket, attribute):
    return (msg.phdr if bucket == 'p' else msg.uhdr).get(attribute)


def valid_bstr(v):
    return isinstance(v, bytes)


def valid_critical(v):
    return isinstance(v, list) and len(v) >= 1 and all(isinstance(x, (int, str)) for x in v)


def valid_content_type(v):
    return isinstance(v, str) or (isinstance(v, int) and v >= 0)


def anything(v):
    return True


def key_xy(msg, bucket, attribute, cls):
    k = (msg.phdr if bucket == 'p' else msg.uhdr).get(attribute)
    return (isinstance(k, cls), k.x, k.y if isinstance(k, EC2Key) else None)


def exactly(m, cls):
    return type(m) is cls


def length(x):
    return len(x)


def nonce(msg, iv_attr, partial_attr, base_iv):
    iv = lookup(msg, iv_attr, None)
    if iv is not None:
        return iv
    partial = lookup(msg, partial_attr, None)
    n = int.from_bytes(base_iv, 'big') ^ int.from_bytes(partial, 'big')
    return n.to_bytes(len(base_iv), 'big')


def nonce_defined(msg, iv_attr, partial_attr, base_iv):
    if lookup(msg, iv_attr, None) is not None:
        return True
    partial = lookup(msg, partial_attr, None)
    return partial is not None and base_iv is not None and len(base_iv) > 0 and len(partial) <= len(base_iv)


def kdf_context(alg_id, bits, protected_bytes, u, v, pub_other, priv):
    """COSE_KDF_Context of RFC 8152 11.2."""
    pub = [bits, protected_bytes]
    if pub_other is not None:
        pub.append(pub_other)
    info = [alg_id, u, v, pub]
    if priv is not None:
        info.append(priv)
    return info


def party(r, identity, nonce_, other):
    return [lookup(r, identity, None), lookup(r, nonce_, None), lookup(r, other, None)]


def same_curve(a, b):
    # the three agree on registered curves
    return a.crv is b.crv or a.crv == b.crv or a.crv.identifier == b.crv.identifier or a.crv.fullname == b.crv.fullname


def header_key_has(m, attribute, param):
    return param in lookup(m, attribute, None)


def header_key_param(m, attribute, param):
    return lookup(m, attribute, None)[param]


def has_protected(r):
    return len(r.phdr) != 0


def holds_recipients(r, n):
    return len(r.recipients) > n


def carries(r, attribute):
    return lookup(r, attribute, None) is not None


def is_a(x, cls):
    return isinstance(x, cls)


def nothing(x):
    return len(x) == 0


def is_bytes(v):
    return isinstance(v, bytes)


def empty_bytes_or_absent(v):
    return v is None or len(v) == 0


def rsa_complete(n, e, d, p, q, dp, dq, qinv, other, r_i, d_i, t_i):
    """RFC 8230 section 4: public key, two-prime private key, multi-prime private key."""
    if not (n and e):
        return False
    if not (d or p or q or dp or dq or qinv or other or r_i or d_i or t_i):
        return True
    if not (d and p and q and dp and dq and qinv):
        return False
    if not (other or r_i or d_i or t_i):
        return True
    return bool(other and r_i and d_i and t_i)


def aes_size(k):
    return len(k) == 16 or len(k) == 24 or len(k) == 32


def ec_point(d, curve, which):
    n = ec.derive_private_key(int.from_bytes(d, byteorder='big'), curve.curve_obj).public_key().public_numbers()
    return (n.x if which == 'x' else n.y).to_bytes(curve.size, 'big')


def ec_lift(x, curve, sign):
    k = ec.EllipticCurvePublicKey.from_encoded_point(curve.curve_obj, sign + x)
    return k.public_numbers().y.to_bytes(curve.size, 'big')


def as_tuple(v):
    return tuple(v)


def attr_tuple(obj, name):
    return tuple(getattr(obj, name))


def ec_numbers(key, curve, which):
    if which == 'd':
        return key.private_numbers().private_value.to_bytes(curve.size, 'big')
    n = key.public_key().public_numbers() if hasattr(key, 'private_bytes') else key.public_numbers()
    return (n.x if which == 'x' else n.y).to_bytes(curve.size, 'big')


def on_curve(key, curve):
    return type(key.curve) is type(curve.curve_obj)


def okp_raw(key, which):
    if which == 'd':
        return key.private_bytes(encoding=Encoding.Raw, format=PrivateFormat.Raw, encryption_algorithm=NoEncryption())
    k = key.public_key() if hasattr(key, 'private_bytes') else key
    return k.public_bytes(encoding=Encoding.Raw, format=PublicFormat.Raw)


def rsa_number(key, which):
    n = key.public_key().public_numbers() if hasattr(key, 'private_bytes') else key.public_numbers()
    if which == 'n':
        return n.n
    if which == 'e':
        return n.e
    p = key.private_numbers()
    if which == 'd':
        return p.d
    if which == 'p':
        return p.p
    if which == 'q':
        return p.q
    if which == 'dp':
        return p.dmp1
    if which == 'dq':
        return p.dmq1
    return p.iqmp


def utf8(s):
    return s.encode()


def bytes_or_none(v):
    return v is None or isinstance(v, bytes)


def is_dict(v):
    return isinstance(v, dict)


def is_list(v):
    return isinstance(v, list)


def key_or_none(v, a, b, c, d):
    return v is None or isinstance(v, a) or isinstance(v, b) or isinstance(v, c) or isinstance(v, d)


def aes_or_refused(n):
    return n == 16 or n == 24 or n == 32


def first(v):
    return v[0]
