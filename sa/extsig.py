"""Canonical form of calls into external libraries.

Positional and keyword spellings of one call become the same term: arguments
are named after the published signature, arguments equal to the published
default and the legacy `backend` argument are dropped.  Incremental
primitives (Hash, HMAC, hashlib, Cipher contexts) carry the bytes fed so far.
"""
from .terms import *      # noqa
from . import terms as tm

H = "cryptography.hazmat.primitives."
SIGS = {
    "AESGCM": ("key",), "AESCCM": ("key", "tag_length"), "ChaCha20Poly1305": ("key",),
    "HMAC": ("key", "algorithm", "backend"), "Hash": ("algorithm", "backend"),
    "Cipher": ("algorithm", "mode", "backend"), "AES": ("key",), "CBC": ("initialization_vector",),
    "ECB": (), "CTR": ("nonce",), "GCM": ("initialization_vector", "tag", "min_tag_length"),
    "HKDF": ("algorithm", "length", "salt", "info", "backend"),
    "aes_key_wrap": ("wrapping_key", "key_to_wrap", "backend"),
    "aes_key_unwrap": ("wrapping_key", "wrapped_key", "backend"),
    "RSAPublicNumbers": ("e", "n"),
    "RSAPrivateNumbers": ("p", "q", "d", "dmp1", "dmq1", "iqmp", "public_numbers"),
    "PSS": ("mgf", "salt_length"), "OAEP": ("mgf", "algorithm", "label"), "MGF1": ("algorithm",),
    "derive_private_key": ("private_value", "curve", "backend"),
    "EllipticCurvePublicNumbers": ("x", "y", "curve"),
    "EllipticCurvePrivateNumbers": ("private_value", "public_numbers"),
    "from_encoded_point": ("curve", "data"),
    "from_secret_exponent": ("secexp", "curve", "hashfunc"),
    "from_string": ("string", "curve", "hashfunc"),
    "from_public_point": ("point", "curve", "hashfunc", "validate_point"),
    "Point": ("curve", "x", "y", "order"),
    "from_private_bytes": ("data",), "from_public_bytes": ("data",),
    "generate_private_key": None,
    "load_der_x509_certificate": ("data", "backend"), "load_pem_x509_certificate": ("data", "backend"),
    "X509Store": (), "X509StoreContext": ("store", "certificate", "chain"),
    "SHAKE128": ("digest_size",), "SHAKE256": ("digest_size",),
    "compare_digest": ("a", "b"), "bytes_eq": ("a", "b"),
}
CANON_POS = {"cbor2.dumps": ("obj",), "cbor2.loads": ("s",), "cbor2.CBORTag": ("tag", "value"), "os.urandom": ("size",),
             "secrets.token_bytes": ("nbytes",), "hmac.compare_digest": ("a", "b"),
             "cryptography.hazmat.primitives.constant_time.bytes_eq": ("a", "b"),
             "cbor2.decoder.loads": ("s",), "cbor2.encoder.dumps": ("obj",)}
DEFAULTS = {("AESCCM", "tag_length"): const(16), ("HKDF", "salt"): NONE, ("OAEP", "label"): NONE,
            ("Point", "order"): NONE, ("from_public_point", "validate_point"): TRUEC}
ALIAS = {"cbor2.decoder.loads": "cbor2.loads", "cbor2.encoder.dumps": "cbor2.dumps",
         "cbor2._decoder.loads": "cbor2.loads", "cbor2._encoder.dumps": "cbor2.dumps"}

AEAD = {"AESGCM", "AESCCM", "ChaCha20Poly1305"}
MSIGS = {
    "encrypt": [(AEAD, ("nonce", "data", "associated_data")), (None, ("plaintext", "padding"))],
    "decrypt": [(AEAD, ("nonce", "data", "associated_data")), (None, ("ciphertext", "padding"))],
    "derive": [(None, ("key_material",))],
    "exchange": [({"derive_private_key", "EllipticCurvePrivateNumbers", "generate_private_key"}, ("algorithm", "peer_public_key")), (None, ("peer_public_key",))],
    "sign_deterministic": [(None, ("data", "hashfunc", "sigencode", "extra_entropy"))],
    "sign_digest_deterministic": [(None, ("digest", "hashfunc", "sigencode", "extra_entropy"))],
    "sign": [({"RSAPrivateNumbers"}, ("data", "padding", "algorithm")), ({"from_private_bytes"}, ("data",)),
             ({"derive_private_key", "EllipticCurvePrivateNumbers"}, ("data", "signature_algorithm")),
             ({"from_secret_exponent", "from_string"}, ("data", "entropy", "hashfunc", "sigencode", "k"))],
    "verify": [({"RSAPublicNumbers", "RSAPrivateNumbers"}, ("signature", "data", "padding", "algorithm")),
               ({"from_public_bytes", "from_private_bytes"}, ("signature", "data")),
               ({"EllipticCurvePublicNumbers"}, ("signature", "data", "signature_algorithm")),
               ({"from_public_point", "from_secret_exponent", "from_string"}, ("signature", "data", "hashfunc", "sigdecode", "allow_truncate"))],
    "verify_digest": [({"from_public_point"}, ("signature", "digest", "sigdecode", "allow_truncate"))],
    "private_key": [(None, ("backend",))], "public_key": [(None, ("backend",))],
    "private_bytes": [(None, ("encoding", "format", "encryption_algorithm"))],
    "public_bytes": [(None, ("encoding", "format"))],
}
STREAM_EXT = {"HMAC", "Hash"}
HASHLIB = {"sha1", "sha224", "sha256", "sha384", "sha512", "md5", "sha3_256", "sha512_256"}
STREAM_METH = {"encryptor", "decryptor"}
HASHSIZE = {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "SHA512_256": 32, "SHA512_224": 28}


def ctor_names(t):
    """Names of the library constructors a receiver value was made with."""
    out = []
    while True:
        if t.op == "fresh":
            t = t.args[1]
        elif t.op == "call":
            c = t.args[0]
            if c.op == "ext":
                out.append(c.args[0].rsplit(".", 1)[-1])
                return out
            t = c
        elif t.op in ("attr", "meth"):
            t = t.args[0]
        elif t.op == "gamma":
            for _, x in t.args[0]:
                out += ctor_names(x)
            return out
        else:
            return out


def canon(t, args, kw, node):
    """(callee, args, kw) -> canonical (args, kw); inputs are snapshot terms."""
    pos = None
    base = None
    if t.op == "ext":
        n = t.args[0]
        pos = CANON_POS.get(n)
        if pos is not None:
            d = dict(zip(pos, args))
            d.update(kw)
            extra = {k: v for k, v in d.items() if k not in pos}
            out = []
            for p in pos:
                if p not in d:
                    break
                out.append(d[p])
            return out, extra
        base = n.rsplit(".", 1)[-1]
        if n.startswith(("cryptography.", "ecdsa.", "OpenSSL.")) or n.split(".")[0] in ("ecdsa",):
            pos = SIGS.get(base)
    elif t.op in ("attr", "meth"):
        base = t.args[1]
        tab = MSIGS.get(base)
        if tab:
            names = set(ctor_names(t.args[0]))
            for ks, sig in tab:
                if ks is None or names & ks:
                    pos = sig
                    break
    if pos is None or len(args) > len(pos):
        return args, kw
    d = dict(zip(pos, args))
    d.update(kw)
    d.pop("backend", None)
    d = {k: v for k, v in d.items() if DEFAULTS.get((base, k)) is not v}
    return [], d


# ------------------------------------------------------------------ byte strings

RESULT = {}        # short name of a library function -> type of what it returns, set by analysis contexts
LENS = {}          # term -> int, set by analysis contexts
DUMPS_LEN = [None]


def known_len(t):
    n = LENS.get(t)
    if n is not None:
        return n
    op = t.op
    if op == "const":
        try:
            return len(cval(t))
        except TypeError:
            return None
    if op == "cat":
        s = 0
        for x in t.args:
            k = known_len(x)
            if k is None:
                return None
            s += k
        return s
    if op == "fresh":
        c = t.args[1]
        if c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0] in ("os.urandom", "secrets.token_bytes") and \
                c.args[1] and is_const(c.args[1][0]):
            return cval(c.args[1][0])
        return None
    if op in ("to_be", "lpad", "rpad") and len(t.args) > 1 and is_const(t.args[1]):
        return cval(t.args[1]) if op == "to_be" else None
    if op == "slice":
        b, lo, hi, sp = t.args
        n = known_len(b)
        if n is not None and all(is_const(x) for x in (lo, hi, sp)):
            return len(range(n)[slice(cval(lo), cval(hi), cval(sp))])
        return None
    if op == "call" and t.args[0].op == "ext":
        nm = t.args[0].args[0]
        if nm == "cbor2.dumps" and DUMPS_LEN[0] is not None:
            return DUMPS_LEN[0]
        if nm == "stream.digest":
            return digest_len(t.args[1][0])
        if nm == "stream.output":
            return known_len(t.args[1][1])
    if op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "derive":
        r = t.args[0].args[0]
        r = r.args[1] if r.op == "fresh" else r
        if r.op == "call" and r.args[0].op == "ext" and r.args[0].args[0].rsplit(".", 1)[-1] == "HKDF":
            n = dict(r.args[2]).get("length")
            if n is not None and is_const(n) and isinstance(cval(n), int):
                return cval(n)
    return None


LENGTH[0] = known_len


def digest_len(ctor):
    if ctor.op != "call" or ctor.args[0].op != "ext":
        return None
    n = ctor.args[0].args[0]
    if n.startswith("hashlib."):
        return {"sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}.get(n[8:])
    a = dict(ctor.args[2]).get("algorithm")
    if a is None:
        return None
    while a.op == "call":
        if a.args[2] and a.args[0].op == "ext" and a.args[0].args[0].rsplit(".", 1)[-1].startswith("SHAKE"):
            d = dict(a.args[2]).get("digest_size")
            return cval(d) if d is not None and is_const(d) else None
        a = a.args[0]
    if a.op == "ext":
        return HASHSIZE.get(a.args[0].rsplit(".", 1)[-1])
    return None


def bcat(parts):
    """Concatenation of byte strings in normal form."""
    out = []
    for p in parts:
        if p.op == "cat":
            xs = p.args
        else:
            xs = (p,)
        for x in xs:
            if is_const(x) and cval(x) == b"":
                continue
            if is_const(x) and out and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(x))
            else:
                out.append(x)
    if not out:
        return EMPTYB
    if len(out) == 1:
        return out[0]
    # b'\0' * (n - len(x)) + x   ==   left padding
    if len(out) == 2 and out[0].op == "rep" and out[0].args[0] is const(b"\0"):
        n = out[0].args[1]
        if n.op == "bin" and n.args[0] == "-" and n.args[2] is T("len", out[1]):
            return T("lpad", out[1], n.args[1])
    return T("cat", *out)


def bslice(t, lo, hi, sp):
    """Slice of a byte string; None when no simplification applies."""
    if sp is not NONE or not is_const(lo) or not is_const(hi):
        return None
    n = known_len(t)
    if n is not None:
        a, b, _ = slice(cval(lo), cval(hi)).indices(n)
        if b < a:
            b = a
        if (a, b) == (0, n):
            return t
        if a == b:
            return EMPTYB
        if t.op == "slice" and is_const(t.args[1]) and t.args[3] is NONE:
            off = cval(t.args[1]) or 0
            return bslice(t.args[0], const(off + a), const(off + b), NONE) or T("slice", t, const(a), const(b), NONE)
        if t.op == "cat":
            pos, parts = 0, []
            for x in t.args:
                k = known_len(x)
                s, e = max(a, pos), min(b, pos + k)
                if s < e:
                    parts.append(bslice(x, const(s - pos), const(e - pos), NONE) if (s, e) != (pos, pos + k) else x)
                pos += k
            return bcat(parts)
        if is_const(t):
            return const(cval(t)[a:b])
        return T("slice", t, const(a) if a else NONE, const(b) if b != n else NONE, NONE) if False else \
            T("slice", t, const(a), const(b), NONE)
    # unknown length: only compositions valid for every length
    if t.op == "slice" and t.args[3] is NONE and is_const(t.args[1]) and is_const(t.args[2]):
        l1, h1 = cval(t.args[1]), cval(t.args[2])
        l2, h2 = cval(lo), cval(hi)
        nn = lambda v: v is None or v >= 0
        if nn(l1) and nn(h1) and nn(l2) and nn(h2):
            a = (l1 or 0) + (l2 or 0)
            ends = [x for x in (h1, None if h2 is None else (l1 or 0) + h2) if x is not None]
            return T("slice", t.args[0], const(a) if a else NONE, const(min(ends)) if ends else NONE, NONE)
    return None


def acc(t):
    """(receiver, name) of a call of a method without arguments"""
    if t.op == "call" and t.args[0].op in ("attr", "meth") and not any(t.args[1:]):
        return t.args[0].args
    return None, None


def ec_arg(t, fn, arg):
    """argument arg of the library call ec.<fn> that gives t"""
    b = t.args[1] if t.op == "fresh" else t
    if not (b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0].endswith(".ec." + fn)):
        return None
    named = dict(b.args[2] or ())
    names = {"derive_private_key": ("private_value", "curve"), "generate_private_key": ("curve",)}[fn]
    return named.get(arg, b.args[1][names.index(arg)] if len(b.args[1]) > names.index(arg) else None)


def same_key(t):
    """ec.derive_private_key(X.private_numbers().private_value, the curve of X) is the private key X, made on that curve"""
    v = ec_arg(t, "derive_private_key", "private_value")
    if v is None:
        return t
    if v.op == "int_be" and v.args[0].op == "to_be":      # to_bytes raises where the number does not fit
        v = v.args[0].args[0]
    r = v.args[0] if v.op == "attr" and v.args[1] == "private_value" else None
    r, n = acc(r) if r is not None else (None, None)
    if n != "private_numbers" or ec_arg(r, "generate_private_key", "curve") is not ec_arg(t, "derive_private_key", "curve"):
        return t
    return r


def canon_numbers(t, name):
    """private.private_numbers().public_numbers and private.public_key().public_numbers are the same numbers, and carry the curve of the key"""
    r, n = acc(t)
    if name == "public_numbers" and n == "private_numbers":
        return call_t(T("attr", r, "public_key"), [], [])
    if name == "public_numbers" and n == "public_key":
        x = same_key(r)
        return t if x is r else call_t(T("attr", x, "public_key"), [], [])
    if name in ("curve", "key_size"):
        if n == "public_numbers":
            r2, n2 = acc(r)
            return r2 if n2 == "public_key" else r
        if n == "public_key":
            return r
    return t
