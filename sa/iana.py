"""Registered values (RFC 8152/8230/8812/9053/9054, IANA COSE registries)."""

# id -> (public class name, kind, parameters)
ALGS = {
    -65535: ("RsaPkcs1Sha1", "sig", dict(fam="pkcs1", hash="SHA1")),
    -259: ("RsaPkcs1Sha512", "sig", dict(fam="pkcs1", hash="SHA512")),
    -258: ("RsaPkcs1Sha384", "sig", dict(fam="pkcs1", hash="SHA384")),
    -257: ("RsaPkcs1Sha256", "sig", dict(fam="pkcs1", hash="SHA256")),
    -39: ("Ps512", "sig", dict(fam="pss", hash="SHA512")),
    -38: ("Ps384", "sig", dict(fam="pss", hash="SHA384")),
    -37: ("Ps256", "sig", dict(fam="pss", hash="SHA256")),
    -36: ("Es512", "sig", dict(fam="ecdsa", hash="SHA512", curve="P521")),
    -35: ("Es384", "sig", dict(fam="ecdsa", hash="SHA384", curve="P384")),
    -7: ("Es256", "sig", dict(fam="ecdsa", hash="SHA256", curve="P256")),
    -8: ("EdDSA", "sig", dict(fam="eddsa")),
    -42: ("RsaesOaepSha512", "oaep", dict(hash="SHA512")),
    -41: ("RsaesOaepSha256", "oaep", dict(hash="SHA256")),
    -40: ("RsaesOaepSha1", "oaep", dict(hash="SHA1")),
    -34: ("EcdhSsA256KW", "ecdhkw", dict(hash="SHA256", kw=-5, static=True)),
    -33: ("EcdhSsA192KW", "ecdhkw", dict(hash="SHA256", kw=-4, static=True)),
    -32: ("EcdhSsA128KW", "ecdhkw", dict(hash="SHA256", kw=-3, static=True)),
    -31: ("EcdhEsA256KW", "ecdhkw", dict(hash="SHA256", kw=-5, static=False)),
    -30: ("EcdhEsA192KW", "ecdhkw", dict(hash="SHA256", kw=-4, static=False)),
    -29: ("EcdhEsA128KW", "ecdhkw", dict(hash="SHA256", kw=-3, static=False)),
    -28: ("EcdhSsHKDF512", "ecdhdirect", dict(hash="SHA512", static=True)),
    -27: ("EcdhSsHKDF256", "ecdhdirect", dict(hash="SHA256", static=True)),
    -26: ("EcdhEsHKDF512", "ecdhdirect", dict(hash="SHA512", static=False)),
    -25: ("EcdhEsHKDF256", "ecdhdirect", dict(hash="SHA256", static=False)),
    -45: ("Shake256", "hash", dict(hash="SHAKE256", out=64)),
    -44: ("Sha512", "hash", dict(hash="SHA512", out=64)),
    -43: ("Sha384", "hash", dict(hash="SHA384", out=48)),
    -18: ("Shake128", "hash", dict(hash="SHAKE128", out=32)),
    -17: ("Sha512Trunc256", "hash", dict(hash="SHA512", out=32)),
    -16: ("Sha256", "hash", dict(hash="SHA256", out=32)),
    -15: ("Sha256Trunc64", "hash", dict(hash="SHA256", out=8)),
    -14: ("Sha1", "hash", dict(hash="SHA1", out=20)),
    -13: ("DirectHKDFAES256", "directhkdf", dict(prf="AES-256")),
    -12: ("DirectHKDFAES128", "directhkdf", dict(prf="AES-128")),
    -11: ("DirecHKDFSHA512", "directhkdf", dict(prf="SHA512")),
    -10: ("DirectHKDFSHA256", "directhkdf", dict(prf="SHA256")),
    -6: ("Direct", "direct", {}),
    -5: ("A256KW", "aeskw", dict(key=32)),
    -4: ("A192KW", "aeskw", dict(key=24)),
    -3: ("A128KW", "aeskw", dict(key=16)),
    1: ("A128GCM", "gcm", dict(key=16)),
    2: ("A192GCM", "gcm", dict(key=24)),
    3: ("A256GCM", "gcm", dict(key=32)),
    4: ("HMAC25664", "hmac", dict(hash="SHA256", out=8, key=32)),
    5: ("HMAC256", "hmac", dict(hash="SHA256", out=32, key=32)),
    6: ("HMAC384", "hmac", dict(hash="SHA384", out=48, key=48)),
    7: ("HMAC512", "hmac", dict(hash="SHA512", out=64, key=64)),
    10: ("AESCCM1664128", "ccm", dict(key=16, tag=8, nonce=13)),
    11: ("AESCCM1664256", "ccm", dict(key=32, tag=8, nonce=13)),
    12: ("AESCCM6464128", "ccm", dict(key=16, tag=8, nonce=7)),
    13: ("AESCCM6464256", "ccm", dict(key=32, tag=8, nonce=7)),
    14: ("AESMAC12864", "aesmac", dict(key=16, out=8)),
    15: ("AESMAC25664", "aesmac", dict(key=32, out=8)),
    25: ("AESMAC128128", "aesmac", dict(key=16, out=16)),
    26: ("AESMAC256128", "aesmac", dict(key=32, out=16)),
    30: ("AESCCM16128128", "ccm", dict(key=16, tag=16, nonce=13)),
    31: ("AESCCM16128256", "ccm", dict(key=32, tag=16, nonce=13)),
    32: ("AESCCM64128128", "ccm", dict(key=16, tag=16, nonce=7)),
    33: ("AESCCM64128256", "ccm", dict(key=32, tag=16, nonce=7)),
}


def algs(*kinds):
    return [(i, n, p) for i, (n, k, p) in sorted(ALGS.items()) if k in kinds]


HASH_SIZE = {"SHA1": 20, "SHA256": 32, "SHA384": 48, "SHA512": 64}

HEADERS = {0: "Reserved", 1: "Algorithm", 2: "Critical", 3: "ContentType", 4: "KID", 5: "IV", 6: "PartialIV",
           7: "CounterSignature", 9: "CounterSignature0", 10: "KIDContext", 32: "X5bag", 33: "X5chain", 34: "X5t",
           35: "X5u", -1: "EphemeralKey", -2: "StaticKey", -3: "StaticKeyID", -20: "Salt", -21: "PartyUID",
           -22: "PartyUNonce", -23: "PartyUOther", -24: "PartyVID", -25: "PartyVNonce", -26: "PartyVOther"}

CURVES = {0: ("Reserved", None, None), 1: ("P256", "EC2", 32), 2: ("P384", "EC2", 48), 3: ("P521", "EC2", 66),
          4: ("X25519", "OKP", 32), 5: ("X448", "OKP", 56), 6: ("Ed25519", "OKP", 32), 7: ("Ed448", "OKP", 57),
          8: ("SECP256K1", "EC2", 32)}

KTYS = {0: "KtyReserved", 1: "KtyOKP", 2: "KtyEC2", 3: "KtyRSA", 4: "KtySymmetric"}
KEYOPS = {1: "SignOp", 2: "VerifyOp", 3: "EncryptOp", 4: "DecryptOp", 5: "WrapOp", 6: "UnwrapOp", 7: "DeriveKeyOp",
          8: "DeriveBitsOp", 9: "MacCreateOp", 10: "MacVerifyOp"}
KEYPARAMS = {
    "KeyParam": {1: "KpKty", 2: "KpKid", 3: "KpAlg", 4: "KpKeyOps", 5: "KpBaseIV"},
    "EC2KeyParam": {-1: "EC2KpCurve", -2: "EC2KpX", -3: "EC2KpY", -4: "EC2KpD"},
    "OKPKeyParam": {-1: "OKPKpCurve", -2: "OKPKpX", -4: "OKPKpD"},
    "SymmetricKeyParam": {-1: "SymKpK"},
    "RSAKeyParam": {-1: "RSAKpN", -2: "RSAKpE", -3: "RSAKpD", -4: "RSAKpP", -5: "RSAKpQ", -6: "RSAKpDP",
                    -7: "RSAKpDQ", -8: "RSAKpQInv", -9: "RSAKpOther", -10: "RSAKpRi", -11: "RSAKpDi",
                    -12: "RSAKpTi"},
}
TAGS = {18: "Sign1Message", 98: "SignMessage", 17: "Mac0Message", 97: "MacMessage", 16: "Enc0Message",
        96: "EncMessage"}
