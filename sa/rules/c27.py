"""C27: operations without a suitable algorithm or key are refused."""
from .common import *      # noqa
from . import c16

RULE = ("an operation of a message, signer or recipient structure whose algorithm is missing or registered for another kind of operation, or whose "
        "key (own, peer, content) is missing, neither completes nor reaches a primitive that uses a key; nothing is chosen or generated in its place")
EXPLAIN = ("Every operation of every message class, of signers and of recipient structures is analysed, on objects in an arbitrary state, with no "
           "algorithm, with each algorithm registered for another kind of operation and a key of each class, and with each needed key absent; the "
           "completion condition and the guards of all primitive calls have to be unsatisfiable.")
DIRECT_FOREIGN = [None] + [-3, -7, 5, 1, -25, -29, -41]
KEYS = ["EC2Key", "OKPKey", "RSAKey", "SymmetricKey"]
FAM = {"Sign1Message": ("sig",), "CoseSignature": ("sig",), "Mac0Message": ("hmac", "aesmac"), "MacMessage": ("hmac", "aesmac"),
       "Enc0Message": ("gcm", "ccm"), "EncMessage": ("gcm", "ccm")}
OPS = {"Sign1Message": ["compute_signature", "verify_signature", "encode"], "CoseSignature": ["compute_signature", "verify_signature"],
       "Mac0Message": ["compute_tag", "verify_tag", "encode"], "MacMessage": ["compute_tag", "verify_tag", "encode"],
       "Enc0Message": ["encrypt", "decrypt", "encode"], "EncMessage": ["encrypt", "decrypt", "encode"]}
CIPHERS = ("AESGCM", "AESCCM", "RSAPublicNumbers", "RSAPrivateNumbers", "Cipher", "ChaCha20Poly1305")


def uses(r):
    """Primitive calls that use a key."""
    ev = sign_events(r) + verify_events(r) + mac_events(r) + aead_events(r, ".encrypt") + aead_events(r, ".decrypt")
    ev += extcalls(r, "aes_key_wrap", "aes_key_unwrap", ".exchange") + extcalls(r, ".encrypt", ".decrypt", ".update", ctor=CIPHERS)
    return ev


def oaep_padding(e):
    """The library refuses to sign or verify with an encryption padding."""
    p = e.kw.get("padding")
    return p is not None and p.op == "call" and short_name(p.args[0]) == "OAEP" and short_name(e.callee) in ("sign", "verify")


def refused(rep, r, op, key, what):
    done = r.pc
    if done != FALSE and op.startswith("verify"):
        done = B.And(done, g_truthy(as_term(r.value, r.pc)))
    evs = uses(r)
    for e in evs:
        if oaep_padding(e):
            done = B.And(done, B.Not(e.pc))
    ok_guard(rep, done, key, what + " is refused")
    for e in evs:
        if oaep_padding(e):
            continue
        ok_guard(rep, e.pc, key + "|primitive", what + ": no primitive runs", e.where())


def no_alg(c, m):
    A = c.lab.name("pycose.headers.Algorithm")
    for b in ("phdr", "uhdr"):
        c.header(m, b, A, None)


def message(lab, cls, i, kind="direct"):
    """(ctx, object, operation arguments by method, recipient)"""
    if cls == "CoseSignature":
        c, p = msg_ctx(lab, "SignMessage")
        m = signer_of(c, "signer", p, i)
        if i is None:
            no_alg(c, m)
        c.set(p, "signers", c.list(m))
        return c, m, None
    c, m = msg_ctx(lab, cls, i)
    extsig.DUMPS_LEN[0] = 64
    if i is None:
        no_alg(c, m)
    rc = None
    if cls in ("MacMessage", "EncMessage"):
        rc = rcpt_for(c, kind)
        c.set(m, "recipients", c.list(rc))
    return c, m, rc


def run(lab, rep, tier):
    n = messages(lab, rep, tier) + keyless(lab, rep) + recipients(lab, rep) + direct(lab, rep) + agreement(lab, rep)
    rep.floor("unsuitable operations", n, 800)


def foreign(fam):
    return [None] + [i for i in sorted(iana.ALGS) if iana.ALGS[i][1] not in fam]


def messages(lab, rep, tier):
    n = 0
    for cls, ops in OPS.items():
        for i in foreign(FAM[cls]):
            nm = "no algorithm" if i is None else iana.ALGS[i][0]
            for kc in KEYS:
                for op in ops:
                    what = "%s.%s with %s and a %s" % (cls, op, nm, kc)
                    with rep.case(what):
                        c, m, rc = message(lab, cls, i)
                        try:
                            c.set(m, "key", c.inst("pycose.keys." + kc, "key"))
                        except AnalysisError:
                            rep.ok(what + ": the key is not accepted")      # refused earlier
                            continue
                        n += 1
                        r = c.run(m, op, *((rc,) if op == "decrypt" and rc is not None else ()))
                        extsig.DUMPS_LEN[0] = None
                        refused(rep, r, op, "algorithm|%s.%s|%s" % (cls, op, "missing" if i is None else iana.ALGS[i][1]), what)
                    extsig.DUMPS_LEN[0] = None
    # content algorithm of a message with key-transporting recipients
    for cls, op in (("EncMessage", "encrypt"), ("EncMessage", "encode"), ("EncMessage", "decrypt"), ("MacMessage", "compute_tag"), ("MacMessage", "encode")):
        for kind in ("aeskw", "oaep", "ecdhdirect", "ecdhkw", "ecdhdirect-es", "ecdhkw-es"):
            for i in foreign(FAM[cls])[:: 1 if tier == "thorough" else 5]:
                nm = "no algorithm" if i is None else iana.ALGS[i][0]
                what = "%s.%s with %s via %s" % (cls, op, nm, kind)
                with rep.case(what):
                    c, m, _ = message(lab, cls, i, kind)
                    if op == "decrypt":
                        rc = rx_recipient(c, kind)
                        c.set(m, "recipients", c.list(rc))
                        r = c.run(m, op, rc)
                    else:
                        r = c.run(m, op)
                    extsig.DUMPS_LEN[0] = None
                    n += 1
                    key = "algorithm|%s.%s via %s|%s" % (cls, op, kind, "missing" if i is None else iana.ALGS[i][1])
                    ok_guard(rep, r.pc, key, what + " is refused")
                    for e in sign_events(r) + mac_events(r) + aead_events(r, ".encrypt") + aead_events(r, ".decrypt"):
                        ok_guard(rep, e.pc, key + "|primitive", what + ": the content is not processed", e.where())
                extsig.DUMPS_LEN[0] = None
    return n


def keyless(lab, rep):
    n = 0
    for cls, ops in OPS.items():
        for i, nm, par in iana.algs(*FAM[cls]):
            for op in ops:
                what = "%s.%s[%s] without a key" % (cls, op, nm)
                with rep.case(what):
                    c, m, rc = message(lab, cls, i)
                    c.set(m, "key", NONE)
                    r = c.run(m, op, *((rc,) if op == "decrypt" and rc is not None else ()))
                    n += 1
                    refused(rep, r, op, "no-key|%s.%s" % (cls, op), what)
                extsig.DUMPS_LEN[0] = None
                # as constructed or decoded, no key was ever set
                if cls != "CoseSignature":
                    what = "%s.%s[%s], newly created, without a key" % (cls, op, nm)
                    with rep.case(what):
                        c = lab.ctx()
                        extsig.DUMPS_LEN[0] = 64
                        kw = {}
                        rc = None
                        if cls in ("MacMessage", "EncMessage"):
                            rc = rcpt_for(c, "direct")
                            kw["recipients"] = c.list(rc)
                        m = c.new("pycose.messages." + cls, phdr=c.dict([(lab.name("pycose.headers.Algorithm"), algterm(lab, i))]),
                                  uhdr=c.dict([(lab.name("pycose.headers.IV"), sym("iv", "bytes"))]), payload=sym("payload", "bytes"), **kw)
                        r = c.run(m, op, *((rc,) if op == "decrypt" and rc is not None else ()))
                        n += 1
                        refused(rep, r, op, "no-key|%s.%s" % (cls, op), what)
                    extsig.DUMPS_LEN[0] = None
    return n


def recipients(lab, rep):
    """Key wrap structures on their own."""
    n = 0
    G = algterm(lab, 1)
    for kind, fam in (("KeyWrap", ("aeskw", "oaep")), ("KeyAgreementWithKeyWrap", ("ecdhkw",)), ("DirectKeyAgreement", ("ecdhdirect",))):
        for op in ("encrypt", "decrypt"):
            for i in foreign(fam):
                nm = "no algorithm" if i is None else iana.ALGS[i][0]
                for kc in ("SymmetricKey", "RSAKey") if kind == "KeyWrap" else ("EC2Key",):
                    what = "%s.%s with %s and a %s" % (kind, op, nm, kc)
                    with rep.case(what):
                        c = lab.ctx()
                        rc = c.inst(RCPT + kind, "rcpt")
                        dict_headers(c, rc)
                        if i is None:
                            no_alg(c, rc)
                        else:
                            c.with_alg(rc, algterm(lab, i), "uhdr")
                        c.set(rc, "payload", sym("wrapped", "bytes"))
                        c.set(rc, "key", c.inst("pycose.keys." + kc, "key"))
                        if kind != "KeyWrap":
                            for H in ("EphemeralKey", "StaticKey"):
                                c.header(rc, "phdr", lab.name("pycose.headers." + H), None)
                                c.header(rc, "uhdr", lab.name("pycose.headers." + H), c.inst("pycose.keys.EC2Key", "peer_" + H))
                            local_attrs(c, rc, [(lab.name("pycose.headers.StaticKey"), c.inst("pycose.keys.EC2Key", "peer"))])
                        r = c.run(rc, "compute_cek", G, const(op)) if kind == "DirectKeyAgreement" else c.run(rc, op, G)
                        n += 1
                        refused(rep, r, op, "algorithm|%s.%s|%s" % (kind, op, "missing" if i is None else iana.ALGS[i][1]), what)
            for i, nm, par in iana.algs(*(fam if kind == "KeyWrap" else ())):
                what = "%s.%s[%s] without a key" % (kind, op, nm)
                with rep.case(what):
                    c = lab.ctx()
                    rc = rx_recipient_alg(c, i)
                    c.set(rc, "key", NONE)
                    c.set(rc, "recipients", c.list())
                    r = c.run(rc, op, G)
                    n += 1
                    refused(rep, r, op, "no-key|%s.%s" % (kind, op), what)
    return n


def direct(lab, rep):
    """A message is not sent with a direct-encryption structure that names no algorithm."""
    n = 0
    for cls in ("EncMessage", "MacMessage"):
        for i in DIRECT_FOREIGN:
            for shape in ("in any state", "newly created", "newly created with a KID"):
                if i is not None and shape == "newly created":
                    continue
                what = "%s.encode with a direct recipient, %s, with %s" % (cls, shape, "no algorithm" if i is None else iana.ALGS[i][0])
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, {"EncMessage": 1, "MacMessage": 5}[cls])
                    c.set(m, "key", sym_key(c))
                    if shape == "in any state":
                        rc = c.inst(RCPT + "DirectEncryption", "rcpt")
                        dict_headers(c, rc)
                        if i is None:
                            no_alg(c, rc)
                        else:
                            c.with_alg(rc, algterm(lab, i), "uhdr")
                    else:
                        h = [] if i is None else [(lab.name("pycose.headers.Algorithm"), algterm(lab, i))]
                        if shape.endswith("KID"):
                            h.append((lab.name("pycose.headers.KID"), sym("kid", "bytes")))
                        rc = c.new(RCPT + "DirectEncryption", **({"uhdr": c.dict(h)} if h else {}))
                    c.set(m, "recipients", c.list(rc))
                    r = c.run(m, "encode")
                    n += 1
                    ok_guard(rep, r.pc, "algorithm|%s.encode direct|%s" % (cls, "missing" if i is None else iana.ALGS[i][1]), what + " is refused")
    return n


def agreement(lab, rep):
    n = 0
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        H = lab.name(c16.header_name(par))
        for side in (c16.SEND, c16.RECV):
            for miss in ("own", "peer"):
                if miss == "own" and side == c16.SEND and not par["static"]:
                    continue            # an ephemeral key is generated
                what = "EncMessage via %s, %s, without the %s key" % (nm, side, miss)
                with rep.case(what):
                    c, m, r, own, peer = c16.build(lab, "EncMessage", i, 1, side, "P256", "P256", False)
                    if miss == "own":
                        c.set(r, "key", NONE)
                    elif side == c16.SEND:
                        local_attrs(c, r, [])
                    else:
                        for h in ("EphemeralKey", "StaticKey"):
                            for b in ("phdr", "uhdr"):
                                c.header(r, b, lab.name("pycose.headers." + h), None)
                    x = c16.operate(c, m, r, "EncMessage", side)
                    n += 1
                    refused(rep, x, "encrypt", "no-key|%s.%s|%s" % (RCPT_OF[kind], side, miss), what)
                extsig.DUMPS_LEN[0] = None
        # a key under the other header parameter only
        what = "EncMessage via %s, receiving, with the peer key under the other parameter" % nm
        with rep.case(what):
            c, m, r, own, peer = c16.build(lab, "EncMessage", i, 1, c16.RECV, "P256", "P256", False)
            other = lab.name("pycose.headers." + ("EphemeralKey" if par["static"] else "StaticKey"))
            c.header(r, "uhdr", H, None)
            c.header(r, "uhdr", other, peer)
            x = c16.operate(c, m, r, "EncMessage", c16.RECV)
            n += 1
            refused(rep, x, "decrypt", "no-key|%s.receive|other parameter" % RCPT_OF[kind], what)
        extsig.DUMPS_LEN[0] = None
    return n
