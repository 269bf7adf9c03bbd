"""C06: primitives run with the bytes of the configured key."""
from .common import *      # noqa
from .. import terms as tm

RULE = ("the key material argument of every primitive call is the corresponding parameter of the key configured for the "
        "operation, unaltered")
EXPLAIN = ("Value flow from key objects to the key arguments of library constructors and key functions: every signing, "
           "verifying, MAC, AEAD, key wrap, key unwrap and key agreement primitive reached from the public operations is "
           "decomposed by its library constructor and each component compared, under the call's guard, with the parameter "
           "stored in the key object configured through the public API.")

P = "pycose.keys.keyparam."
PARAMS = {
    "EC2": {"d": P + "EC2KpD", "x": P + "EC2KpX", "y": P + "EC2KpY"},
    "OKP": {"d": P + "OKPKpD", "x": P + "OKPKpX"},
    "Symmetric": {"k": P + "SymKpK"},
    "RSA": {"n": P + "RSAKpN", "e": P + "RSAKpE", "d": P + "RSAKpD", "p": P + "RSAKpP", "q": P + "RSAKpQ",
            "dp": P + "RSAKpDP", "dq": P + "RSAKpDQ", "qinv": P + "RSAKpQInv"},
}


def kwof(t):
    return dict(t.args[2]) if len(t.args) > 2 and t.args[2] else {}


def components(t):
    """(component, is integer, value) triples of the key material in a library constructor term."""
    out = []

    def walk(x):
        if x.op == "fresh":
            return walk(x.args[1])
        if x.op != "call":
            if x.op in ("attr", "meth"):
                walk(x.args[0])
            return
        c, kw = x.args[0], kwof(x)
        n = c.args[0].rsplit(".", 1)[-1] if c.op == "ext" else None
        if n is None:
            return walk(c)
        if n == "from_secret_exponent":
            out.append(("d", True, kw.get("secexp")))
        elif n == "from_string" and "SigningKey" in c.args[0]:
            out.append(("d", False, kw.get("string")))
        elif n in ("derive_private_key", "EllipticCurvePrivateNumbers"):
            out.append(("d", True, kw.get("private_value")))
            if "public_numbers" in kw:
                walk(kw["public_numbers"])
        elif n == "from_public_point":
            walk(kw["point"])
        elif n in ("Point", "EllipticCurvePublicNumbers"):
            out.append(("x", True, kw.get("x")))
            out.append(("y", True, kw.get("y")))
        elif n == "from_private_bytes":
            out.append(("d", False, kw.get("data")))
        elif n == "from_public_bytes":
            out.append(("x", False, kw.get("data")))
        elif n == "RSAPublicNumbers":
            out.append(("e", True, kw.get("e")))
            out.append(("n", True, kw.get("n")))
        elif n == "RSAPrivateNumbers":
            for a, b in (("p", "p"), ("q", "q"), ("d", "d"), ("dmp1", "dp"), ("dmq1", "dq"), ("iqmp", "qinv")):
                out.append((b, True, kw.get(a)))
            walk(kw["public_numbers"])
        elif n in ("AESGCM", "AESCCM", "HMAC", "AES"):
            out.append(("k", False, kw.get("key")))
        elif n == "Cipher":
            walk(kw["algorithm"])
    walk(t)
    return out


def compare(rep, c, recv, kind, key, e, what, fkey, secret=None):
    """`recv` is a receiver term or the (component, is integer, value) triples; `secret` tells whether the operation takes the
    private part of an asymmetric key (None: either)."""
    n = 0
    alts = [(TRUE, recv)] if isinstance(recv, list) else [(g, components(t)) for g, t in from_term(recv)]
    for g0, comps in alts:
        if not sat(B.And(e.pc, g0)):
            continue
        if not comps:
            rep.undecided("%s: key material" % what)
        for nm, isint, val in comps:
            p = PARAMS[kind].get(nm)
            if p is None or val is None:
                rep.undecided("%s: component %s of the key" % (what, nm))
                continue
            if secret is False and nm == "d" and kind in ("EC2", "OKP"):
                rep.bad("public|" + fkey, "%s: the public key is derived from the private value" % what, e.where())
                continue
            pk = c.lab.name(p)
            # only where the parameter is there at all (its absence is another property)
            g = here(c, key, pk)
            exp, pc = c.spec("be" if isint else "raw", key, pk)
            n += rep.same(val, exp, B.And(e.pc, g0, g, pc), "key|%s|%s" % (fkey, nm), "%s: %s is the key's parameter" % (what, nm),
                          e.where()) is not None
        if secret and kind in ("EC2", "OKP") and comps and not any(x[0] == "d" for x in comps):
            rep.bad("private|" + fkey, "%s: the private value of the key is not used" % what, e.where())
    return n


def here(c, key, param):
    c2 = c.fork()
    v, _ = c2._muted(lambda: c2.I.call_method(c2.st, one(key), "__contains__", [one(param)], {}, None))
    return g_truthy(as_term(v, c2.st.pc))


def run(lab, rep, tier):
    n = 0
    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            kind = {"EC2Key": "EC2", "OKPKey": "OKP", "RSAKey": "RSA"}[keycls.rsplit(".", 1)[-1]]
            for cls in ("Sign1Message", "CoseSignature"):
                for meth, evf, sec in (("compute_signature", sign_events, True), ("verify_signature", verify_events, False)):
                    what = "%s.%s[%s,%s]" % (cls, meth, nm, curve or kind)
                    with rep.case(what):
                        if cls == "Sign1Message":
                            c, o = msg_ctx(lab, cls, i)
                        else:
                            c, m = msg_ctx(lab, "SignMessage", None)
                            o = signer_of(c, "signer1", m, i)
                            c.set(m, "signers", c.list(o))
                        key = sig_key(c, keycls, curve)
                        c.set(o, "key", key)
                        r = c.run(o, meth)
                        for e in evf(r):
                            n += compare(rep, c, e.recv, kind, key, e, what, "%s.%s|%s" % (cls, meth, kind), sec)
    for i, nm, par in iana.algs("hmac", "aesmac"):
        for cls in ("Mac0Message", "MacMessage"):
            for meth in ("compute_tag", "verify_tag"):
                what = "%s.%s[%s]" % (cls, meth, nm)
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, i)
                    extsig.DUMPS_LEN[0] = 64
                    key = sym_key(c)
                    c.set(m, "key", key)
                    if cls == "MacMessage":
                        c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                    r = c.run(m, meth)
                    for e in mac_events(r):
                        n += compare(rep, c, e.args[0], "Symmetric", key, e, what, "%s.%s" % (cls, meth))
                extsig.DUMPS_LEN[0] = None
    for i, nm, par in iana.algs("gcm", "ccm"):
        for cls in ("Enc0Message", "EncMessage"):
            for meth in ("encrypt", "decrypt", "encode"):
                what = "%s.%s[%s]" % (cls, meth, nm)
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, i)
                    key = sym_key(c)
                    c.set(m, "key", key)
                    args = []
                    if cls == "EncMessage":
                        rc = rcpt_for(c, "direct")
                        c.set(m, "recipients", c.list(rc))
                        args = [rc] if meth == "decrypt" else []
                    r = c.run(m, meth, *args)
                    for e in aead_events(r, ".encrypt") + aead_events(r, ".decrypt"):
                        n += compare(rep, c, e.recv, "Symmetric", key, e, what, "%s.%s" % (cls, meth))
    G = algterm(lab, 1)
    for i, nm, par in iana.algs("aeskw", "oaep"):
        for meth in ("encrypt", "decrypt"):
            what = "KeyWrap.%s[%s]" % (meth, nm)
            with rep.case(what):
                c = lab.ctx()
                rc = rx_recipient_alg(c, i)
                if meth == "encrypt":
                    c.set(rc, "phdr", c.dict())
                kind = "Symmetric" if iana.ALGS[i][1] == "aeskw" else "RSA"
                key = c.inst("pycose.keys.%sKey" % kind, "wrapkey")
                c.set(rc, "key", key)
                r = c.run(rc, meth, G)
                for e in extcalls(r, "aes_key_wrap", "aes_key_unwrap"):
                    n += compare(rep, c, [("k", False, e.kw.get("wrapping_key"))], kind, key, e, what, "KeyWrap." + meth)
                for e in extcalls(r, ".encrypt", ".decrypt", ctor=("RSAPublicNumbers", "RSAPrivateNumbers")):
                    n += compare(rep, c, e.recv, kind, key, e, what, "KeyWrap.%s|RSA" % meth)
    from . import c16
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for side in (c16.SEND, c16.RECV):
            fresh = side == c16.SEND and not par["static"]
            what = "key agreement %s, %s" % (nm, side)
            with rep.case(what):
                c, m, r, own, peer = c16.build(lab, "EncMessage", i, 1, side, "P256", "P256", False)
                pre = c.fork()
                x = c16.operate(c, m, r, "EncMessage", side)
                for e in extcalls(x, ".exchange"):
                    n += c16.check_exchange(rep, pre, e, own, peer, None, what, "%s.%s%s" % (RCPT_OF[kind], side, "+eph" if fresh else ""))
    n += sequences(lab, rep)
    rep.floor("key material arguments compared", n, 120)


def sequences(lab, rep):
    """The same operation on another message with another key just before, the two keys carrying the same key identifier."""
    n, seen = 0, set()

    def two(what, kind, mk, meth, evs, fkey, sec=None, args=()):
        nonlocal n
        with rep.case(what):
            c = lab.ctx()
            o0, k0 = mk(c, "0")
            o, k = mk(c, "")
            same_kid(c, k0, k)
            x = c.run(o0, meth, *args)
            c = after(c, x)
            if c is None:
                rep.undecided(what + ": never completes")
                return
            r = c.run(o, meth, *args)
            for e, recv in evs(r):
                n += compare(rep, c, recv, kind, k, e, what, fkey + "|again", sec)
        # the same key, its parameters replaced in between
        for which in ("the same", "another"):
            with rep.case(what + " after a change of the key, %s object" % which):
                c = lab.ctx()
                o, k = mk(c, "")
                x = c.run(o, meth, *args)
                c = after(c, x)
                if c is None:
                    rep.undecided(what + ": never completes")
                    return
                for nm, p in PARAMS[kind].items():
                    c.setitem(k, c.lab.name(p), sym("new " + nm, "bytes"))
                if which == "another":
                    o, _ = mk(c, "2")
                    c.set(o, "key", k)
                r = c.run(o, meth, *args)
                for e, recv in evs(r):
                    n += compare(rep, c, recv, kind, k, e, what, fkey + "|changed", sec)
        extsig.DUMPS_LEN[0] = None

    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            kind = keycls.rsplit(".", 1)[-1][:-3]
            if (par["fam"], curve) in seen:
                continue
            seen.add((par["fam"], curve))

            def mk(c, t):
                m = msg_in(c, "Sign1Message", i, tag=t)
                k = sig_key(c, keycls, curve, "key" + t)
                c.set(m, "key", k)
                return m, k
            for meth, evf, sec in (("compute_signature", sign_events, True), ("verify_signature", verify_events, False)):
                two("second Sign1Message.%s[%s,%s]" % (meth, nm, curve or kind), kind, mk, meth,
                    lambda r: [(e, e.recv) for e in evf(r)], "Sign1Message.%s|%s" % (meth, kind), sec)
    for fams, cls, meths in ((("hmac",), "Mac0Message", ("compute_tag", "verify_tag")),
                             (("aesmac",), "Mac0Message", ("compute_tag", "verify_tag")),
                             (("gcm",), "Enc0Message", ("encrypt", "decrypt")),
                             (("ccm",), "Enc0Message", ("encrypt", "decrypt"))):
        i, nm, par = iana.algs(*fams)[0]

        def mk(c, t):
            extsig.DUMPS_LEN[0] = 64 if cls == "Mac0Message" else None
            m = msg_in(c, cls, i, tag=t)
            k = sym_key(c, "key" + t)
            c.set(m, "key", k)
            return m, k
        for meth in meths:
            two("second %s.%s[%s]" % (cls, meth, nm), "Symmetric", mk, meth,
                lambda r: [(e, e.args[0]) for e in mac_events(r)] if cls == "Mac0Message" else
                [(e, e.recv) for e in aead_events(r, ".encrypt") + aead_events(r, ".decrypt")], "%s.%s" % (cls, meth))
    for i in (-3, -40):
        kind = "Symmetric" if i == -3 else "RSA"

        def mk(c, t):
            rc = rx_recipient_alg(c, i, "rcpt" + t)
            bytes_header(c, rc)
            k = c.inst("pycose.keys.%sKey" % kind, "wrapkey" + t)
            c.set(rc, "key", k)
            return rc, k
        for meth in ("encrypt", "decrypt"):
            two("second KeyWrap.%s[%s]" % (meth, iana.ALGS[i][0]), kind, mk, meth,
                lambda r: [(e, [("k", False, e.kw.get("wrapping_key"))]) for e in extcalls(r, "aes_key_wrap", "aes_key_unwrap")] +
                [(e, e.recv) for e in extcalls(r, ".encrypt", ".decrypt", ctor=("RSAPublicNumbers", "RSAPrivateNumbers"))],
                "KeyWrap." + meth, None, (algterm(lab, 1),))
    return n
