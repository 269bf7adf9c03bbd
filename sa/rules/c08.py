"""C08: a header parameter present in both buckets is refused; lookups are exact."""
from .common import *      # noqa

RULE = ("get_attr yields the value of the one bucket carrying the parameter, the default when neither does, and raises "
        "exactly when both do; no primitive runs with an algorithm or nonce parameter carried twice")
EXPLAIN = ("Lookup of every registered header parameter on an arbitrary instance of every message, signer and recipient "
           "class: result and raise condition compared with the specification over both buckets. For every operation the "
           "guard of the primitive call is decided unsatisfiable when the algorithm (or the IV / partial IV of an "
           "encryption) sits in both buckets.")
CLASSES = ["pycose.messages." + x for x in MSGCLS] + ["pycose.messages.signer.CoseSignature"] + [
    RCPT + x for x in sorted(set(RCPT_OF.values()))]


def run(lab, rep, tier):
    n = 0
    attrs = {nm: lab.name("pycose.headers." + nm) for nm in iana.HEADERS.values() if nm != "Reserved"}
    for cls in CLASSES:
        short = cls.rsplit(".", 1)[-1]
        for nm, a in list(attrs.items()) + [("any", sym("attribute"))]:
            for dflt in ("none", "given"):
                what = "%s.get_attr(%s%s)" % (short, nm, "" if dflt == "none" else ", default")
                with rep.case(what):
                    c = lab.ctx()
                    m = c.inst(cls, "msg")
                    dict_headers(c, m)
                    d = NONE if dflt == "none" else sym("default")
                    exp, _ = c.spec("lookup", m, a, d)
                    both, _ = c.spec("in_both", m, a)
                    gb = g_truthy(both)
                    r = c.run(m, "get_attr", a, *([] if dflt == "none" else [d]))
                    n += 1
                    bad = B.And(r.pc, gb)
                    key = "get_attr"
                    if sat(bad):
                        verdict(rep, bad, "both|" + key, what + ": a parameter in both buckets is refused")
                    else:
                        rep.ok(what + ": refused when in both buckets")
                    rg = B.Or(FALSE, *[e[0] for e in r.raises])
                    wrong = B.And(rg, B.Not(gb))
                    if sat(wrong):
                        verdict(rep, wrong, "spurious|" + key, what + ": refused only when in both buckets")
                    else:
                        rep.ok(what + ": refused only when in both buckets")
                    for e in r.raises:
                        en = lab.I.exc_name(e[3])
                        rep.check(is_cose_exc(lab, e[3]) or None if en == "?" else is_cose_exc(lab, e[3]), "exception|" + key,
                                  what + ": the refusal is a COSE exception", "", en)
                    if r.pc != FALSE:
                        rep.same(c.snap(r), exp, r.pc, "value|" + key, what + ": value")
    n += operations(lab, rep)
    rep.floor("lookups and operations", n, 300)


def verdict(rep, g, key, what):
    if imprecise(g):
        rep.undecided(what)
    else:
        rep.bad(key, what, "", showg(g)[:300])


def is_cose_exc(lab, t):
    """Raised value of one of the package's own exception classes."""
    n = lab.I.exc_name(t)
    return n in COSE_EXC or any(q.rsplit(".", 1)[-1] == n and q.startswith("pycose.") for q in lab.I.classes)


COSE_EXC = {"CoseException", "CoseMalformedMessage", "CoseIllegalAlgorithm", "CoseInvalidKey", "CoseIllegalKeyType",
            "CoseIllegalKeyOps", "CoseInvalidAlgorithm"}


def put(c, m, a, v1, v2):
    c.header(m, "phdr", a, v1)
    c.header(m, "uhdr", a, v2)


def operations(lab, rep):
    n = 0
    A, IV, PIV = (lab.name("pycose.headers." + x) for x in ("Algorithm", "IV", "PartialIV"))

    def deny(what, key, c, o, meth, args, evf, set_up):
        nonlocal n
        with rep.case(what):
            set_up(c)
            r = c.run(o, meth, *args)
            n += 1
            evs = [e for e in evf(r) if sat(e.pc)]
            if not evs:
                rep.ok(what)
            else:
                verdict(rep, evs[0].pc, key, what)
    for i, other in ((-7, -7), (-7, -35), (-8, -8), (-37, -38)):
        keycls, curve = sig_keys(lab, i)[0]
        for meth, evf in (("compute_signature", sign_events), ("verify_signature", verify_events), ("encode", sign_events)):
            c, m = msg_ctx(lab, "Sign1Message", i)
            c.set(m, "key", sig_key(c, keycls, curve))
            deny("Sign1Message.%s with algorithm %d/%d in both buckets" % (meth, i, other), "twice|Sign1Message", c, m, meth, (),
                 evf, lambda c: put(c, m, A, algterm(lab, i), algterm(lab, other)))
            c, m = msg_ctx(lab, "SignMessage", None)
            s = signer_of(c, "signer1", m, i)
            c.set(m, "signers", c.list(s))
            c.set(s, "key", sig_key(c, keycls, curve))
            deny("CoseSignature.%s with algorithm %d/%d in both buckets" % (meth, i, other), "twice|CoseSignature", c, s, meth,
                 (), evf, lambda c: put(c, s, A, algterm(lab, i), algterm(lab, other)))
    for i, other in ((5, 5), (5, 7), (26, 5)):
        for cls in ("Mac0Message", "MacMessage"):
            for meth in ("compute_tag", "verify_tag", "encode"):
                c, m = msg_ctx(lab, cls, i)
                c.set(m, "key", sym_key(c))
                if cls == "MacMessage":
                    c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                extsig.DUMPS_LEN[0] = 64
                deny("%s.%s with algorithm %d/%d in both buckets" % (cls, meth, i, other), "twice|" + cls, c, m, meth, (),
                     mac_events, lambda c: put(c, m, A, algterm(lab, i), algterm(lab, other)))
                extsig.DUMPS_LEN[0] = None
    for i, other in ((1, 1), (1, 3), (10, 30)):
        for cls in ("Enc0Message", "EncMessage"):
            for meth in ("encrypt", "decrypt", "encode"):
                for attr, a, v in (("algorithm", A, None), ("IV", IV, sym("iv1", "bytes")), ("partial IV", PIV, sym("p1", "bytes"))):
                    c, m = msg_ctx(lab, cls, i)
                    key = sym_key(c)
                    c.set(m, "key", key)
                    args = ()
                    if cls == "EncMessage":
                        rc = rcpt_for(c, "direct")
                        c.set(m, "recipients", c.list(rc))
                        args = (rc,) if meth == "decrypt" else ()

                    def up(c):
                        if attr == "algorithm":
                            put(c, m, A, algterm(lab, i), algterm(lab, other))
                        elif attr == "IV":
                            put(c, m, IV, v, sym("iv2", "bytes"))
                        else:
                            put(c, m, IV, None, None)
                            put(c, m, PIV, v, sym("p2", "bytes"))
                    deny("%s.%s with %s of %d in both buckets" % (cls, meth, attr, i), "twice|%s" % cls, c, m, meth, args,
                         lambda r: aead_events(r, ".encrypt") + aead_events(r, ".decrypt"), up)
    G = algterm(lab, 1)
    for i in (-3, -41, -29, -32):
        for meth in ("encrypt", "decrypt"):
            c = lab.ctx()
            rc = rx_recipient_alg(c, i, bucket="uhdr")
            if meth == "encrypt" and i in (-29, -32):
                c.set(rc, "local_attrs", c.dict([(lab.name("pycose.headers.StaticKey"), ec_key(c, "peer"))]))
            deny("%s.%s with algorithm %d in both buckets" % (RCPT_OF[iana.ALGS[i][1]], meth, i),
                 "twice|" + RCPT_OF[iana.ALGS[i][1]], c, rc, meth, (G,),
                 lambda r: extcalls(r, "aes_key_wrap", "aes_key_unwrap", ".encrypt", ".decrypt", ".exchange"),
                 lambda c: put(c, rc, A, algterm(lab, i), algterm(lab, i)))
    return n
