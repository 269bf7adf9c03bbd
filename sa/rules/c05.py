"""C05: a key is only used for what it is."""
from .common import *      # noqa
from .. import terms as tm

RULE = ("no cryptographic primitive is reachable with a key whose type, recorded algorithm or recorded operations do not "
        "permit the operation; and it is reachable with a key that permits it")
EXPLAIN = ("Dominance of key checks over primitive calls: for every registered algorithm and operation the primitive call "
           "is analysed with a key object of each class, with the recorded algorithm absent / equal / every other value of "
           "the same family, and with the recorded operations absent / each single operation / pairs; the guard of the "
           "primitive call has to be unsatisfiable exactly for the impermissible keys. For a key in an arbitrary state the "
           "guard has to imply the permission condition.")

KEYCLS = {"EC2": "pycose.keys.EC2Key", "OKP": "pycose.keys.OKPKey", "RSA": "pycose.keys.RSAKey",
          "Symmetric": "pycose.keys.SymmetricKey"}


def setup_key(c, cname, curve, name="key"):
    if cname in ("EC2", "OKP"):
        return sig_key(c, KEYCLS[cname], curve or ("P256" if cname == "EC2" else "Ed25519"), name)
    return c.inst(KEYCLS[cname], name)


def operations(lab):
    """(label, alg id, key class, curve, allowed ops, builder(ctx, key) -> (obj, method, args, kw), events)"""
    out = []
    A = lab.name
    G = algterm(lab, 1)
    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            kc = [k for k, v in KEYCLS.items() if v == keycls][0]
            for meth, ops, evf in (("compute_signature", ("SignOp",), sign_events),
                                   ("verify_signature", ("VerifyOp",), verify_events)):
                def b1(c, key, i=i, meth=meth):
                    m = c.inst("pycose.messages.Sign1Message", "msg")
                    prep(c, m, i)
                    c.set(m, "key", key)
                    return m, meth, ()

                def b2(c, key, i=i, meth=meth):
                    m = c.inst("pycose.messages.SignMessage", "msg")
                    dict_headers(c, m)
                    c.set(m, "payload", sym("payload", "bytes"))
                    s = signer_of(c, "signer1", m, i)
                    c.set(m, "signers", c.list(s))
                    c.set(s, "key", key)
                    return s, meth, ()
                out.append(("Sign1Message.%s[%s]" % (meth, nm), i, kc, curve, ops, b1, evf))
                out.append(("CoseSignature.%s[%s]" % (meth, nm), i, kc, curve, ops, b2, evf))
    for i, nm, par in iana.algs("hmac", "aesmac"):
        for cls in ("Mac0Message", "MacMessage"):
            for meth, ops in (("compute_tag", ("MacCreateOp",)), ("verify_tag", ("MacVerifyOp",))):
                def b(c, key, i=i, cls=cls, meth=meth):
                    extsig.DUMPS_LEN[0] = 64
                    m = c.inst("pycose.messages." + cls, "msg")
                    prep(c, m, i)
                    c.set(m, "key", key)
                    if cls == "MacMessage":
                        c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                    return m, meth, ()
                out.append(("%s.%s[%s]" % (cls, meth, nm), i, "Symmetric", None, ops, b, mac_events))
    for i, nm, par in iana.algs("gcm", "ccm"):
        for cls in ("Enc0Message", "EncMessage"):
            for meth, ops in (("encrypt", ("EncryptOp",)), ("decrypt", ("DecryptOp",))):
                def b(c, key, i=i, cls=cls, meth=meth):
                    m = c.inst("pycose.messages." + cls, "msg")
                    prep(c, m, i)
                    c.set(m, "key", key)
                    args = ()
                    if cls == "EncMessage":
                        rc = rcpt_for(c, "direct")
                        c.set(m, "recipients", c.list(rc))
                        args = (rc,) if meth == "decrypt" else ()
                    return m, meth, args
                out.append(("%s.%s[%s]" % (cls, meth, nm), i, "Symmetric", None, ops, b,
                            lambda r, w="." + meth: aead_events(r, w)))
    for i, nm, par in iana.algs("aeskw", "oaep"):
        for meth, ops, prim in (("encrypt", ("WrapOp", "EncryptOp"), ("aes_key_wrap", ".encrypt")),
                                ("decrypt", ("UnwrapOp", "DecryptOp"), ("aes_key_unwrap", ".decrypt"))):
            def b(c, key, i=i, meth=meth):
                rc = rx_recipient_alg(c, i)
                if meth == "encrypt":
                    for bk in ("phdr",):
                        empty_bucket(c, rc, bk)
                c.set(rc, "key", key)
                return rc, meth, (G,)
            out.append(("KeyWrap.%s[%s]" % (meth, nm), i, "Symmetric" if iana.ALGS[i][1] == "aeskw" else "RSA", None, ops,
                        b, lambda r, p=prim: wrap_events(r, p)))
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for side in ("send", "receive"):
            for which in ("own", "peer"):
                def b(c, key, i=i, side=side, which=which, kind=kind):
                    rc = rx_recipient_alg(c, i)
                    own, peer = ec_key(c, "own_other"), ec_key(c, "peer_other")
                    own, peer = (key, peer) if which == "own" else (own, key)
                    c.set(rc, "key", own)
                    if side == "send":
                        c.set(rc, "local_attrs", c.dict([(c.lab.name("pycose.headers.StaticKey"), peer)]))
                    else:
                        H = c.lab.name("pycose.headers." + ("StaticKey" if iana.ALGS[i][2]["static"] else "EphemeralKey"))
                        c.header(rc, "uhdr", H, peer)
                    if kind == "ecdhdirect":
                        return rc, "compute_cek", (G, const("encrypt" if side == "send" else "decrypt"))
                    return rc, "encrypt" if side == "send" else "decrypt", (G,)
                out.append(("%s.%s[%s,%s key]" % (RCPT_OF[kind], side, nm, which), i, "EC2", "P256",
                            ("DeriveKeyOp", "DeriveBitsOp"), b, lambda r: extcalls(r, ".exchange")))
    return out


def empty_bucket(c, o, bucket):
    c.set(o, bucket, c.dict())


def wrap_events(r, prim):
    return extcalls(r, prim[0]) + extcalls(r, prim[1], ctor=("RSAPublicNumbers", "RSAPrivateNumbers"))


def prep(c, m, i):
    dict_headers(c, m)
    c.with_alg(m, algterm(c.lab, i))
    c.set(m, "payload", sym("payload", "bytes"))
    c.set(m, "external_aad", sym("external_aad", "bytes"))


def run(lab, rep, tier):
    KpAlg, KpOps = lab.name("pycose.keys.keyparam.KpAlg"), lab.name("pycose.keys.keyparam.KpKeyOps")
    opname = list(iana.KEYOPS.values())
    opterm = {n: lab.name("pycose.keys.keyops." + n) for n in opname}
    reach = 0
    for label, i, kc, curve, allowed, build, evf in operations(lab):
        cname = label.split("[")[0] + ("|peer" if "peer key" in label else "")
        fam = [j for j in iana.ALGS if iana.ALGS[j][1] == iana.ALGS[i][1] and j != i]
        other = 1 if iana.ALGS[i][1] != "gcm" else 5

        def q(keyset, wrong=None):
            c = lab.ctx()
            key = setup_key(c, wrong or kc, curve if not wrong else None)
            keyset(c, key)
            try:
                o, meth, args = build(c, key)
            except AnalysisError:
                if wrong:
                    return None, []     # the setter refuses the key
                raise
            r = c.run(o, meth, *args)
            extsig.DUMPS_LEN[0] = None
            return r, [e for e in evf(r) if sat(e.pc) and mentions_key(e, key)]

        def deny(what, keyset, key, wrong=None):
            with rep.case(what):
                deny1(what, keyset, key, wrong)

        def deny1(what, keyset, key, wrong=None):
            r, evs = q(keyset, wrong)
            if r is None or not evs:
                rep.ok(what)
                return
            e = evs[0]
            if imprecise(e.pc):
                rep.undecided(what)
            else:
                rep.bad(key, what, e.where(), showg(e.pc)[:300])

        def allow(what, keyset, key):
            with rep.case(what):
                allow1(what, keyset, key)

        def allow1(what, keyset, key):
            nonlocal reach
            r, evs = q(keyset)
            if evs:
                reach += 1
                rep.ok(what)
            elif r.pc != FALSE and has_top(as_term(r.value, r.pc)):
                rep.undecided(what)
            else:
                rep.bad(key, what + " is refused", "", str(sorted({c_exc(lab, e) for e in r.raises})))

        # wrong key types
        for w in KEYCLS:
            if w != kc:
                deny("%s with a %s key never reaches the primitive" % (label, w), lambda c, k: None,
                     "key-type|" + cname, w)
        # algorithm
        for j in (fam if tier == "thorough" else fam[:3]) + [other]:
            deny("%s with a key restricted to %s" % (label, iana.ALGS[j][0]),
                 lambda c, k: c.setitem(k, KpAlg, algterm(lab, j)), "key-alg|" + cname)
        # operations
        singles = [(o,) for o in opname]
        pairs = [(a, b) for n, a in enumerate(opname) for b in opname[n + 1:]] if tier == "thorough" else [
            (opname[(n * 3 + abs(i)) % 10], opname[(n * 7 + 3 + abs(i)) % 10]) for n in range(3)]
        for ops in singles + pairs:
            ks = lambda c, k: c.setitem(k, KpOps, c.list(*[opterm[o] for o in ops]))   # noqa
            if set(ops) & set(allowed):
                def both(c, k):
                    ks(c, k)
                    c.setitem(k, KpAlg, algterm(lab, i))
                allow("%s with a key for %s" % (label, "+".join(ops)), both, "refused|" + cname)
            else:
                deny("%s with a key restricted to %s" % (label, "+".join(ops)), ks, "key-ops|" + cname)

        def free(c, k):
            c.setitem(k, KpOps, c.list())
        allow("%s with an unrestricted key" % label, free, "refused|" + cname)
        # arbitrary key
        with rep.case(label + " with an arbitrary key"):
            c = lab.ctx()
            key = setup_key(c, kc, curve)
            o, meth, args = build(c, key)
            okt, pc = c.spec("may_use", key, algterm(lab, i), *[opterm[a] for a in (allowed + allowed)[:2]])
            r = c.run(o, meth, *args)
            extsig.DUMPS_LEN[0] = None
            ok = B.And(pc, g_truthy(okt))
            for e in evf(r):
                if not mentions_key(e, key):
                    continue
                what = label + " with an arbitrary key: the call is guarded by the permission"
                bad = B.And(e.pc, B.Not(ok))
                if not sat(bad):
                    rep.ok(what)
                elif imprecise(bad):
                    rep.undecided(what)
                else:
                    rep.bad("guard|" + cname, what, e.where(), showg(bad)[:400])
    rep.floor("permitted uses reaching the primitive", reach, 100)
    semantics(lab, rep)


def c_exc(lab, e):
    return lab.I.exc_name(e[3])


def mentions_key(e, key):
    n = key.args[0]
    for x in [e.recv] + list(e.args) + list(e.kw.values()) + [e.result]:
        if isinstance(x, Term) and mentions(x, lambda t: t.op == "sym" and t.args[0] == n):
            return True
    return False


def semantics(lab, rep):
    """The public permission check itself."""
    KpAlg, KpOps = lab.name("pycose.keys.keyparam.KpAlg"), lab.name("pycose.keys.keyparam.KpKeyOps")
    opterm = {n: lab.name("pycose.keys.keyops." + n) for n in iana.KEYOPS.values()}
    ids = sorted(iana.ALGS)
    names = list(opterm)
    for kn, kc in KEYCLS.items():
        for tn, tc in KEYCLS.items():
            for rec in (None, -7, 1):
                for have in ([], ["SignOp"], ["EncryptOp", "WrapOp"]):
                    for want in (["SignOp"], ["WrapOp", "DecryptOp"]):
                        c = lab.ctx()
                        k = c.inst(kc, "key")
                        if rec is not None:
                            c.setitem(k, KpAlg, algterm(lab, rec))
                        else:
                            rm(c, k, KpAlg)
                        c.setitem(k, KpOps, c.list(*[opterm[o] for o in have]))
                        exp = kn == tn and rec in (None, -7) and (not have or bool(set(have) & set(want)))
                        r = c.run(k, "verify", lab.name(tc), algterm(lab, -7), c.list(*[opterm[o] for o in want]))
                        got = r.pc != FALSE and sat(r.pc)
                        may = bool(r.raises) and sat(B.Or(*[e[0] for e in r.raises]))
                        what = "%s.verify(%s, ES256, %s) with alg=%s ops=%s" % (kn, tn, want, rec, have)
                        if (got if not exp else may) and (imprecise(r.pc) or any(imprecise(e[0]) for e in r.raises)):
                            rep.undecided(what)
                        else:
                            rep.check(got == exp and may == (not exp), "verify|CoseKey.verify", what + " -> %s" % exp, "",
                                      "accepts: %s, refuses: %s" % (got, may))


def rm(c, k, param):
    """Absence of a key parameter (history: never set)."""
    g = g_in_store(c, k, param)
    c.st.pc = B.And(c.st.pc, B.Not(g))


def g_in_store(c, k, param):
    v, _ = c._muted(lambda: c.I.call_method(c.st, one(k), "__contains__", [one(param)], {}, None))
    return g_truthy(as_term(v, c.st.pc))
