"""C01: the bytes handed to every signature primitive are the RFC 8152 4.4 Sig_structure."""
from .common import *      # noqa

RULE = ("value flow into the message argument of every signing/verification primitive equals the Sig_structure "
        "specification, for every registered signature algorithm, key type, header bucket and payload mode")
EXPLAIN = ("Gated value-flow analysis of Sign1Message / SignMessage / CoseSignature encode, compute_signature and "
           "verify_signature: for each registered signature algorithm (algorithm classes inlined) the term reaching the "
           "data argument of the library signing or verification call is compared, under the guard of that call, with "
           "the Sig_structure specification evaluated in the same abstract state. Messages are arbitrary instances "
           "(cached encoded header or not, empty header or not).")


def events(rep, r, evs, exp, c, m, what, key, spec, detached):
    n = 0
    for e in evs:
        d = e.kw.get("data", e.kw.get("digest"))
        if d is None:
            rep.undecided("%s: data argument not found at %s" % (what, e.where()))
            continue
        n += 1
        s = dumped(d)
        if s is None:
            if has_top(d):
                rep.undecided("%s: %s" % (what, show(d)[:120]))
            else:
                rep.bad("sig-input|%s" % key, "%s is not fed a serialised Sig_structure" % what, e.where(), show(d)[:300])
            continue
        rep.same(s, exp, e.pc, "sig-input|%s" % key, "%s: Sig_structure under %s" % (what, e.name), e.where())
    return n


def run(lab, rep, tier):
    P, D = sym("payload", "bytes"), sym("detached", "bytes")
    total = 0
    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            for bucket in ("phdr", "uhdr"):
                for mode in ("attached", "detached", "unknown"):
                    det = D if mode == "detached" else None
                    for meth in ("encode", "compute_signature", "verify_signature"):
                        what = "Sign1Message.%s[%s,%s,%s]" % (meth, nm, bucket, mode)
                        with rep.case(what):
                            c, m = msg_ctx(lab, "Sign1Message", i, bucket,
                                           {"attached": "bytes", "detached": "none", "unknown": None}[mode])
                            c.set(m, "key", sig_key(c, keycls, curve))
                            pay = c.get1(m, "payload") if mode == "unknown" else (det or P)
                            kw = {"detached_payload": det} if det else {}
                            exp, _ = c.spec("sig_structure1", m, pay)
                            r = c.run(m, meth, **kw)
                            evs = verify_events(r) if meth == "verify_signature" else sign_events(r)
                            n = events(rep, r, evs, exp, c, m, what, "Sign1Message." + meth, None, det)
                            total += n
                            signature_use(rep, c, m, r, evs, meth, what, "Sign1Message")
                            absent(rep, r, n, what, "Sign1Message." + meth)
    # COSE_Sign: signers
    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            for bucket in ("phdr", "uhdr"):
                for mode in ("attached", "detached"):
                    det = D if mode == "detached" else None
                    for meth in ("encode", "verify_signature", "compute_signature", "SignMessage.encode"):
                        with rep.case("COSE_Sign %s %s" % (nm, meth)):
                            c, m = msg_ctx(lab, "SignMessage", None, payload="bytes" if not det else "none")
                            s1 = signer_of(c, "signer1", m, i, bucket)
                            c.set(s1, "key", sig_key(c, keycls, curve, "key1"))
                            sl = [s1]
                            if meth == "SignMessage.encode":
                                s2 = signer_of(c, "signer2", m, i, bucket)
                                c.set(s2, "key", sig_key(c, keycls, curve, "key2"))
                                sl.append(s2)
                            c.set(m, "signers", c.list(*sl))
                            kw = {"detached_payload": det} if det else {}
                            what = "%s[%s,%s,%s]" % (meth if "." in meth else "CoseSignature." + meth, nm, bucket, mode)
                            exps = [c.spec("sig_structure", m, s, det or P)[0] for s in sl]
                            r = c.run(m if "." in meth else s1, "encode" if "." in meth else meth, **kw)
                            evs = verify_events(r) if meth == "verify_signature" else sign_events(r)
                            key = meth if "." in meth else "CoseSignature." + meth
                            if len(sl) == 1:
                                n = events(rep, r, evs, exps[0], c, m, what, key, None, det)
                                signature_use(rep, c, s1, r, evs, meth, what, "CoseSignature")
                            else:
                                n = 0
                                for s, exp in zip(sl, exps):
                                    sub = [e for e in evs if mentions_key(e, s)]
                                    n += events(rep, r, sub, exp, c, m, what, key, None, det)
                                    if not sub:
                                        absent(rep, r, 0, what + " for " + show(s), key)
                            total += n
                            absent(rep, r, n, what, key)
    total += by_history(lab, rep)
    for cls in ("Sign1Message", "SignMessage"):
        for i in (-7, -8, -37):
            no_payload(lab, rep, cls, i, lambda r: sign_events(r) + verify_events(r),
                       ("compute_signature", "verify_signature", "encode"), "no-payload|" + cls)
    rep.floor("signing/verification primitive uses matched", total, 80)


def by_history(lab, rep):
    """Structures after explicit histories, where the serialised headers are known without asking the object."""
    n = 0
    P = sym("payload", "bytes")
    aad = sym("external_aad", "bytes")
    for i, keycls, curve in ((-7, "pycose.keys.EC2Key", "P256"), (-8, "pycose.keys.OKPKey", "Ed25519"),
                             (-37, "pycose.keys.RSAKey", None)):
        for label, f in histories(lab, "Sign1Message", i):
            for meth in ("compute_signature", "verify_signature", "encode"):
                what = "Sign1Message.%s[%d] %s" % (meth, i, label)
                with rep.case(what):
                    c = lab.ctx()
                    m, exp = f(c)
                    c.set(m, "key", sig_key(c, keycls, curve))
                    c.set(m, "external_aad", aad)
                    r = c.run(m, meth)
                    for e in (verify_events(r) if meth[0] == "v" else sign_events(r)):
                        d = e.kw.get("data", e.kw.get("digest"))
                        n += structure_fields(rep, d, {0: ("bytes", const("Signature1")), 1: exp, 2: ("bytes", aad),
                                                       3: ("bytes", P)}, e.pc, "sig-input|Sign1Message." + meth, what,
                                              e.where())
    A, K = lab.name("pycose.headers.Algorithm"), lab.name("pycose.headers.KID")
    kid = sym("signer_kid", "bytes")
    for label, f in histories(lab, "SignMessage", None):
        for sl in ("new", "new, empty", "updated"):
            for meth in ("compute_signature", "verify_signature", "encode", "SignMessage.encode"):
                what = "CoseSignature.%s %s, signer %s" % (meth, label, sl)
                with rep.case(what):
                    c = lab.ctx()
                    m, exp = f(c)
                    c.set(m, "payload", P)
                    a, k = [(A, algterm(lab, -7))], [(K, kid)]
                    s = c.new("pycose.messages.signer.CoseSignature", phdr=c.dict({"new": a + k, "updated": []}.get(sl, [])),
                              uhdr=c.dict(a if sl != "new" else []), external_aad=aad, signature=sym("stored", "bytes"))
                    se = ("bytes", const(b""))
                    if sl == "updated":
                        c.callm(s, "phdr_update", c.dict(k))
                        se = ("map", c.I.snapshot(c.st, c.dict(k)))
                    elif sl == "new":
                        se = ("map", c.I.snapshot(c.st, c.dict(a + k)))
                    c.set(s, "key", sig_key(c, "pycose.keys.EC2Key", "P256"))
                    c.set(m, "signers", c.list(s))
                    r = c.run(m if "." in meth else s, meth.split(".")[-1])
                    for e in (verify_events(r) if meth[0] == "v" else sign_events(r)):
                        d = e.kw.get("data", e.kw.get("digest"))
                        n += structure_fields(rep, d, {0: ("bytes", const("Signature")), 1: exp, 2: se, 3: ("bytes", aad),
                                                       4: ("bytes", P)}, e.pc,
                                              "sig-input|" + ("" if "." in meth else "CoseSignature.") + meth, what, e.where())
    return n


def mentions_key(e, s):
    k = sym("key" + s.args[0][-1], "inst:x")
    return bool(mentions(e.recv, lambda t: t.op == "sym" and t.args[0] == "key" + s.args[0][-1]))


def absent(rep, r, n, what, key):
    if n:
        return
    if r.pc == FALSE or has_top(as_term(r.value, r.pc)):
        rep.undecided("%s: no primitive reached (pc %s)" % (what, "false" if r.pc == FALSE else "live"))
    else:
        rep.bad("no-primitive|" + key, "%s completes without using a signature primitive" % what)


def signature_use(rep, c, m, r, evs, meth, what, cls):
    """The signature checked is the stored one; the signature emitted is the computed one."""
    if r.pc == FALSE:
        return
    if meth == "verify_signature":
        sg = c.get1(m, "signature")
        for e in evs:
            a = e.kw.get("signature")
            if a is None:
                continue
            rep.same(a, sg, e.pc, "sig-value|%s.%s" % (cls, meth), what + ": signature operand", e.where())
    else:
        out = c.snap(r)
        res = [e.result for e in evs]
        if meth == "compute_signature":
            alts = from_term(out)
            for g, t in alts:
                if sat(B.And(r.pc, g)):
                    if has_top(t):
                        rep.undecided(what + ": result")
                    else:
                        rep.check(any(t is x for x in res), "sig-result|%s.%s" % (cls, meth),
                                  what + ": returns the primitive's result", "", show(t)[:200])
            return
        for e in evs:
            if not mentions(out, lambda t: t is e.result):
                if has_top(out):
                    rep.undecided(what + ": emitted signature")
                else:
                    rep.bad("sig-emitted|%s.%s" % (cls, meth), what + ": computed signature is not emitted", e.where(),
                            show(out)[:300])
            else:
                rep.ok(what + ": emitted")
