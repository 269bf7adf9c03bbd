"""C03: AAD and operands of every AEAD call."""
from .common import *      # noqa

RULE = ("value flow into the associated data, plaintext and ciphertext arguments of every AEAD call equals the "
        "Enc_structure specification and the message payload, for every content encryption algorithm, message class, "
        "header bucket, recipient class and operation")
EXPLAIN = ("Gated value-flow analysis of Enc0Message / EncMessage encode, encrypt and decrypt with the registered AEAD "
           "algorithms inlined: at each library AEAD call the associated-data term is compared with the serialised "
           "Enc_structure specification evaluated in the same abstract state, the data term with the payload; the "
           "value emitted or returned is the result of that call.")
CTX = {"Enc0Message": "Encrypt0", "EncMessage": "Encrypt"}


def run(lab, rep, tier):
    P = sym("payload", "bytes")
    total = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        for cls in ("Enc0Message", "EncMessage"):
            for bucket in ("phdr", "uhdr"):
                for rk in (("-",) if cls == "Enc0Message" else ("direct", "aeskw", "ecdhdirect", "ecdhkw")):
                    for meth in ("encode", "encrypt", "decrypt"):
                        what = "%s.%s[%s,%s,%s]" % (cls, meth, nm, bucket, rk)
                        with rep.case(what):
                            c, m = msg_ctx(lab, cls, i, bucket)
                            c.set(m, "key", sym_key(c))
                            args = []
                            if cls == "EncMessage":
                                if meth == "decrypt" and rk != "direct":
                                    rc = rx_recipient(c, rk)
                                else:
                                    rc = rcpt_for(c, rk)
                                c.set(m, "recipients", c.list(rc))
                                if meth == "decrypt":
                                    args = [rc]
                            exp, _ = c.spec("enc_structure", const(CTX[cls]), m)
                            r = c.run(m, meth, *args)
                            want, other = (".decrypt", ".encrypt") if meth == "decrypt" else (".encrypt", ".decrypt")
                            evs = aead_events(r, want)
                            key = "%s.%s" % (cls, meth)
                            for e in aead_events(r, other):
                                if sat(e.pc):
                                    rep.bad("direction|" + key, what + ": uses the opposite AEAD direction", e.where())
                            for e in evs:
                                a, d = e.kw.get("associated_data"), e.kw.get("data")
                                if a is None or d is None:
                                    rep.undecided(what + ": AEAD arguments not found at " + e.where())
                                    continue
                                total += 1
                                s = dumped(a)
                                if s is None:
                                    if has_top(a):
                                        rep.undecided(what + ": " + show(a)[:120])
                                    else:
                                        rep.bad("aad|" + key, what + ": AAD is not a serialised Enc_structure", e.where(),
                                                show(a)[:300])
                                else:
                                    rep.same(s, exp, e.pc, "aad|" + key, what + ": Enc_structure", e.where())
                                rep.same(d, P, e.pc, "data|" + key, what + ": data operand", e.where())
                            no_primitive(rep, c, r, evs, what, key)
                            if not evs or r.pc == FALSE:
                                continue
                            result_used(rep, c, r, evs, what, key, whole=meth != "encode")
    total += by_history(lab, rep)
    rep.floor("AEAD calls matched", total, 60)


def by_history(lab, rep):
    n = 0
    aad = sym("external_aad", "bytes")
    for cls in ("Enc0Message", "EncMessage"):
        for i in (1, 10):
            for label, f in histories(lab, cls, i):
                for meth in ("encrypt", "decrypt", "encode"):
                    what = "%s.%s[%d] %s" % (cls, meth, i, label)
                    with rep.case(what):
                        c = lab.ctx()
                        m, exp = f(c)
                        c.set(m, "key", sym_key(c))
                        if label not in ("received, unprotected updated", "received, unprotected replaced"):
                            c.callm(m, "uhdr_update", c.dict([(lab.name("pycose.headers.IV"), sym("iv", "bytes"))]))
                        args = []
                        if cls == "EncMessage":
                            rc = rcpt_for(c, "direct")
                            c.set(m, "recipients", c.list(rc))
                            args = [rc] if meth == "decrypt" else []
                        r = c.run(m, meth, *args)
                        for e in aead_events(r, ".decrypt" if meth == "decrypt" else ".encrypt"):
                            a = e.kw.get("associated_data")
                            if a is None:
                                continue
                            n += structure_fields(rep, a, {0: ("bytes", const(CTX[cls])), 1: exp, 2: ("bytes", aad)}, e.pc,
                                                  "aad|%s.%s" % (cls, meth), what, e.where())
    return n


def no_primitive(rep, c, r, evs, what, key):
    if evs:
        return
    if r.pc == FALSE:
        rep.undecided(what + ": no primitive reached, always refuses: %s" % sorted(c.raised(r)))
    elif has_top(as_term(r.value, r.pc)):
        rep.undecided(what + ": no primitive reached")
    else:
        rep.bad("no-primitive|" + key, what + " completes without the primitive")


def result_used(rep, c, r, evs, what, key, whole):
    out = c.snap(r)
    vals = [e.result for e in evs]
    if whole:
        for g, t in from_term(out):
            if sat(B.And(r.pc, g)):
                if has_top(t) or imprecise(g):
                    rep.undecided(what + ": result " + show(t)[:100])
                else:
                    rep.check(any(t is v for v in vals), "result|" + key, what + ": returns the primitive's result", "",
                              show(t)[:300])
        return
    if mentions(out, lambda t: any(t is v for v in vals)):
        rep.ok(what + ": result emitted")
    elif has_top(out):
        rep.undecided(what + ": emitted value")
    else:
        rep.bad("result|" + key, what + ": the primitive's result is not emitted", "", show(out)[:300])
