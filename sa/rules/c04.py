"""C04: nothing is reported authentic unless the primitive said so."""
from .common import *      # noqa
from .. import terms as tm

RULE = ("every path on which a verification or decryption operation completes with an accepting result is dominated by "
        "the accepting outcome of the cryptographic primitive on that message")
EXPLAIN = ("Guarded path analysis: for every registered algorithm, the condition under which verify_signature / "
           "verify_tag returns a true value must imply that a library verification call on the stored signature did not "
           "raise and did not return false, or that the stored tag equals, over its full specified length, the tag "
           "computed by the library; the condition under which decrypt or key unwrap completes must imply that the "
           "library call completed without raising.")


def not_raised(e, guards):
    """e was reached and raised nothing, in terms of the raise atoms occurring in the given guards."""
    g = e.pc
    for gd in guards:
        for v in B.support(gd):
            a = tm.ATOMS[v]
            if a[0] == "raises" and isinstance(a[1], Term) and a[1] is e.result:
                g = B.And(g, B.Not(B.literal(v)))
    return g


def truthy_alts(r):
    out = []
    for g, v in from_term(as_term(r.value, r.pc)):
        t = B.And(r.pc, g, g_truthy(v))
        if sat(t):
            out.append((t, v))
    return out


def decide(rep, what, key, cond, accept, lost, where=""):
    bad = B.And(cond, B.Not(accept))
    if not sat(bad) or not lost and not imprecise(bad) and not sat(tm.congr(bad)):
        rep.ok(what)
    elif lost or imprecise(bad):
        rep.undecided(what + ": " + showg(bad)[:200])
    else:
        rep.bad(key, what, where, "accepting although: " + showg(bad)[:500])


def run(lab, rep, tier):
    n = signatures(lab, rep)
    n += macs(lab, rep)
    n += decrypts(lab, rep)
    rep.floor("accepting outcomes decided", n, 60)


def signatures(lab, rep):
    n = 0
    for i, nm, par in iana.algs("sig"):
        for keycls, curve in sig_keys(lab, i):
            for cls in ("Sign1Message", "CoseSignature"):
                for mode in ("attached", "detached"):
                    what = "%s.verify_signature[%s,%s]" % (cls, nm, mode)
                    key = "accept|%s.verify_signature" % cls
                    with rep.case(what):
                        pl = "bytes" if mode == "attached" else "none"
                        if cls == "Sign1Message":
                            c, m = msg_ctx(lab, cls, i, "phdr", pl)
                            o = m
                        else:
                            c, m = msg_ctx(lab, "SignMessage", None, payload=pl)
                            o = signer_of(c, "signer1", m, i)
                            c.set(m, "signers", c.list(o))
                        c.set(o, "key", sig_key(c, keycls, curve))
                        kw = {"detached_payload": sym("detached", "bytes")} if mode == "detached" else {}
                        sg = c.get1(o, "signature")
                        r = c.run(o, "verify_signature", **kw)
                        evs = verify_events(r)
                        alts = truthy_alts(r)
                        if not alts:
                            rep.undecided(what + ": never accepts")
                            continue
                        for t, v in alts:
                            n += 1
                            acc = FALSE
                            for e in evs:
                                a = not_raised(e, [t])
                                sv = e.kw.get("signature")
                                if sv is not None:
                                    a = B.And(a, B.Not(FALSE) if sv is sg else g_eq(sv, sg))
                                if "from_public_point" in extsig.ctor_names(e.recv) and not isinstance(e.result, tuple):
                                    a = B.And(a, g_truthy(e.result))
                                acc = B.Or(acc, a)
                            decide(rep, what + ": accepted only when the library accepted the stored signature", key, t, acc,
                                   has_top(v))
    return n


def macs(lab, rep):
    n = 0
    for i, nm, par in iana.algs("hmac", "aesmac"):
        for cls in ("Mac0Message", "MacMessage"):
            what = "%s.verify_tag[%s]" % (cls, nm)
            with rep.case(what):
                c, m = msg_ctx(lab, cls, i)
                extsig.DUMPS_LEN[0] = 64
                c.set(m, "key", sym_key(c))
                if cls == "MacMessage":
                    c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                tag = c.get1(m, "auth_tag")
                r = c.run(m, "verify_tag")
                for t, v in truthy_alts(r):
                    n += 1
                    acc = FALSE
                    for e in mac_events(r):
                        names = set(extsig.ctor_names(e.args[0]))
                        if "Cipher" in names:
                            out = call_t(ext("stream.output"), (e.args[0], e.args[1]))
                            sp, _ = c.spec("last_block", out, const(64), const(par["out"]))
                        else:
                            out = call_t(ext("stream.digest"), (e.args[0], e.args[1]))
                            sp, _ = c.spec("take", out, const(par["out"]))
                        if e.name == ".verify":
                            a = not_raised(e, [t]) if par["out"] == iana.HASH_SIZE.get(par.get("hash")) else FALSE
                        else:
                            a = B.And(not_raised(e, [t]), g_eq(tag, sp))
                        acc = B.Or(acc, a)
                    decide(rep, what + ": accepted only when the stored tag equals the computed tag",
                           "accept|%s.verify_tag" % cls, t, acc, has_top(v))
                extsig.DUMPS_LEN[0] = None
    return n


def decrypts(lab, rep):
    n = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        for cls in ("Enc0Message", "EncMessage"):
            what = "%s.decrypt[%s]" % (cls, nm)
            with rep.case(what):
                c, m = msg_ctx(lab, cls, i)
                c.set(m, "key", sym_key(c))
                args = []
                if cls == "EncMessage":
                    rc = rcpt_for(c, "direct")
                    c.set(m, "recipients", c.list(rc))
                    args = [rc]
                r = c.run(m, "decrypt", *args)
                n += completes(rep, r, aead_events(r, ".decrypt"), what, "accept|%s.decrypt" % cls)
    G = algterm(lab, 1)
    for i, nm, par in iana.algs("aeskw", "oaep", "ecdhkw"):
        with rep.case("unwrap %s" % nm):
            c = lab.ctx()
            rc = rx_recipient_alg(c, i)
            cname = RCPT_OF[iana.ALGS[i][1]]
            r = c.run(rc, "decrypt", G)
            evs = extcalls(r, "aes_key_unwrap") + extcalls(r, ".decrypt", ctor=("RSAPrivateNumbers",))
            n += completes(rep, r, evs, "%s.decrypt[%s]" % (cname, nm), "accept|%s.decrypt" % cname)
    return n


def completes(rep, r, evs, what, key):
    if r.pc == FALSE:
        rep.undecided(what + ": never completes")
        return 0
    for g, v in from_term(as_term(r.value, r.pc)):
        t = B.And(r.pc, g)
        if not sat(t):
            continue
        acc = B.Or(FALSE, *[not_raised(e, [t]) for e in evs if e.result is v or mentions(v, lambda x: x is e.result)])
        decide(rep, what + ": completes only when the library call completed", key, t, acc, has_top(v))
    return 1
