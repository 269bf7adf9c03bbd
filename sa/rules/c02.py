"""C02: the bytes handed to every MAC primitive are the RFC 8152 6.3 MAC_structure."""
from .common import *      # noqa

RULE = ("value flow into every MAC computation equals the MAC_structure specification, for every registered MAC "
        "algorithm, message class, header bucket, recipient class and operation")
EXPLAIN = ("Gated value-flow analysis of Mac0Message / MacMessage encode, compute_tag and verify_tag with the registered "
           "MAC algorithms inlined: the byte string fed to the library HMAC or CBC-MAC context is compared with the "
           "MAC_structure specification evaluated in the same abstract state; the emitted tag is the computed one.")


def run(lab, rep, tier):
    P = sym("payload", "bytes")
    total = 0
    for i, nm, par in iana.algs("hmac", "aesmac"):
        for cls in ("Mac0Message", "MacMessage"):
            for bucket in ("phdr", "uhdr"):
                for rk in (("-",) if cls == "Mac0Message" else ("direct", "aeskw", "ecdhdirect", "ecdhkw")):
                    for meth in ("encode", "compute_tag", "verify_tag"):
                        if cls == "MacMessage" and meth == "verify_tag" and rk != "direct":
                            continue
                        what = "%s.%s[%s,%s,%s]" % (cls, meth, nm, bucket, rk)
                        with rep.case(what):
                            c, m = msg_ctx(lab, cls, i, bucket)
                            extsig.DUMPS_LEN[0] = 64     # a whole number of blocks: no padding here (C18 decides padding)
                            c.set(m, "key", sym_key(c))
                            if cls == "MacMessage":
                                c.set(m, "recipients", c.list(rcpt_for(c, rk)))
                            exp, _ = c.spec("mac_structure", const("MAC0" if cls == "Mac0Message" else "MAC"), m, P)
                            r = c.run(m, meth)
                            evs = mac_events(r)
                            n = 0
                            for e in evs:
                                s = dumped(e.args[1])
                                n += 1
                                if s is None:
                                    if has_top(e.args[1]):
                                        rep.undecided(what + ": " + show(e.args[1])[:120])
                                    else:
                                        rep.bad("mac-input|%s.%s" % (cls, meth), what + ": not a serialised MAC_structure",
                                                e.where(), show(e.args[1])[:300])
                                    continue
                                rep.same(s, exp, e.pc, "mac-input|%s.%s" % (cls, meth), what + ": MAC_structure", e.where())
                            total += n
                            if not n:
                                if r.pc == FALSE:
                                    rep.undecided(what + ": no MAC primitive reached, always refuses: %s" % sorted(c.raised(r)))
                                elif has_top(as_term(r.value, r.pc)):
                                    rep.undecided(what + ": no MAC primitive reached")
                                else:
                                    rep.bad("no-primitive|%s.%s" % (cls, meth), what + " completes without a MAC primitive")
                                continue
                            if meth != "verify_tag" and r.pc != FALSE:
                                out = c.snap(r)
                                if meth == "compute_tag":
                                    tag_value(rep, c, out, evs, par, r.pc, "mac-emitted|%s.%s" % (cls, meth), what)
                                    continue
                                for g, _, els, z in wire(out):
                                    q = B.And(r.pc, g)
                                    if not sat(q):
                                        continue
                                    if els is None or len(els) < 4:
                                        if has_top(z):
                                            rep.undecided(what + ": emitted array")
                                        else:
                                            rep.bad("mac-emitted|%s.%s" % (cls, meth), what + ": no tag in the array", "",
                                                    show(z)[:300])
                                        continue
                                    tag_value(rep, c, els[3], evs, par, q, "mac-emitted|%s.%s" % (cls, meth), what)
    total += by_history(lab, rep)
    for cls in ("Mac0Message", "MacMessage"):
        for i in (5, 26):
            no_payload(lab, rep, cls, i, mac_events, ("compute_tag", "verify_tag", "encode"), "no-payload|" + cls)
    rep.floor("MAC computations matched", total, 60)


def by_history(lab, rep):
    n = 0
    P, aad = sym("payload", "bytes"), sym("external_aad", "bytes")
    for cls in ("Mac0Message", "MacMessage"):
        for i in (5, 26):
            for label, f in histories(lab, cls, i):
                for meth in ("compute_tag", "verify_tag", "encode"):
                    what = "%s.%s[%d] %s" % (cls, meth, i, label)
                    with rep.case(what):
                        c = lab.ctx()
                        m, exp = f(c)
                        c.set(m, "key", sym_key(c))
                        if meth == "verify_tag" and label.startswith("new"):
                            c.set(m, "auth_tag", sym("proof", "bytes"))
                        if cls == "MacMessage":
                            c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                        extsig.DUMPS_LEN[0] = 64
                        r = c.run(m, meth)
                        extsig.DUMPS_LEN[0] = None
                        for e in mac_events(r):
                            n += structure_fields(rep, e.args[1], {
                                0: ("bytes", const("MAC0" if cls == "Mac0Message" else "MAC")), 1: exp, 2: ("bytes", aad),
                                3: ("bytes", P)}, e.pc, "mac-input|%s.%s" % (cls, meth), what, e.where())
                    extsig.DUMPS_LEN[0] = None
    return n
