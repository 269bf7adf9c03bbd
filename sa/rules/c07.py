"""C07: the protected header that is authenticated is the one transported."""
from .common import *      # noqa

RULE = ("after every public history the serialised protected header is the received bytes while the header is unchanged and "
        "the serialisation of the current header otherwise, no operation changes it, and encode emits it")
EXPLAIN = ("History analysis: constructed and received messages, signers and recipients are driven through updates, "
           "replacements and operations of the public API (symbolic header contents); the serialised protected header term "
           "is compared with the received byte string or with the serialisation of the current map. Encoding contexts "
           "compare the emitted protected element with it.")

OPS = {
    "Sign1Message": (("compute_signature", -7), ("verify_signature", -7), ("encode", -7)),
    "SignMessage": (("encode", None),),
    "Mac0Message": (("compute_tag", 5), ("verify_tag", 5), ("encode", 5)),
    "MacMessage": (("compute_tag", 5), ("verify_tag", 5), ("encode", 5)),
    "Enc0Message": (("encrypt", 1), ("decrypt", 1), ("encode", 1)),
    "EncMessage": (("encrypt", 1), ("encode", 1)),
}


def key_for(c, i):
    return sig_key(c, "pycose.keys.EC2Key", "P256") if i == -7 else sym_key(c)


def run(lab, rep, tier):
    n = 0
    for cls in MSGCLS:
        i = OPS[cls][0][1]
        for label, f in histories(lab, cls, i):
            what = "%s %s" % (cls, label)
            with rep.case(what):
                c = lab.ctx()
                m, exp = f(c)
                got = c.get1(m, "phdr_encoded")
                match_protected(rep, got, exp, c.st.pc, "serialised|%s" % label, what + ": serialised protected header")
                n += 1
                # operations do not change it, encode emits it
                for meth, _ in OPS[cls]:
                    c2 = c.fork()
                    if i is not None and cls != "SignMessage":
                        if label in ("received, unprotected updated", "received, unprotected replaced"):
                            pass
                        c2.set(m, "key", key_for(c2, i))
                    if cls in ("MacMessage", "EncMessage"):
                        c2.set(m, "recipients", c2.list(rcpt_for(c2, "direct")))
                    extsig.DUMPS_LEN[0] = 64
                    r = c2.run(m, meth)
                    extsig.DUMPS_LEN[0] = None
                    if r.pc == FALSE:
                        continue
                    v, _ = lab.I.getter(r.state, one(m), "phdr_encoded")
                    rep.same(lab.I.snapv(r.state, v), got, r.pc, "stable|%s.%s" % (cls, meth),
                             "%s: %s leaves the serialised protected header alone" % (what, meth))
                    if meth == "encode":
                        for g, els in emitted(lab, r):
                            if els is None:
                                rep.undecided(what + ": emitted structure")
                                continue
                            match_protected(rep, els[0], exp, B.And(r.pc, g), "emitted|%s" % cls,
                                            what + ": emitted protected header")
    # signers and recipients: the same object model, received inside a message
    n += inner(lab, rep)
    rep.floor("histories analysed", n, 80)


def emitted(lab, r):
    """[(guard, element terms)] of what encode serialised."""
    out = []
    for g, t in from_term(lab.I.snapv(r.state, r.value)):
        if not sat(B.And(r.pc, g)):
            continue
        s = undumps(t)
        if s is None:
            s = t if t.op in ("list", "tuple") else None
        if s is not None and s.op == "call" and s.args[0].op == "ext" and s.args[0].args[0].endswith("CBORTag"):
            s = s.args[1][1] if len(s.args[1]) > 1 else None
        if s is None:
            out.append((g, None))
            continue
        for g2, u in from_term(s):
            els = list_elems(u)
            out.append((B.And(g, g2), els))
    return out


def inner(lab, rep):
    n = 0
    A, K = lab.name("pycose.headers.Algorithm"), lab.name("pycose.headers.KID")
    kid, kid2 = sym("kid", "bytes"), sym("kid2", "bytes")
    for kind, cls, attr in (("signer", "SignMessage", "signers"), ("recipient", "EncMessage", "recipients"),
                            ("recipient", "MacMessage", "recipients")):
        for i in ((-7,) if kind == "signer" else (-29, -25, -32)):
            for step in ("received", "phdr_update", "phdr", "uhdr_update", "encode-free"):
                what = "%s of %s[%d] %s" % (kind, cls, i, step)
                with rep.case(what):
                    c = lab.ctx()
                    rx = Rx(c)
                    P = rx.header("inner_bytes", c.dict([(const(1), const(i)), (const(4), kid)]))
                    c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                    ek = c.dict([(const(-1), c.dict([(const(1), const(2)), (const(-1), const(1)), (const(-2), sym("ex", "bytes")), (const(-3), sym("ey", "bytes"))]))]) if kind != "signer" else c.dict()
                    W = sym("wrapped", "bytes")
                    if i == -25:
                        W = const(b"")
                    else:
                        c.st.pc = B.And(c.st.pc, g_truthy(W), B.Not(g_eq(W, const(b""))))
                    elem = c.list(P, ek, W)
                    O = rx.header("outer_bytes", c.dict([(const(1), const(1 if cls == "EncMessage" else 5))]))
                    c.st.pc = B.And(c.st.pc, g_truthy(O))
                    received(c, rx, cls, O, c.dict(), last=c.list(elem))
                    m = decode(c, rx, cls)
                    seq = c.get(m, attr)
                    o = single(c.I.getitem(c.st, seq, one(const(0)), None))
                    if o is None:
                        rep.undecided(what + ": no single element")
                        continue
                    exp = ("bytes", P)
                    if step == "phdr_update":
                        c.callm(o, "phdr_update", c.dict([(K, kid2)]))
                        exp = ("map", c.I.snapshot(c.st, c.dict([(A, algterm(lab, i)), (K, kid2)])))
                    elif step == "phdr":
                        c.set(o, "phdr", c.dict([(A, algterm(lab, i)), (K, kid2)]))
                        exp = ("map", c.I.snapshot(c.st, c.dict([(A, algterm(lab, i)), (K, kid2)])))
                    elif step == "uhdr_update":
                        c.callm(o, "uhdr_update", c.dict([(K, kid2)]))
                    got = c.get1(o, "phdr_encoded")
                    n += 1
                    match_protected(rep, got, exp, c.st.pc, "serialised|%s|%s" % (kind, step),
                                    what + ": serialised protected header")
    return n
