"""C15: key derivation is bound to the RFC 8152 11.2 context."""
from .common import *      # noqa

RULE = ("info operand of every HKDF call = serialised COSE_KDF_Context [AlgorithmID of the derived key, PartyUInfo, PartyVInfo, "
        "[key length in bits, protected header bytes of the recipient, ?SuppPubInfo other], ?SuppPrivInfo]; length operand = that "
        "length; salt operand = Salt header parameter")
EXPLAIN = ("Every key-agreement algorithm, on the sending and the receiving side of COSE_Encrypt and COSE_Mac, for recipients in "
           "an arbitrary state, constructed and received, and the public context classes with arbitrary fields, are analysed; the "
           "operands of the library key derivation are compared with a specification term.")
PARTY = [("PartyUID", "PartyUNonce", "PartyUOther"), ("PartyVID", "PartyVNonce", "PartyVOther")]
SEND, RECV = "send", "receive"


def names(lab, xs):
    return [lab.name("pycose.headers." + x) for x in xs]


def target(i, cek):
    """(identifier, key length) of the algorithm the derived key is for."""
    par = iana.ALGS[i][2]
    t = par["kw"] if "kw" in par else cek
    return t, iana.ALGS[t][2]["key"]


def sender_recipient(c, i, fresh_key=False):
    lab = c.lab
    kind = iana.ALGS[i][1]
    r = c.inst(RCPT + RCPT_OF[kind], "rcpt")
    dict_headers(c, r)
    c.with_alg(r, algterm(lab, i), "phdr")
    c.set(r, "payload", const(b""))
    c.set(r, "key", NONE if fresh_key else ec_key(c, "local"))
    return r


def locals_(c, r, send, pub, priv):
    lab = c.lab
    ent = []
    if send:
        ent.append((lab.name("pycose.headers.StaticKey"), ec_key(c, "peer")))
    if pub is not None:
        ent.append((lab.name("pycose.headers.SuppPubOther"), pub))
    if priv is not None:
        ent.append((lab.name("pycose.headers.SuppPrivOther"), priv))
    return ent


def expected(c, r, i, cek, protected, pub, priv):
    lab = c.lab
    t, n = target(i, cek)
    u, _ = c.spec("party", r, *names(lab, PARTY[0]), pc=TRUE)
    v, _ = c.spec("party", r, *names(lab, PARTY[1]), pc=TRUE)
    e, _ = c.spec("kdf_context", const(t), const(8 * n), protected, u, v, pub if pub is not None else NONE,
                  priv if priv is not None else NONE, pc=TRUE)
    salt, _ = c.spec("lookup", r, lab.name("pycose.headers.Salt"), NONE, pc=TRUE)
    return e, n, salt


def hkdf(rep, r, exp, n, salt, key, what):
    evs = extcalls(r, "HKDF")
    for e in evs:
        w = e.where()
        info = e.kw.get("info", NONE)
        s = dumped(info)
        if s is None:
            if has_top(info):
                rep.undecided(what + ": info")
            else:
                rep.bad(key("info"), what + ": info is not a serialised context", w, show(info)[:300])
        else:
            rep.same(s, exp, e.pc, key("info"), what + ": info", w)
        rep.same(e.kw.get("length", NONE), const(n), e.pc, key("length"), what + ": length", w)
        if salt is not None:
            rep.same(e.kw.get("salt", NONE), salt, e.pc, key("salt"), what + ": salt", w)
    if not evs:
        if r.pc == FALSE or has_top(as_term(r.value, r.pc)):
            rep.undecided(what + ": no key derivation: %s" % sorted({str(x) for x in []}))
        else:
            rep.bad(key("no-kdf"), what + " completes without a key derivation")
    return len(evs)


def run(lab, rep, tier):
    n = agreements(lab, rep, tier) + received_(lab, rep, tier) + classes(lab, rep)
    rep.floor("key derivations compared", n, 60)


def nonempty(c, t):
    c.st.pc = B.And(c.st.pc, B.Not(g_eq(t, const(b""))), g_truthy(t))


def agreements(lab, rep, tier):
    n = 0
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        cases = [("EncMessage", 1), ("EncMessage", 3), ("MacMessage", 4 if False else 14)]
        for cls, cek in cases:
            for side in (SEND, RECV):
                if cls == "MacMessage" and side == RECV:
                    continue
                for pub, priv in ((None, None), (True, True)) + (((True, None), (None, True)) if cek == 1 else ()):
                    for fresh in ((False, True) if side == SEND and not par["static"] and cek == 1 and pub is None and priv is None
                                  else (False,)):
                        what = "%s via %s, %s, content algorithm %d, other info %s/%s%s" % (
                            cls, nm, side, cek, bool(pub), bool(priv), ", fresh ephemeral key" if fresh else "")
                        key = lambda x: "%s|%s.%s" % (x, RCPT_OF[kind], side)
                        with rep.case(what):
                            c, m = msg_ctx(lab, cls, cek)
                            if cls == "MacMessage":
                                extsig.DUMPS_LEN[0] = 64
                            p = sym("supp_pub", "bytes") if pub else None
                            q = sym("supp_priv", "bytes") if priv else None
                            for t in (p, q):
                                if t is not None:
                                    nonempty(c, t)
                            if side == SEND:
                                r = sender_recipient(c, i, fresh)
                            else:
                                r = rx_recipient_alg(c, i)
                            local_attrs(c, r, locals_(c, r, side == SEND, p, q))
                            bytes_header(c, r)
                            c.set(m, "recipients", c.list(r))
                            prot, _ = c.spec("protected", r, pc=TRUE)
                            exp, ln, salt = expected(c, r, i, cek, prot, p, q)
                            x = c.run(m, {"EncMessage": "encrypt", "MacMessage": "compute_tag"}[cls]) if side == SEND else \
                                c.run(m, "decrypt", r)
                            n += hkdf(rep, x, exp, ln, salt, key, what)
                        extsig.DUMPS_LEN[0] = None
    return n


def received_(lab, rep, tier):
    """The protected header entering the context is the received byte string; constructed ones are serialised."""
    n = 0
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        hdr = -2 if par["static"] else -1
        for where in ("p", "u"):
            for salted in (None, "p", "u"):
                what = "received %s, algorithm %s, salt %s" % (nm, where, salted)
                with rep.case(what):
                    c = lab.ctx()
                    rx = Rx(c)
                    uid, salt = sym("party_u", "bytes"), sym("salt", "bytes")
                    ent = {"p": [(const(-21), uid)], "u": [(const(-24), sym("party_v", "bytes"))]}
                    ent[where].append((const(1), const(i)))
                    if salted:
                        ent[salted].append((const(-20), salt))
                    x, y = sym("px", "bytes"), sym("py", "bytes")
                    extsig.LENS[x] = extsig.LENS[y] = 32
                    ent["u"].append((const(hdr), c.dict([(const(1), const(2)), (const(-1), const(1)), (const(-2), x),
                                                         (const(-3), y)])))
                    RP = rx.header("rcpt_phdr", c.dict(ent["p"]))
                    c.st.pc = B.And(c.st.pc, g_truthy(RP), B.Not(g_eq(RP, const(b""))))
                    MP = rx.header("phdr_bytes", c.dict([(const(1), const(1))]))
                    c.st.pc = B.And(c.st.pc, g_truthy(MP), B.Not(g_eq(MP, const(b""))))
                    ct = sym("wrapped", "bytes") if kind == "ecdhkw" else const(b"")
                    if kind == "ecdhkw":
                        nonempty(c, ct)
                    received(c, rx, "EncMessage", MP, c.dict([(const(5), sym("iv", "bytes"))]),
                             last=c.list(c.list(RP, c.dict(ent["u"]), ct)))
                    with rx:
                        m = decode(c, rx, "EncMessage")
                    r = single(c.I.getitem(c.st, one(c.get1(m, "recipients")), one(const(0)), None))
                    if r is None:
                        rep.undecided(what)
                        continue
                    c.set(r, "key", ec_key(c, "local"))
                    t, ln = target(i, 1)
                    e, _ = c.spec("kdf_context", const(t), const(8 * ln), RP, c.list(uid, NONE, NONE),
                                  c.list(sym("party_v", "bytes"), NONE, NONE), NONE, NONE, pc=TRUE)
                    with rx:
                        x = c.run(m, "decrypt", r)
                    n += hkdf(rep, x, e, ln, salt if salted else NONE,
                              lambda z: "%s|%s.received" % (z, RCPT_OF[kind]), what)
    return n


def classes(lab, rep):
    n = 0
    C = "pycose.messages.context."
    for alg, ln in ((1, 16), (2, 24), (3, 32), (-3, 16), (-5, 32)):
        for pub in (None, "x"):
            for priv in (None, "x"):
                for pr in ("bytes", "empty map", "default", "map"):
                    what = "CoseKDFContext(%d), other %s, private %s, protected %s" % (alg, pub, priv, pr)
                    with rep.case(what):
                        c = lab.ctx()
                        a = algterm(lab, alg)
                        P = sym("protected", "bytes")
                        kw = {}
                        A, K = lab.name("pycose.headers.Algorithm"), lab.name("pycose.headers.KID")
                        if pr == "bytes":
                            kw["protected"] = P
                        elif pr == "empty map":
                            kw["protected"] = c.dict([])
                        elif pr == "map":
                            d = c.dict([(A, algterm(lab, -25)), (K, sym("kid", "bytes"))])
                            kw["protected"] = d
                            dt = c.I.snapshot(c.st, d)
                        o, s = sym("other", "bytes"), sym("private", "bytes")
                        nonempty(c, o)
                        nonempty(c, s)
                        if pub:
                            kw["other"] = o
                        sp = c.new(C + "SuppPubInfo", const(ln), **kw)
                        us = [sym("u%d" % k, "bytes") for k in range(3)]
                        vs = [sym("v%d" % k, "bytes") for k in range(3)]
                        u, v = c.new(C + "PartyInfo", *us), c.new(C + "PartyInfo", *vs)
                        kx = c.new(C + "CoseKDFContext", a, sp, u, v, *([s] if priv else []))
                        r = c.run(kx, "encode")
                        n += 1
                        if pr == "map":
                            enc = sym("serialised_map", "bytes")
                        exp, _ = c.spec("kdf_context", const(alg), const(8 * ln),
                                        P if pr == "bytes" else enc if pr == "map" else const(b""), c.list(*us), c.list(*vs),
                                        o if pub else NONE, s if priv else NONE, pc=TRUE)
                        got = dumped(as_term(r.value, r.pc))
                        if got is None or r.pc == FALSE:
                            rep.undecided(what)
                            continue
                        if pr == "map":
                            for g, x in from_term(got):
                                els = list_elems(x)
                                sub = list_elems(els[3]) if els and len(els) > 3 else None
                                if sub is None or len(sub) < 2:
                                    rep.undecided(what)
                                    continue
                                match_protected(rep, sub[1], ("map", dt), B.And(r.pc, g), "context|protected", what)
                                rep.same(els[0], const(alg), B.And(r.pc, g), "context|encode", what)
                            continue
                        rep.same(got, exp, r.pc, "context|encode", what)
    for bad in (0, 8, 15, 17, 20, 33, 64, 128, 256):
        with rep.case("SuppPubInfo(%d)" % bad):
            c = lab.ctx()
            r = c.run(lab.name(C + "SuppPubInfo"), "__call__", const(bad))
            ok_guard(rep, r.pc, "length|SuppPubInfo", "SuppPubInfo(%d) is refused" % bad)
            c = lab.ctx()
            o = c.new(C + "SuppPubInfo", const(16))
            r = c.runset(o, "key_data_length", const(bad))
            ok_guard(rep, r.pc, "length|SuppPubInfo", "key_data_length = %d is refused" % bad)
    with rep.case("default party information"):
        c = lab.ctx()
        k = c.new(C + "CoseKDFContext", algterm(lab, 1), c.new(C + "SuppPubInfo", const(16)))
        r = c.run(k, "encode")
        exp, _ = c.spec("kdf_context", const(1), const(128), const(b""), c.list(NONE, NONE, NONE), c.list(NONE, NONE, NONE),
                        NONE, NONE, pc=TRUE)
        rep.same(dumped(as_term(r.value, r.pc)) or top("?"), exp, r.pc, "context|default", "default context")
    return n
