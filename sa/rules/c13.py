"""C13: the content key of a message with key-wrapping recipients is fresh (or the sender's choice) and one for all recipients."""
from .common import *      # noqa
from .c06 import components

RULE = ("the key operand of the content encryption or MAC = the bytes wrapped for every recipient = the content key the sender put "
        "into the recipient structures or else the output of the system's random source, of the length of the content algorithm; "
        "recipient structures that carry different content keys are refused")
EXPLAIN = ("Sending through COSE_Encrypt and COSE_Mac with one, two and three recipient structures of every key-wrapping algorithm, "
           "in an arbitrary state, with and without content keys chosen by the sender, is analysed; the operand terms of content "
           "protection and wrapping are compared with each other and with the results of random-source calls.")
MANY = 12       # more recipients than any shape the code spells out
SIZE = {"urandom": "size", "token_bytes": "nbytes"}


def content_keys(r, cls):
    """(event, key term) of each content protection."""
    out = []
    if cls == "EncMessage":
        for e in aead_events(r, ".encrypt"):
            for nm, _, v in components(e.recv):
                if nm in ("k", "key"):
                    out.append((e, v))
    else:
        for e in mac_events(r):
            for nm, _, v in components(e.args[0]):
                if nm in ("k", "key"):
                    out.append((e, v))
    return out


def randoms(r):
    return {e.result: e for e in extcalls(r, *RANDOM) if isinstance(e.result, Term)}


def protect(c, m, cls, tag=None):
    return c.run(m, "encode")


def check_one(rep, c, m, rs, chosen, cls, cek, what, key):
    """rs: recipients; chosen: their content keys (None: left empty)."""
    x = c.run(m, "encode")
    if x.pc == FALSE or not sat(x.pc):
        rep.undecided(what + ": never completes")
        return 0
    n = 0
    rnd = randoms(x)
    par = iana.ALGS[cek][2]
    size = par["key"]
    cks = content_keys(x, cls)
    if not cks:
        rep.undecided(what + ": content key not recognised")
    given = [t for t in chosen if t is not None]
    for e, v in cks:
        for g, k in from_term(v):
            q = B.And(e.pc, g)
            if not sat(q):
                continue
            n += 1
            if k in rnd:
                ev = rnd[k]
                a = ev.kw.get(SIZE.get(short_name(ev.callee), ""), ev.args[0] if ev.args else NONE)
                rep.same(a, const(size), q, "size|" + key, what + ": random content key has the length of the algorithm", ev.where())
                # a random key is used only if no recipient carries one
                for t in given:
                    ok_guard(rep, B.And(q, g_truthy(t), B.Not(g_eq(t, const(b"")))), "chosen|" + key,
                             what + ": the content key chosen by the sender is used", e.where())
            elif any(k is t for t in given):
                rep.ok(what)
            elif has_top(k):
                rep.undecided(what + ": content key " + show(k)[:80])
            else:
                rep.bad("source|" + key, what + ": content key is neither random nor chosen by the sender", e.where(), show(k)[:200])
        for w, t in wrap_events(x):
            n += 1
            rep.same(t, v, B.And(e.pc, w.pc), "one-key|" + key, what + ": wrapped bytes are the content key", w.where())
    return n


def run(lab, rep, tier):
    n = 0
    wraps = [i for i, _, _ in iana.algs("aeskw", "oaep", "ecdhkw")]
    ceks = [("EncMessage", i) for i, _, _ in iana.algs("gcm", "ccm")] + \
           [("MacMessage", i) for i, _, p in iana.algs("hmac", "aesmac")]
    some = [-3, -41, -29, -32]
    for cls, cek in ceks:
        for i in (wraps if cek in (1, 14) else [-3, -32]):
            for ch in ((None,), (True,)) if cek in (1, 14) else ((None,),):
                n += case(lab, rep, cls, cek, (i,), ch)
    more = (("EncMessage", 32), ("MacMessage", 5)) if tier == "thorough" else ()
    for cls, cek in (("EncMessage", 1), ("MacMessage", 15)) + more:
        for a in some:
            for b in some if cek in (1, 15) else ():
                n += case(lab, rep, cls, cek, (a, b), (None, None))
        for pair in ((-3, -3), (-41, -32), (-29, -5)):
            for ch in ((True, None), (None, True), (True, True)):
                n += case(lab, rep, cls, cek, pair, ch)
        n += case(lab, rep, cls, cek, (-3, -41, -32), (None, None, None))
        n += case(lab, rep, cls, cek, (-3, -41, -32), (None, True, None))
    for cls, cek in (("EncMessage", 1), ("MacMessage", 15)):
        for i in (-41, -3):
            n += case(lab, rep, cls, cek, (i,) * MANY, (None,) * MANY)
        n += case(lab, rep, cls, cek, (-3,) * MANY, (None,) * (MANY - 1) + (True,))
    n += on_its_own(lab, rep)
    # different content keys
    for cls, cek in (("EncMessage", 1), ("MacMessage", 15)):
        for pair in ((-3, -3), (-41, -32), (-29, -5)):
            what = "%s with different content keys in %s" % (cls, pair)
            with rep.case(what):
                c, m, rs, ts = build(lab, cls, cek, pair, (True, True))
                diff = B.And(B.Not(g_eq(ts[0], ts[1])), *[q for t in ts for q in (g_truthy(t), B.Not(g_eq(t, const(b""))))])
                x = c.run(m, "encode")
                ok_guard(rep, B.And(x.pc, diff), "differ|" + cls, what + " is refused")
                n += 1
            extsig.DUMPS_LEN[0] = None
    # a second message, after a first one
    for cls, cek in (("EncMessage", 1), ("MacMessage", 15)):
        for i in some:
            what = "%s.encode[%s] via %s, after another message" % (cls, iana.ALGS[cek][0], iana.ALGS[i][0])
            with rep.case(what):
                c, m, rs, ts = build(lab, cls, cek, (i,), (None,))
                m2 = c.inst("pycose.messages." + cls, "msg2")
                dict_headers(c, m2)
                c.with_alg(m2, algterm(lab, cek), "phdr")
                c.set(m2, "payload", sym("payload2", "bytes"))
                c.set(m2, "external_aad", sym("external_aad2", "bytes"))
                c.set(m2, "recipients", c.list(sending(c, i, "second")[0]))
                x = c.run(m, "encode")
                if x.pc == FALSE or not sat(x.pc):
                    rep.undecided(what)
                else:
                    x.state.pc = x.pc
                    n += check_one(rep, Ctx(lab, x.state), m2, None, [None], cls, cek, what, cls + ".again")
            extsig.DUMPS_LEN[0] = None
    rep.floor("operands compared", n, 300)


def on_its_own(lab, rep):
    """compute_cek of a wrapping structure, sending: the content key it carries, usable for what it is wanted for, or none."""
    n = 0
    for i, nm, _ in iana.algs("aeskw", "oaep", "ecdhkw"):
        for cek in (1, 3):
            for empty in (False, True):
                what = "%s.compute_cek[%s] of a structure %s content key" % (RCPT_OF[iana.ALGS[i][1]], nm, "without" if empty else "with a")
                key = RCPT_OF[iana.ALGS[i][1]] + ".compute_cek"
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    r, _ = sending(c, i, "rcpt")
                    P = const(b"") if empty else sym("content_key", "bytes")
                    c.set(r, "payload", P)
                    if not empty:
                        extsig.LENS[P] = iana.ALGS[cek][2]["key"]
                        c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                    G = algterm(lab, cek)
                    x = c.run(r, "compute_cek", G, const("encrypt"))
                    if x.pc == FALSE:
                        rep.undecided(what + ": never completes")
                        continue
                    for g, k in from_term(as_term(x.value, x.pc)):
                        q = B.And(x.pc, g)
                        if not sat(q):
                            continue
                        if empty or k is NONE:
                            ok_guard(rep, FALSE if empty and k is NONE else q, key + "|value", what + ": " + ("none" if empty else "it is returned"))
                            continue
                        c2 = Ctx(lab, x.state.copy())
                        c2.st.pc = q
                        rep.same(c2.get1(k, "k"), P, q, key + "|value", what + ": the key returned is the one it carries")
                        v = c2.run(k, "verify", lab.name("pycose.keys.SymmetricKey"), G, c2.list(lab.name("pycose.keys.keyops.EncryptOp")))
                        ok_guard(rep, B.And(q, B.Not(v.pc)), key + "|use", what + ": the key may encrypt under the algorithm asked for")
                extsig.LENS.clear()
    return n


def build(lab, cls, cek, algs, chosen):
    c, m = msg_ctx(lab, cls, cek)
    if cls == "MacMessage":
        extsig.DUMPS_LEN[0] = 64
    rs, ts = [], []
    for j, (i, ch) in enumerate(zip(algs, chosen)):
        t = sym("cek%d" % j, "bytes") if ch else None
        rs.append(sending(c, i, "rcpt%d" % j, payload=t)[0])
        ts.append(t)
    c.set(m, "recipients", c.list(*rs))
    return c, m, rs, ts


def case(lab, rep, cls, cek, algs, chosen):
    what = "%s.encode[%s] via %s%s" % (cls, iana.ALGS[cek][0], "+".join(str(iana.ALGS[i][0]) for i in algs) if len(algs) < 4 else "%d %s" % (len(algs), iana.ALGS[algs[0]][0]),
                                       "" if not any(chosen) else ", content key in %s" % [j for j, x in enumerate(chosen) if x])
    key = "%s.%s" % (cls, "several" if len(algs) > 1 else RCPT_OF[iana.ALGS[algs[0]][1]])
    n = 0
    with rep.case(what):
        c, m, rs, ts = build(lab, cls, cek, algs, chosen)
        n = check_one(rep, c, m, rs, ts, cls, cek, what, key)
    extsig.DUMPS_LEN[0] = None
    return n
