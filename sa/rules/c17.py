"""C17: the AEAD nonce is the IV, or Base IV xor Partial IV."""
from .common import *      # noqa

RULE = ("nonce operand of every AEAD call = value of the IV header parameter if present, else key's Base IV xor the Partial IV "
        "left-padded to the length of the Base IV; the call is unreachable when neither is defined or the Partial IV is longer "
        "than the Base IV, and reachable otherwise")
EXPLAIN = ("encrypt, encode and decrypt of both encryption message classes, every AEAD algorithm, are analysed on messages in an "
           "arbitrary state, on constructed, updated and received messages with each placement of the IV and Partial IV "
           "parameters, and keys in an arbitrary state, with and without a Base IV, for every recipient class; the nonce term "
           "is compared with the specification, the reachability condition with the definedness condition.")
BUCK = {"p": "phdr", "u": "uhdr"}


def truth(c, t, pc=TRUE):
    """Guard under which a (boolean) specification term holds."""
    return g_truthy(t)


def check(rep, c, r, m, key, meth, cls, what, base, complete=False, own_pc=TRUE):
    lab = c.lab
    IV, PIV = lab.name("pycose.headers.IV"), lab.name("pycose.headers.PartialIV")
    exp, _ = c.spec("nonce", m, IV, PIV, base, pc=TRUE)
    dfn, _ = c.spec("nonce_defined", m, IV, PIV, base, pc=TRUE)
    gd = g_truthy(dfn)
    evs = aead_events(r, ".decrypt" if meth == "decrypt" else ".encrypt")
    n = 0
    for e in evs:
        nn = e.kw.get("nonce")
        if nn is None:
            rep.undecided(what + ": nonce operand")
            continue
        n += 1
        ok_guard(rep, B.And(e.pc, B.Not(gd)), "defined|%s.%s" % (cls, meth), what + ": nonce is defined", e.where())
        rep.same(nn, exp, B.And(e.pc, gd), "nonce|%s.%s" % (cls, meth), what + ": nonce", e.where())
    if complete:
        g = B.And(own_pc, gd, B.Not(B.Or(FALSE, *[e.pc for e in evs])))
        ok_guard(rep, g, "refused|%s.%s" % (cls, meth), what + ": not refused although a nonce is defined")
    if not evs:
        if not complete and r.pc != FALSE:
            rep.undecided(what + ": no AEAD call")
    return n


def recipients(c, m, cls, rk, meth):
    if cls != "EncMessage":
        return []
    rc = rx_recipient(c, rk) if meth == "decrypt" and rk != "direct" else rcpt_for(c, rk)
    c.set(m, "recipients", c.list(rc))
    return [rc] if meth == "decrypt" else []


def run(lab, rep, tier):
    n = arbitrary(lab, rep)
    n += placed(lab, rep, tier)
    n += received_iv(lab, rep)
    n += derived(lab, rep)
    rep.floor("nonces compared", n, 150)


def arbitrary(lab, rep):
    n = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        for cls in ("Enc0Message", "EncMessage"):
            for meth in ("encrypt", "decrypt", "encode"):
                what = "%s.%s[%s], any state" % (cls, meth, nm)
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, i)
                    k = sym_key(c)
                    c.set(m, "key", k)
                    for x in ("IV", "PartialIV"):        # header parsers only admit byte strings
                        for b in "pu":
                            t, _ = c.spec("in_bucket", m, const(b), lab.name("pycose.headers." + x))
                            for _, y in from_term(t):
                                if not is_const(y):
                                    TYPES[y] = "bytes"
                    args = recipients(c, m, cls, "direct", meth)
                    base = c.get1(k, "base_iv")
                    for _, x in from_term(base):
                        if not is_const(x):
                            TYPES[x] = "bytes"      # keys hold byte strings
                    pre = c.fork()
                    r = c.run(m, meth, *args)
                    n += check(rep, pre, r, m, k, meth, cls, what, base)
    return n


def good_key(c, i, base, how):
    """A constructed key that may be used with the algorithm."""
    lab = c.lab
    size = iana.ALGS[i][2]["key"]
    kb = sym("k", "bytes")
    extsig.LENS[kb] = size
    KB = lab.name("pycose.keys.keyparam.KpBaseIV")
    if base is not None and how == "constructed":
        return c.new("pycose.keys.SymmetricKey", kb, c.dict([(KB, base)]))
    if base is not None and how == "from_dict":
        d = c.dict([(const(1), const(4)), (const(-1), kb), (const(5), base)])
        t = single(c.callm(lab.name("pycose.keys.CoseKey"), "from_dict", d))
        if t is None:
            raise AnalysisError("from_dict yields several objects")
        return t
    k = c.new("pycose.keys.SymmetricKey", kb)
    if base is not None and how == "attribute":
        c.set(k, "base_iv", base)
    elif base is not None:
        c.setitem(k, KB, base)
    return k


def placed(lab, rep, tier):
    """Constructed messages: every placement of the two parameters, every way to give the key a Base IV."""
    n = 0
    A, IV, PIV = (lab.name("pycose.headers." + x) for x in ("Algorithm", "IV", "PartialIV"))
    algs = [x for x in iana.algs("gcm", "ccm")]
    if tier != "thorough":
        algs = algs[:2] + algs[-1:]
    for i, nm, par in algs:
        for cls in ("Enc0Message", "EncMessage"):
            for meth in ("encrypt", "decrypt", "encode"):
                for iv in (None, "p", "u"):
                    for piv in (None, "p", "u"):
                        for how in (None, "constructed", "attribute", "item", "from_dict"):
                            for late in (False, True):
                                if late and (how not in ("constructed", None) or (iv is None and piv is None)):
                                    continue
                                if iv is not None and how not in ("constructed", None):
                                    continue
                                what = "%s.%s[%s] IV %s, Partial IV %s, Base IV %s%s" % (
                                    cls, meth, nm, iv, piv, how, ", set later" if late else "")
                                with rep.case(what):
                                    c = lab.ctx()
                                    ent = {"p": [(A, algterm(lab, i))], "u": []}
                                    add = {"p": [], "u": []}
                                    ivs = sym("iv", "bytes")
                                    extsig.LENS[ivs] = 12
                                    extsig.LENS[ivs] = par.get("nonce", 12)
                                    if iv:
                                        (add if late else ent)[iv].append((IV, ivs))
                                    if piv:
                                        (add if late else ent)[piv].append((PIV, sym("partial", "bytes")))
                                    m = c.new("pycose.messages." + cls, phdr=c.dict(ent["p"]), uhdr=c.dict(ent["u"]),
                                              payload=sym("payload", "bytes"))
                                    for b in "pu":
                                        if add[b]:
                                            c.callm(m, BUCK[b] + "_update", c.dict(add[b]))
                                    base = sym("base", "bytes") if how else NONE
                                    if how:
                                        c.st.pc = B.And(c.st.pc, g_truthy(base), B.Not(g_eq(base, const(b""))))
                                    k = good_key(c, i, base if how else None, how)
                                    c.set(m, "key", k)
                                    args = recipients(c, m, cls, "direct", meth)
                                    pc = c.st.pc
                                    pre = c.fork()
                                    r = c.run(m, meth, *args)
                                    n += check(rep, pre, r, m, k, meth, cls, what, base, True, pc)
    return n


def received_iv(lab, rep):
    n = 0
    for cls in ("Enc0Message", "EncMessage"):
        for i in (1, 24 if 24 in iana.ALGS else 10):
            for iv in (None, "p", "u"):
                for piv in (None, "p", "u"):
                    if iv and piv:
                        continue
                    for how in (None, "constructed"):
                        for meth in ("decrypt", "encrypt"):
                            what = "received %s.%s[%d] IV %s, Partial IV %s, Base IV %s" % (cls, meth, i, iv, piv, how)
                            with rep.case(what):
                                c = lab.ctx()
                                rx = Rx(c)
                                ent = {"p": [(const(1), const(i))], "u": []}
                                if iv:
                                    ent[iv].append((const(5), sym("iv", "bytes")))
                                if piv:
                                    ent[piv].append((const(6), sym("partial", "bytes")))
                                P = rx.header("phdr_bytes", c.dict(ent["p"]))
                                c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                                received(c, rx, cls, P, c.dict(ent["u"]))
                                m = decode(c, rx, cls)
                                base = sym("base", "bytes") if how else NONE
                                if how:
                                    c.st.pc = B.And(c.st.pc, g_truthy(base), B.Not(g_eq(base, const(b""))))
                                k = good_key(c, i, base if how else None, how)
                                c.set(m, "key", k)
                                args = []
                                if cls == "EncMessage" and meth == "decrypt":
                                    args = [single(c.I.getitem(c.st, one(c.get1(m, "recipients")), one(const(0)), None))]
                                pc = c.st.pc
                                pre = c.fork()
                                r = c.run(m, meth, *args)
                                n += check(rep, pre, r, m, k, meth, cls, what, base, True, pc)
    return n


def derived(lab, rep):
    """Content keys that come out of a recipient carry no Base IV: the IV parameter alone decides."""
    n = 0
    for i in (1, 10):
        for rk in ("aeskw", "oaep", "ecdhdirect", "ecdhkw", "ecdhdirect-es", "ecdhkw-es"):
            for meth in ("encrypt", "decrypt", "encode"):
                what = "EncMessage.%s[%d] via %s" % (meth, i, rk)
                with rep.case(what):
                    c, m = msg_ctx(lab, "EncMessage", i)
                    c.set(m, "key", sym_key(c))
                    args = recipients(c, m, "EncMessage", rk, meth)
                    pre = c.fork()
                    r = c.run(m, meth, *args)
                    n += check(rep, pre, r, m, None, meth, "EncMessage", what, NONE)
    return n
