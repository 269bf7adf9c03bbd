"""C16: a key agreement combines the own private key with the peer's public key, on one curve, and nothing else."""
from .common import *      # noqa
from .c06 import components, compare, kwof
from .c15 import SEND, RECV

RULE = ("every ECDH call combines the private value of the key set on the recipient structure (or of the freshly generated "
        "ephemeral key whose public part is put into the header) with the public coordinates of the static peer key (sending) or "
        "of the key carried in the header (receiving), both on the curve of these keys; keys on different curves are refused; "
        "the shared secret enters HKDF and the derived bytes are the content key or the wrapping key, without further change")
EXPLAIN = ("Sending and receiving with every key-agreement algorithm over each curve, ephemeral keys generated or supplied, in "
           "COSE_Encrypt and COSE_Mac, are analysed with arbitrary keys and headers; operand terms of exchange, derivation, "
           "wrapping and content primitives are compared with the terms of the keys involved.")
OBJ = {"P256": ("SECP256R1",), "P384": ("SECP384R1",), "P521": ("SECP521R1",)}


def header_name(par):
    return "pycose.headers." + ("StaticKey" if par["static"] else "EphemeralKey")


def build(lab, cls, i, cek, side, curve, own_curve, fresh):
    """context, message, recipient, own key, peer key"""
    par, kind = iana.ALGS[i][2], iana.ALGS[i][1]
    c, m = msg_ctx(lab, cls, cek)
    if cls == "MacMessage":
        extsig.DUMPS_LEN[0] = 64
    r = c.inst(RCPT + RCPT_OF[kind], "rcpt")
    dict_headers(c, r)
    c.with_alg(r, algterm(lab, i), "phdr" if side == SEND else "uhdr")
    bytes_header(c, r)
    H = lab.name(header_name(par))
    own = c.inst("pycose.keys.EC2Key", "own") if own_curve is None else ec_key(c, "own", own_curve)
    peer = c.inst("pycose.keys.EC2Key", "peer") if curve is None else ec_key(c, "peer", curve)
    if side == SEND:
        c.set(r, "payload", const(b""))
        local_attrs(c, r, [(lab.name("pycose.headers.StaticKey"), peer)])
        if fresh:
            c.set(r, "key", NONE)
            for b in ("phdr", "uhdr"):
                c.header(r, b, H, None)
        else:
            c.set(r, "key", own)
            if not par["static"]:
                c.header(r, "phdr", H, None)
                c.header(r, "uhdr", H, own)
    else:
        c.set(r, "payload", sym("wrapped", "bytes"))
        # a local key that is not in the structure plays no part
        local_attrs(c, r, [(lab.name("pycose.headers.StaticKey"), ec_key(c, "local", "P256" if curve is None else curve))])
        c.set(r, "key", own)
        c.header(r, "phdr", H, None)
        c.header(r, "uhdr", H, peer)
    c.set(m, "recipients", c.list(r))
    return c, m, r, own, peer


def operate(c, m, r, cls, side):
    if side == RECV:
        return c.run(m, "decrypt", r)
    return c.run(m, "encrypt" if cls == "EncMessage" else "compute_tag")


def curve_of_ctor(x):
    """curve argument of the constructor a key object was made with"""
    if x.op == "fresh":
        return curve_of_ctor(x.args[1])
    if x.op in ("attr", "meth"):
        return curve_of_ctor(x.args[0])
    if x.op == "call":
        if x.args[0].op == "ext":
            return kwof(x).get("curve")
        return curve_of_ctor(x.args[0])
    return None


def check_exchange(rep, c, e, own, peer, curve, what, fkey):
    """One ECDH call: returns the number of compared operands."""
    n = 0
    recv, pub = e.callee.args[0], e.kw.get("peer_public_key", top("peer"))
    if own is not None:
        comps = [x for x in components(recv) if x[0] == "d"]
        if not comps:
            rep.undecided(what + ": private key object: " + show(recv)[:100])
        n += compare(rep, c, comps, "EC2", own, e, what, fkey + "|own")
    comps = [x for x in components(pub) if x[0] in "xy"]
    if not comps:
        rep.undecided(what + ": peer key object: " + show(pub)[:100])
    n += compare(rep, c, comps, "EC2", peer, e, what, fkey + "|peer")
    if curve:
        for nm, t in (("private", recv), ("public", pub)):
            cv = curve_of_ctor(t)
            if cv is None:
                rep.undecided("%s: curve of the %s key object" % (what, nm))
                continue
            for g, x in from_term(cv):
                q = B.And(e.pc, g)
                if not sat(q):
                    continue
                y = x.args[0] if x.op == "call" else x
                if y.op != "ext":
                    rep.undecided("%s: curve of the %s key object" % (what, nm))
                else:
                    rep.check(y.args[0].rsplit(".", 1)[-1] in OBJ[curve], "curve|" + fkey,
                              "%s: %s key object is on %s" % (what, nm, y.args[0].rsplit(".", 1)[-1]), e.where())
                    n += 1
    return n


def chain(rep, r, kind, cls, side, what, fkey):
    """exchange -> HKDF -> use."""
    n = 0
    ex = [e.result for e in extcalls(r, ".exchange")]
    ds = extcalls(r, ".derive", ctor=("HKDF",))
    for e in ds:
        km = e.kw.get("key_material", e.args[0] if e.args else top("km"))
        for g, x in from_term(km):
            if not sat(B.And(e.pc, g)):
                continue
            n += 1
            if any(x is y for y in ex):
                rep.ok(what + ": shared secret")
            elif has_top(x):
                rep.undecided(what + ": shared secret")
            else:
                rep.bad("secret|" + fkey, what + ": key derivation input is not the shared secret", e.where(), show(x)[:300])
    keys = [e.result for e in ds]
    if kind == "ecdhkw":
        uses = [(e, e.kw.get("wrapping_key", top("k"))) for e in extcalls(r, "aes_key_wrap", "aes_key_unwrap")]
    else:
        uses = []
        for e in aead_events(r, ".encrypt") + aead_events(r, ".decrypt"):
            for nm, _, v in components(e.recv):
                uses.append((e, v))
        for e in mac_events(r):
            for nm, _, v in components(e.args[0]):
                uses.append((e, v))
    for e, v in uses:
        if v is None:
            rep.undecided(what + ": key operand")
            continue
        for g, x in from_term(v):
            if not sat(B.And(e.pc, g)):
                continue
            n += 1
            if any(x is y for y in keys):
                rep.ok(what + ": derived key")
            elif has_top(x):
                rep.undecided(what + ": derived key")
            else:
                rep.bad("use|" + fkey, what + ": key in use is not the derived key", e.where(), show(x)[:300])
    if not uses and r.pc != FALSE:
        rep.undecided(what + ": derived key is not used")
    if not ex:
        if r.pc == FALSE or has_top(as_term(r.value, r.pc)):
            rep.undecided(what + ": no key agreement")
        else:
            rep.bad("no-ecdh|" + fkey, what + " completes without a key agreement")
    return n


def run(lab, rep, tier):
    n = 0
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for curve in ("P256", "P384", "P521"):
            for cls, cek in (("EncMessage", 1), ("EncMessage", 12), ("MacMessage", 14)):
                for side in (SEND, RECV):
                    if cls == "MacMessage" and side == RECV:
                        continue
                    for fresh in ((False, True) if side == SEND and not par["static"] else (False,)):
                        what = "%s via %s, %s, %s%s" % (cls, nm, side, curve, ", fresh ephemeral key" if fresh else "")
                        fkey = "%s.%s" % (RCPT_OF[kind], side)
                        with rep.case(what):
                            c, m, r, own, peer = build(lab, cls, i, cek, side, curve, curve, fresh)
                            pre = c.fork()
                            x = operate(c, m, r, cls, side)
                            for e in extcalls(x, ".exchange"):
                                n += check_exchange(rep, pre, e, None if fresh else own, peer, curve, what, fkey)
                            n += chain(rep, x, kind, cls, side, what, fkey)
                            if fresh:
                                n += ephemeral(rep, c, r, x, what, fkey, lab.name(header_name(par)))
                        extsig.DUMPS_LEN[0] = None
        # keys on arbitrary curves
        for side in (SEND, RECV):
            what = "EncMessage via %s, %s, arbitrary curves" % (nm, side)
            with rep.case(what):
                c, m, r, own, peer = build(lab, "EncMessage", i, 1, side, None, None, False)
                same, pc = c.spec("same_curve", own, peer, pc=TRUE)
                for b in (own, peer):
                    c.get(b, "crv")
                x = operate(c, m, r, "EncMessage", side)
                for e in extcalls(x, ".exchange"):
                    n += 1
                    ok_guard(rep, B.And(e.pc, pc, B.Not(g_truthy(same))), "one-curve|%s.%s" % (RCPT_OF[kind], side),
                             what + ": both keys are on one curve", e.where())
        for a, b in (("P256", "P384"), ("P521", "P256"), ("P256", "SECP256K1")):
            for side in (SEND, RECV):
                what = "EncMessage via %s, %s, %s with %s" % (nm, side, a, b)
                with rep.case(what):
                    c, m, r, own, peer = build(lab, "EncMessage", i, 1, side, a, b, False)
                    x = operate(c, m, r, "EncMessage", side)
                    ok_guard(rep, x.pc, "one-curve|%s.%s" % (RCPT_OF[kind], side), what + " is refused")
                    n += 1
        # the peer key under the other header parameter only
        what = "EncMessage via %s, receiving, with the peer key under the other parameter" % nm
        with rep.case(what):
            c, m, r, own, peer = build(lab, "EncMessage", i, 1, RECV, "P256", "P256", False)
            other = lab.name("pycose.headers." + ("EphemeralKey" if par["static"] else "StaticKey"))
            c.header(r, "uhdr", lab.name(header_name(par)), None)
            c.header(r, "uhdr", other, peer)
            x = operate(c, m, r, "EncMessage", RECV)
            ok_guard(rep, x.pc, "other-header|" + RCPT_OF[kind], what + " is refused")
            for e in extcalls(x, ".exchange"):
                ok_guard(rep, e.pc, "other-header|" + RCPT_OF[kind], what + ": no exchange", e.where())
            n += 1
        if not par["static"]:
            n += again(lab, rep, i, nm, kind)
    rep.floor("operands compared", n, 300)


def own_scalars(r):
    out = []
    for e in extcalls(r, ".exchange"):
        for comp in components(e.callee.args[0]):
            if comp[0] == "d":
                out += [(B.And(e.pc, g), v, e) for g, v in from_term(comp[2])]
    return out


def again(lab, rep, i, nm, kind):
    """Two messages after each other: each has its own ephemeral key."""
    n = 0
    what = "EncMessage via %s, after another message" % nm
    with rep.case(what):
        c, m, r, own, peer = build(lab, "EncMessage", i, 1, SEND, "P256", "P256", True)
        H = lab.name(header_name(iana.ALGS[i][2]))
        m2 = c.inst("pycose.messages.EncMessage", "msg2")
        dict_headers(c, m2)
        c.with_alg(m2, algterm(lab, 1), "phdr")
        c.set(m2, "payload", sym("payload2", "bytes"))
        c.set(m2, "external_aad", sym("external_aad2", "bytes"))
        r2 = c.inst(RCPT + RCPT_OF[kind], "rcpt2")
        dict_headers(c, r2)
        c.with_alg(r2, algterm(lab, i), "phdr")
        bytes_header(c, r2)
        c.set(r2, "payload", const(b""))
        local_attrs(c, r2, [(lab.name("pycose.headers.StaticKey"), ec_key(c, "peer2", "P256"))])
        c.set(r2, "key", NONE)
        for b in ("phdr", "uhdr"):
            c.header(r2, b, H, None)
        c.set(m2, "recipients", c.list(r2))
        x = operate(c, m, r, "EncMessage", SEND)
        if x.pc == FALSE or not sat(x.pc):
            rep.undecided(what)
            return 0
        first = own_scalars(x)
        x.state.pc = x.pc
        c2 = Ctx(lab, x.state)
        y = operate(c2, m2, r2, "EncMessage", SEND)
        second = own_scalars(y)
        second = [s for s in second if not any(s[2] is f[2] for f in first)]
        if not first or not second:
            rep.undecided(what + ": no key agreement")
        for g, v, e in first:
            for h, w, e2 in second:
                n += 1
                if v is w and sat(B.And(g, h)):
                    rep.bad("reuse|" + RCPT_OF[kind], what + ": the ephemeral key of the first message is used again", e2.where(), show(v)[:200])
                else:
                    rep.ok(what)
    return n


def ephemeral(rep, c, rc, r, what, fkey, H):
    """The generated key is the one used, and its public part alone is in the header."""
    n = 0
    lab = c.lab
    c2 = Ctx(lab, r.state)
    key = c2.get1(rc, "key")
    K = "pycose.keys.keyparam.EC2Kp"
    for e in extcalls(r, ".exchange"):
        comps = [x for x in components(e.callee.args[0]) if x[0] == "d"]
        for g, k in from_term(key):
            q = B.And(e.pc, g)
            if k.op != "obj" or not sat(q):
                continue
            n += compare(rep, Ctx(lab, r.state), comps, "EC2", k, e, what, fkey + "|ephemeral")
    hv, _ = c2.spec("lookup", rc, H, NONE, pc=r.pc)
    for g, h in from_term(hv):
        q = B.And(r.pc, g)
        if not sat(q):
            continue
        if h is NONE:
            rep.bad("header|" + fkey, what + ": the ephemeral public key is not put into the header")
            break
    n += 1
    D = lab.name(K + "D")
    there, pc = c2.spec("header_key_has", rc, H, D, pc=r.pc)
    if has_top(there) or not sat(pc):
        rep.undecided(what + ": ephemeral key in the header: " + show(there)[:200])
    else:
        ok_guard(rep, B.And(pc, g_truthy(there)), "private|" + fkey, what + ": no private value in the header")
    for kk in key_alts(key):
        for p in "XY":
            want, wpc = Ctx(lab, r.state).spec("raw", kk, lab.name(K + p), pc=r.pc)
            got, gpc = c2.spec("header_key_param", rc, H, lab.name(K + p), pc=r.pc)
            if has_top(got) or not sat(B.And(gpc, wpc)):
                rep.undecided(what + ": public coordinate %s in the header: %s" % (p, show(got)[:100]))
            else:
                rep.same(got, want, B.And(gpc, wpc), "header|" + fkey, what + ": public coordinate " + p)
                ok_guard(rep, B.And(r.pc, wpc, B.Not(gpc)), "header|" + fkey, what + ": public coordinate %s missing" % p)
    return n


def key_alts(key):
    return [k for _, k in from_term(key) if k.op == "obj"]
