"""C29: what the library emits it takes back, with the same contents and the same operands."""
from .common import *      # noqa
from .c11 import default_of
from .c20 import truth
from .. import terms as tm
from .c18 import ctor_calls, kwof

RULE = ("decode(encode(m)) is a message of the same class whose headers, payload, signatures, tags and recipients are those of m, and the verifying or "
        "decrypting operation on it hands the primitives exactly the data, nonces, contexts and values that the producing operation used or returned")
EXPLAIN = ("encode is analysed on messages with arbitrary values; its output term is turned, by the encoder the library itself passes to the CBOR "
           "package, into the item a correct CBOR decoder returns; decode is analysed on that item and the consuming operation on the result; the "
           "contents and the operands of both sides are compared as terms.")
H = "pycose.headers."
PM = "pycose.messages."
BYTES = ("sign", "sign_deterministic", "encrypt", "aes_key_wrap", "aes_key_unwrap", "decrypt", "exchange", "derive")


class Wire(Rx):
    """The receiver's view of what the sender's encoder emitted."""

    def __init__(self, c, out):
        super().__init__(c)
        self.out = out
        self.lost = None
        x, tag = undumps(out), None
        d = default_of(out)
        if x is None:
            raise AnalysisError("output is not an encoding: " + show(out)[:120])
        if x.op == "call" and x.args[0].op == "ext" and short_name(x.args[0]) == "CBORTag":
            a = list(x.args[1]) + [v for _, v in (x.args[2] if len(x.args) > 2 else ())]
            tag, x = a[0], a[1]
        self.rx = out
        v = self.value(x, d)
        if tag is not None:
            self.tagged(tag, v)
        else:
            self.maps[out] = v

    def value(self, t, d):
        c = self.c
        if t.op == "gamma":
            alts = [(g, x) for g, x in t.args[0] if sat(B.And(c.st.pc, g))]
            if len(alts) == 1:
                return self.value(alts[0][1], d)
            return tuple((g, self.single(x, d)) for g, x in alts)
        return self.single(t, d)

    def single(self, t, d):
        c = self.c
        if t.op == "class":
            return self.special(t, d)
        if t.op in ("list", "tuple"):
            if any(x.op in ("star", "cseg") for x in t.args):
                raise AnalysisError("a list of unknown length is emitted")
            return c.list(*[self.value(x, d) for x in t.args])
        if t.op == "dict":
            if t.args[0] is not NONE:
                raise AnalysisError("an unknown map is emitted")
            items = []
            for x in t.args[1:]:
                if x.op == "cseg":
                    if not sat(B.And(c.st.pc, x.args[0])):
                        continue
                    if sat(B.And(c.st.pc, B.Not(x.args[0]))):
                        raise AnalysisError("a map with a conditional entry is emitted")
                    x = x.args[1]
                items.append((self.value(x.args[0], d), self.value(x.args[1], d)))
            return c.dict(items)
        if t.op == "obj":
            return self.special(t, d)
        inner = undumps(t)
        if inner is not None:
            if t not in self.maps:
                self.maps[t] = self.value(inner, default_of(t))
            return t
        return t

    def special(self, t, d):
        """What the library's encoder makes of a value CBOR does not know."""
        c = self.c
        if d is None or d is NONE:
            raise AnalysisError("%s is handed to CBOR without an encoder" % show(t)[:80])
        f = c.fork()
        r = f.run(d, "__call__", sym("encoder"), t)
        evs = [e for e in r.events if e.kind == "call" and e.name == ".encode" and sat(e.pc) and e.recv is sym("encoder")]
        if not evs:
            raise AnalysisError("%s is not encoded" % show(t)[:80])
        alts = []
        for e in evs:
            a = [x for x in e.args if x is not e.recv] or list(e.kw.values())
            alts.append((e.pc, f.I.snapv(r.state, one(a[0]))))
        if len(alts) == 1:
            return self.value(alts[0][1], d)
        return self.value(T("gamma", tuple(alts)), d)


def wire_of(c, r):
    c2 = Ctx(c.lab, r.state)
    c2.st.pc = r.pc
    return c2, Wire(c2, c2.snap(r))


HEADERS = ["full", "bare", "unprotected", "mixed", "all"]
REST = [("PartialIV", sym("partial_iv", "bytes")), ("CounterSignature", sym("countersignature")), ("CounterSignature0", sym("countersignature0", "bytes")),
        ("KIDContext", sym("kid_context", "bytes")), ("X5bag", sym("x5bag", "bytes")), ("X5chain", sym("x5chain", "bytes")), ("X5u", sym("x5u", "str")),
        ("StaticKeyID", sym("static_key_id", "bytes"))]


def headers(lab, c, i, shape, iv=None):
    A, KID, CT, IV, CRIT = (lab.name(H + x) for x in ("Algorithm", "KID", "ContentType", "IV", "Critical"))
    ph, uh = [], []
    alg = [(A, algterm(lab, i))] if i is not None else []
    ivs = [(IV, iv)] if iv is not None else []
    if shape == "full":
        ph = alg + [(KID, sym("kid", "bytes")), (const("text label"), sym("custom"))] + ivs
        uh = [(const(-70000), sym("unknown")), (CT, sym("content_type", "str"))]
    elif shape == "bare":
        ph, uh = alg, ivs
    elif shape == "unprotected":
        uh = alg + [(KID, sym("kid", "bytes"))] + ivs
    elif shape == "all":
        ph = alg + [(CRIT, c.list(const("text label"), const(4)))] + [(lab.name(H + k), v) for k, v in REST if k != "PartialIV" or not ivs]
        uh = [(CT, sym("content_format", "str")), (KID, sym("kid", "bytes")), (const(1000), const(None)), (const("empty"), const(b"")), (const("zero"), const(0))] + ivs
    else:
        ph = [(const(-70000), sym("unknown")), (CT, const(60))] + ivs
        uh = alg + [(const("text label"), sym("custom"))]
    return ph, uh


def same_headers(rep, c, m, c2, d, pc, key, what, ph=None, uh=None):
    for b, given in (("phdr", ph), ("uhdr", uh)):
        f = c.fork()
        x = f.get1(m, b) if given is None else f.dict(given)
        x = f.I.snapv(f.st, one(x))
        y = c2.I.snapv(c2.st, one(c2.fork().get1(d, b)))
        rep.same(y, x, pc, "%s|%s" % (key, b), "%s: %s header" % (what, b), "")


def back(lab, rep, c, m, r, cls, key, what, ph=None, uh=None):
    """Decode what r emitted: (context, message) or None."""
    gives_up(rep, r, key + "|refuses to send", what + ": the message is produced")
    if not sat(r.pc):
        rep.undecided(what + ": never completes")
        return None
    c2, w = wire_of(c, r)
    for e in sign_events(r) + extcalls(r, "aes_key_wrap", ".encrypt"):      # what primitives return is never empty
        c2.st.pc = B.And(c2.st.pc, B.Not(g_empty(e.result)))
    with w:
        x = c2.run(lab.name(PM + cls), "decode", w.rx)
    ok_guard(rep, B.Or(FALSE, *[e[0] for e in x.raises]), key + "|refused", what + ": the output is accepted by decode")
    if not sat(x.pc):
        return None
    d = single(x.value)
    if d is None:
        rep.undecided(what + ": several decoded messages")
        return None
    c3 = Ctx(lab, x.state)
    c3.st.pc = x.pc
    t, _ = c3.spec("exactly", d, lab.name(PM + cls))
    rep.same(t, const(True), x.pc, key + "|class", what + ": class of the decoded message")
    same_headers(rep, Ctx(lab, r.state), m, c3, d, x.pc, key, what, ph, uh)
    c3.wire = w
    return c3, d


PARTS = {"EC2Key": ("x", "y", "d"), "OKPKey": ("x", "d"), "RSAKey": ("n", "e", "d"), "SymmetricKey": ("k",)}


PRE = {"EC2Key": "EC2", "OKPKey": "OKP", "RSAKey": "RSA"}


def plain(c, k, kind, alg=None):
    """The key is not restricted to an algorithm or operations, holds its public and private parts, and has the length for alg."""
    from .c06 import here
    g = TRUE
    for a in PARTS[short(kind)]:
        g = B.And(g, here(c, k, c.lab.name(K + "keyparam." + ("SymKpK" if a == "k" else PRE[short(kind)] + "Kp" + a.upper()))))
    c.st.pc = B.And(c.st.pc, g)
    size = iana.ALGS[alg][2]["key"] if alg is not None else None
    f = c.fork()
    if size and iana.ALGS[alg][1] != "hmac":
        c.st.pc = B.And(c.st.pc, g_eq(f.spec("length", f.get1(k, "k"))[0], const(size)))
    g = B.And(g_isnone(f.get1(k, "alg")), truth(f.spec("nothing", f.get1(k, "key_ops"))[0]))
    for a in PARTS[short(kind)]:
        g = B.And(g, g_truthy(f.get1(k, a)), tm.g_isinst(f.get1(k, a), "bytes"))
    c.st.pc = B.And(c.st.pc, g)


def goes_on(rep, r, v, key, what):
    gives_up(rep, v, key + "|gives up", what + ": the receiving operation does not refuse")


def gives_up(rep, v, key, what):
    """The operation gives up only where a library call does."""
    g = B.Or(FALSE, *[e[0] for e in v.raises])
    for a in B.support(g):
        if tm.ATOMS[a][0] == "raises":
            g = B.And(g, B.Not(B.literal(a)))
    ok_guard(rep, g, key, what)


def tstr(c):
    return {"alg_tstr_encoding": const(True)}


def sign1(lab, rep):
    n = 0
    for i, nm, par in iana.algs("sig"):
        for kc, cv in sig_keys(lab, i):
            for shape in HEADERS:
                for ts in (False, True, "detached"):
                    det = ts == "detached"
                    what = "Sign1Message[%s,%s,%s%s]" % (nm, cv or short(kc), shape, ",detached" if det else ",named algorithm" if ts else "")
                    with rep.case(what):
                        n += 1
                        c = lab.ctx()
                        ph, uh = headers(lab, c, i, shape)
                        m = c.new(PM + "Sign1Message", phdr=c.dict(ph), uhdr=c.dict(uh), payload=NONE if det else sym("payload", "bytes"),
                                  external_aad=sym("external_aad", "bytes"), **(tstr(c) if ts is True else {}))
                        k = sig_key(c, kc, cv)
                        plain(c, k, kc)
                        c.set(m, "key", k)
                        kw = {"detached_payload": sym("payload", "bytes")} if det else {}
                        r = c.run(m, "encode", **kw)
                        z = back(lab, rep, c, m, r, "Sign1Message", "Sign1Message", what, ph, uh)
                        if z is None:
                            continue
                        c2, d = z
                        rep.same(c2.get1(d, "payload"), NONE if det else sym("payload", "bytes"), c2.st.pc, "Sign1Message|payload", what + ": payload")
                        c2.set(d, "key", k)
                        c2.set(d, "external_aad", sym("external_aad", "bytes"))
                        with c2.wire:
                            v = c2.run(d, "verify_signature", **kw)
                        goes_on(rep, r, v, "Sign1Message", what)
                        signature(rep, r, v, "Sign1Message", what)
    return n


def short(q):
    return q.rsplit(".", 1)[1]


def signature(rep, r, v, key, what):
    """The verifying call gets what the signing call got and returned."""
    se, ve = sign_events(r), verify_events(v)
    if not se or not ve:
        rep.undecided(what + ": %d signing, %d verifying calls" % (len(se), len(ve)))
        return
    for e in ve:
        best = None
        for s in se:
            g = B.And(e.pc, s.pc)
            if not sat(g):
                continue
            ds = diff(e.kw.get("data", top("d")), s.kw.get("data", top("d")), g)
            sg = diff(e.kw.get("signature", top("s")), s.result if s.result is not None else top("s"), g)
            if not ds and not sg:
                best = True
                break
            best = best or (s, g)
        if best is True:
            rep.ok(what + ": verified data and signature", 2)
        elif best:
            s, g = best
            rep.same(e.kw.get("data", top("d")), s.kw.get("data", top("d")), g, key + "|data", what + ": verified data are the signed data", e.where())
            rep.same(e.kw.get("signature", top("s")), s.result, g, key + "|signature", what + ": verified signature is the one made", e.where())


def ext_aad(c, *objs):
    for o in objs:
        c.set(o, "external_aad", sym("external_aad", "bytes"))


def sign(lab, rep):
    n = 0
    for i, nm, par in iana.algs("sig"):
        for kc, cv in sig_keys(lab, i):
            for shape in HEADERS:
                for how in ("attached", "detached"):
                    what = "SignMessage[%s,%s,%s,%s]" % (nm, cv or short(kc), shape, how)
                    with rep.case(what):
                        n += 1
                        c = lab.ctx()
                        det = how == "detached"
                        ph, uh = headers(lab, c, i, shape)
                        k = sig_key(c, kc, cv)
                        plain(c, k, kc)
                        s = c.new(PM + "signer.CoseSignature", phdr=c.dict(ph), uhdr=c.dict(uh), external_aad=sym("external_aad", "bytes"), key=k)
                        mp, mu = headers(lab, c, None, shape)
                        m = c.new(PM + "SignMessage", phdr=c.dict(mp), uhdr=c.dict(mu), payload=NONE if det else sym("payload", "bytes"), signers=c.list(s))
                        kw = {"detached_payload": sym("payload", "bytes")} if det else {}
                        r = c.run(m, "encode", **kw)
                        z = back(lab, rep, c, m, r, "SignMessage", "SignMessage", what, mp, mu)
                        if z is None:
                            continue
                        c2, d = z
                        rep.same(c2.get1(d, "payload"), NONE if det else sym("payload", "bytes"), c2.st.pc, "SignMessage|payload", what + ": payload")
                        t, _ = c2.spec("attr_tuple", d, const("signers"))
                        if t.op != "tuple" or len(t.args) != 1:
                            rep.check(None if has_top(t) else False, "SignMessage|signers", what + ": one signer", "", show(t)[:200])
                            continue
                        x = t.args[0]
                        same_headers(rep, Ctx(lab, r.state), s, c2, x, c2.st.pc, "CoseSignature", what, ph, uh)
                        c2.set(x, "key", k)
                        ext_aad(c2, x)
                        with c2.wire:
                            v = c2.run(x, "verify_signature", **kw)
                        goes_on(rep, r, v, "CoseSignature", what)
                        signature(rep, r, v, "CoseSignature", what)
    return n


def pair(rep, made, taken, parts, key, what):
    """Operands of the producing and the consuming primitive call: parts = [(name, of producer, of consumer)]."""
    if not made or not taken:
        rep.undecided("%s: %d producing, %d consuming calls" % (what, len(made), len(taken)))
        return
    for e in taken:
        best = None
        for s in made:
            g = B.And(e.pc, s.pc)
            if not sat(g):
                continue
            if not any(diff(fe(e), fs(s), g) for _, fs, fe in parts):
                best = True
                break
            best = best or (s, g)
        if best is True:
            rep.ok(what)
        elif best:
            s, g = best
            for name, fs, fe in parts:
                rep.same(fe(e), fs(s), g, "%s|%s" % (key, name), "%s: %s" % (what, name), e.where())


def kwv(e, *names):
    for nm in names:
        if nm in e.kw:
            return e.kw[nm]
    return top("missing " + names[0])


def mac(lab, rep):
    n = 0
    try:
        for i, nm, par in iana.algs("hmac", "aesmac"):
            extsig.DUMPS_LEN[0] = 64 if iana.ALGS[i][1] == "aesmac" else None
            for cls in ("Mac0Message", "MacMessage"):
                for shape in HEADERS:
                    for ts in (False, True):
                        what = "%s[%s,%s%s]" % (cls, nm, shape, ",named algorithm" if ts else "")
                        with rep.case(what):
                            n += 1
                            c = lab.ctx()
                            ph, uh = headers(lab, c, i, shape)
                            kw = dict(tstr(c)) if ts else {}
                            if cls == "MacMessage":
                                kw["recipients"] = c.list(recipient(c, -6, "rcpt"))
                            m = c.new(PM + cls, phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"), external_aad=sym("external_aad", "bytes"), **kw)
                            k = sym_key(c)
                            plain(c, k, K + "SymmetricKey", i)
                            c.set(m, "key", k)
                            r = c.run(m, "encode")
                            z = back(lab, rep, c, m, r, cls, cls, what, ph, uh)
                            if z is None:
                                continue
                            c2, d = z
                            rep.same(c2.get1(d, "payload"), sym("payload", "bytes"), c2.st.pc, cls + "|payload", what + ": payload")
                            c2.set(d, "key", k)
                            ext_aad(c2, d)
                            kw = {}
                            if cls == "MacMessage":
                                rc = only_recipient(rep, c2, d, cls, what)
                                if rc is None:
                                    continue
                            with c2.wire:
                                v = c2.run(d, "verify_tag")
                            goes_on(rep, r, v, cls, what)
                            pair(rep, mac_events(r), mac_events(v), [("data", lambda e: e.args[1], lambda e: e.args[1]),
                                                                     ("construction", lambda e: e.args[0], lambda e: e.args[0])], cls, what + ": authenticated data")
                            t = B.Or(FALSE, *[B.And(g, g_truthy(y)) for g, y in from_term(as_term(v.value, v.pc))])
                            ok_guard(rep, B.And(v.pc, B.Not(t)), cls + "|tag", what + ": the tag received is the tag computed")
    finally:
        extsig.DUMPS_LEN[0] = None
    return n


def only_recipient(rep, c2, d, cls, what):
    t, _ = c2.spec("attr_tuple", d, const("recipients"))
    if t.op != "tuple" or len(t.args) != 1:
        rep.check(None if has_top(t) else False, cls + "|recipients", what + ": one recipient", "", show(t)[:200])
        return None
    return t.args[0]


AEAD_PARTS = [("ciphertext", lambda e: e.result, lambda e: kwv(e, "data")), ("nonce", lambda e: kwv(e, "nonce"), lambda e: kwv(e, "nonce")),
              ("associated data", lambda e: kwv(e, "associated_data"), lambda e: kwv(e, "associated_data")),
              ("cipher", lambda e: e.recv, lambda e: e.recv)]


def enc0(lab, rep):
    n = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        for shape in HEADERS:
            for ts in (False, True):
                what = "Enc0Message[%s,%s%s]" % (nm, shape, ",named algorithm" if ts else "")
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    iv = sym("iv", "bytes")
                    ph, uh = headers(lab, c, i, shape, iv)
                    m = c.new(PM + "Enc0Message", phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"), external_aad=sym("external_aad", "bytes"),
                              **(tstr(c) if ts else {}))
                    k = sym_key(c)
                    plain(c, k, K + "SymmetricKey", i)
                    c.set(m, "key", k)
                    r = c.run(m, "encode")
                    z = back(lab, rep, c, m, r, "Enc0Message", "Enc0Message", what, ph, uh)
                    if z is None:
                        continue
                    c2, d = z
                    c2.set(d, "key", k)
                    ext_aad(c2, d)
                    with c2.wire:
                        v = c2.run(d, "decrypt")
                    goes_on(rep, r, v, "Enc0Message", what)
                    pair(rep, aead_events(r, ".encrypt"), aead_events(v, ".decrypt"), AEAD_PARTS, "Enc0Message", what + ": decryption of what was encrypted")
    return n


KEYHDR = ("EphemeralKey", "StaticKey")
K = "pycose.keys."


def ec_pair(c, name, curve):
    """A key pair as a user holds it, and its public part."""
    P = c.lab.name(K + "curves." + curve)
    own = sig_key(c, K + "EC2Key", curve, name)
    x, y = sym("x_" + name, "bytes"), sym("y_" + name, "bytes")
    for t in (x, y):
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(t)))
    pub = c.new(K + "EC2Key", crv=P, x=x, y=y)
    return own, pub, (P, x, y)


def sender(c, i, shape, fresh):
    """(recipient structure, key the receiver holds, announced header name, its parameters)"""
    lab = c.lab
    kind = iana.ALGS[i][1]
    par = iana.ALGS[i][2]
    A, KID = lab.name(H + "Algorithm"), lab.name(H + "KID")
    party = [(lab.name(H + x), sym(x, "bytes")) for x in ("PartyUID", "PartyUNonce", "PartyUOther", "PartyVID", "PartyVNonce", "PartyVOther", "Salt")]
    al = [(A, algterm(lab, i))]
    ph, uh = [], []
    if kind in ("direct", "aeskw", "oaep"):
        uh = al + ([(KID, sym("rkid", "bytes"))] if shape != "bare" else [])
    elif shape == "full":
        ph, uh = al + [(KID, sym("rkid", "bytes"))], party
    elif shape == "bare":
        ph = al
    else:
        uh = al + [(const("text label"), sym("custom"))]
        ph = party[:3]
    if kind not in ("ecdhdirect", "ecdhkw"):
        kw = {}
        key = None
        if kind == "aeskw":
            key = sym_key(c, "kek")
            plain(c, key, K + "SymmetricKey", i)
        elif kind == "oaep":
            key = c.inst(K + "RSAKey", "rsa")
            plain(c, key, K + "RSAKey")
        r = c.new(RCPT + RCPT_OF[kind], phdr=c.dict(ph), uhdr=c.dict(uh))
        if key is not None:
            c.set(r, "key", key)
        return r, key, None, None
    own, pub, nums = ec_pair(c, "sender", "P256")
    peer = sig_key(c, K + "EC2Key", "P256", "receiver")
    plain(c, own, K + "EC2Key")
    plain(c, peer, K + "EC2Key")
    hn = "StaticKey" if par["static"] else "EphemeralKey"
    if not fresh:
        (uh if shape != "bare" else ph).append((lab.name(H + hn), pub))
    r = c.new(RCPT + RCPT_OF[kind], phdr=c.dict(ph), uhdr=c.dict(uh))
    c.set(r, "local_attrs", c.dict([(lab.name(H + "StaticKey"), peer), (lab.name(H + "SuppPubOther"), sym("supp_pub", "bytes")),
                                    (lab.name(H + "SuppPrivOther"), sym("supp_priv", "bytes"))]))
    c.set(r, "key", NONE if fresh else own)
    return r, peer, hn, None if fresh else nums


def recipient_headers(rep, c, r, c2, d, pc, hn, nums, key, what):
    """All header parameters of the recipient structure; a key in a header is compared by its parameters."""
    lab = c.lab
    for b in ("phdr", "uhdr"):
        x = drop_keys(c, c.I.snapv(c.st, one(c.fork().get1(r, b))))
        y = drop_keys(c2, c2.I.snapv(c2.st, one(c2.fork().get1(d, b))))
        rep.same(y, x, pc, "%s|%s" % (key, b), "%s: %s header of the recipient" % (what, b))
    if hn is None:
        return
    HN = lab.name(H + hn)
    f = c2.fork()
    k = as_term(f.I.call_method(f.st, one(d), "get_attr", [one(HN)], {}, None), f.st.pc)
    own = c.fork()
    for n, a in enumerate(("crv", "x", "y")):
        want = nums[n] if nums else own.get1(own.get1(r, "key"), a)
        got = f.get1(k, a)
        rep.same(f.I.snapv(f.st, one(got)), own.I.snapv(own.st, one(want)), f.st.pc, "%s|%s" % (key, hn), "%s: %s of the announced key" % (what, a))
    rep.same(f.get1(k, "d"), const(b""), f.st.pc, "%s|%s|private" % (key, hn), what + ": the announced key is public")


def drop_keys(c, t):
    if t.op != "dict":
        return t
    ks = {c.lab.name(H + x) for x in KEYHDR}

    def key(x):
        return (x.args[1] if x.op == "cseg" else x).args[0]
    return T("dict", t.args[0], *[x for x in t.args[1:] if key(x) not in ks])


def cipher_key(e):
    """key operand of the AEAD object an encryption was called on"""
    alts = [(g, kwof(t).get("key", top("key"))) for g, t in ctor_calls(e.recv)]
    if not alts:
        return top("key")
    return alts[0][1] if len(alts) == 1 else T("gamma", tuple(alts))


def recipients(lab, rep):
    n = 0
    rows = [(i, nm, f) for i, nm, par in iana.algs("aeskw", "oaep", "ecdhdirect", "ecdhkw") for f in ((False,) if iana.ALGS[i][1] in ("aeskw", "oaep") or par["static"] else (False, True))]
    rows.append((-6, "Direct", False))
    for cls in ("EncMessage", "MacMessage"):
        for i, nm, fresh in rows:
            kind = iana.ALGS[i][1]
            if cls == "MacMessage" and kind == "direct":
                continue
            for shape in ("full", "bare", "mixed") + (("chosen",) if kind in ("aeskw", "oaep", "ecdhkw") else ()):
                for cek in (1,) if cls == "EncMessage" else (5,):
                    what = "%s[%s] via %s%s,%s" % (cls, iana.ALGS[cek][0], nm, ",fresh" if fresh else "", shape)
                    with rep.case(what):
                        n += 1
                        through(lab, rep, cls, i, fresh, shape, cek, what)
                    extsig.LENS.clear()
    return n


def through(lab, rep, cls, i, fresh, shape, cek, what):
    kind = iana.ALGS[i][1]
    c = lab.ctx()
    enc = cls == "EncMessage"
    r, key, hn, nums = sender(c, i, shape, fresh)
    if shape == "chosen":           # the sender chooses the content key
        P = sym("content_key", "bytes")
        extsig.LENS[P] = 16 if enc else 32
        c.set(r, "payload", P)
    ph, uh = headers(lab, c, cek, "full" if enc else "bare", sym("iv", "bytes") if enc else None)
    m = c.new(PM + cls, phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"), external_aad=sym("external_aad", "bytes"), recipients=c.list(r))
    mk = None
    if kind == "direct":
        mk = sym_key(c)
        plain(c, mk, K + "SymmetricKey", cek)
        c.set(m, "key", mk)
    x = c.run(m, "encode")
    z = back(lab, rep, c, m, x, cls, cls, what, ph, uh)
    if z is None:
        return
    c2, d = z
    ext_aad(c2, d)
    q = only_recipient(rep, c2, d, cls, what)
    if q is None:
        return
    rk = RCPT_OF[kind]
    t, _ = c2.spec("exactly", q, lab.name(RCPT + rk))
    rep.same(t, const(True), c2.st.pc, rk + "|class", what + ": class of the recipient structure")
    recipient_headers(rep, Ctx(lab, x.state), r, c2, q, c2.st.pc, hn, nums, rk, what)
    if kind == "direct":
        c2.set(d, "key", mk)
    else:
        c2.set(q, "key", key)
    if hn:
        c2.set(q, "local_attrs", c2.dict([(lab.name(H + "SuppPubOther"), sym("supp_pub", "bytes")), (lab.name(H + "SuppPrivOther"), sym("supp_priv", "bytes"))]))

    wire = c2.wire

    def consume(c2):
        with wire:
            if enc:
                return c2.run(d, "decrypt", q)
            elif kind == "ecdhdirect":
                return c2.run(q, "compute_cek", algterm(lab, cek), const("decrypt"))
            return c2.run(q, "decrypt", algterm(lab, cek))
    v = consume(c2.fork())
    for e in extcalls(v, "aes_key_unwrap") + rsa(v, ".decrypt"):        # the library returns what was wrapped: a key of the right length
        extsig.LENS[e.result] = 16 if enc else 32
        c2.st.pc = B.And(c2.st.pc, B.Not(g_empty(e.result)))
    v = consume(c2)
    extsig.LENS.clear()
    goes_on(rep, x, v, rk, what)
    if kind in ("ecdhdirect", "ecdhkw"):
        pair(rep, derivations(x), derivations(v), [(a, lambda e, a=a: kwv(e, a), lambda e, a=a: kwv(e, a)) for a in ("algorithm", "length", "salt", "info")],
             rk, what + ": key derivation")
    if kind in ("aeskw", "ecdhkw"):
        pair(rep, extcalls(x, "aes_key_wrap"), extcalls(v, "aes_key_unwrap"), [("wrapped key", lambda e: e.result, lambda e: kwv(e, "wrapped_key"))],
             rk, what + ": unwrapping of what was wrapped")
    if kind == "aeskw":
        pair(rep, extcalls(x, "aes_key_wrap"), extcalls(v, "aes_key_unwrap"), [("wrapping key", lambda e: kwv(e, "wrapping_key"), lambda e: kwv(e, "wrapping_key"))],
             rk, what + ": the same wrapping key")
    if kind == "oaep":
        pair(rep, rsa(x, ".encrypt"), rsa(v, ".decrypt"), [("wrapped key", lambda e: e.result, lambda e: kwv(e, "ciphertext")),
                                                             ("padding", lambda e: kwv(e, "padding"), lambda e: kwv(e, "padding"))], rk, what + ": unwrapping of what was wrapped")
    if not enc:
        return
    parts = AEAD_PARTS if kind == "direct" else AEAD_PARTS[:3]
    pair(rep, aead_events(x, ".encrypt"), aead_events(v, ".decrypt"), parts, cls, what + ": decryption of what was encrypted")
    unw = {"aeskw": ("aes_key_unwrap",), "ecdhkw": ("aes_key_unwrap",)}.get(kind)
    ue = extcalls(v, *unw) if unw else rsa(v, ".decrypt") if kind == "oaep" else []
    if ue:
        pair(rep, ue, aead_events(v, ".decrypt"), [("content key", lambda e: e.result, cipher_key)], cls, what + ": the unwrapped key decrypts")


def several(lab, rep):
    """Several signers or recipients: each comes back in its place, with its own contents."""
    n = 0
    for i, kc, cv in ((-7, K + "EC2Key", "P256"), (-8, K + "OKPKey", "Ed25519")):
        what = "SignMessage[two signers,%d]" % i
        with rep.case(what):
            n += 1
            c = lab.ctx()
            ss, ks = [], []
            for t in ("1", "2"):
                k = sig_key(c, kc, cv, "key" + t)
                plain(c, k, kc)
                ks.append(k)
                ss.append(c.new(PM + "signer.CoseSignature", phdr=c.dict([(lab.name(H + "Algorithm"), algterm(lab, i))]),
                                uhdr=c.dict([(lab.name(H + "KID"), sym("kid" + t, "bytes"))]), key=k))
            m = c.new(PM + "SignMessage", phdr=c.dict(), uhdr=c.dict(), payload=sym("payload", "bytes"), signers=c.list(*ss))
            r = c.run(m, "encode")
            z = back(lab, rep, c, m, r, "SignMessage", "SignMessage", what)
            if z is None:
                continue
            c2, d = z
            t, _ = c2.spec("attr_tuple", d, const("signers"))
            if t.op != "tuple" or len(t.args) != 2:
                rep.check(None if has_top(t) else False, "SignMessage|signers", what + ": both signers", "", show(t)[:200])
                continue
            for n2 in (0, 1):
                same_headers(rep, Ctx(lab, r.state), ss[n2], c2, t.args[n2], c2.st.pc, "SignMessage|order", what + ", signer %d" % n2)
                f = c2.fork()
                f.set(t.args[n2], "key", ks[n2])
                with c2.wire:
                    v = f.run(t.args[n2], "verify_signature")
                goes_on(rep, r, v, "SignMessage|order", what + ", signer %d" % n2)
                mine = [e for e in sign_events(r) if "key" + str(n2 + 1) in show(e.recv if e.recv is not None else e.callee)]
                pair(rep, mine or sign_events(r), verify_events(v), [("signature", lambda e: e.result, lambda e: kwv(e, "signature")),
                                                                     ("data", lambda e: kwv(e, "data"), lambda e: kwv(e, "data"))],
                     "SignMessage|order", what + ", signer %d" % n2)
    for cls, cek in (("EncMessage", 1), ("MacMessage", 5)):
        what = cls + "[two recipients]"
        with rep.case(what):
            n += 1
            c = lab.ctx()
            rs, ks = [], []
            for t in ("1", "2"):
                k = sym_key(c, "kek" + t)
                plain(c, k, K + "SymmetricKey", -3)
                q = c.new(RCPT + RCPT_OF["aeskw"], phdr=c.dict(), uhdr=c.dict([(lab.name(H + "Algorithm"), algterm(lab, -3)), (lab.name(H + "KID"), sym("kid" + t, "bytes"))]))
                c.set(q, "key", k)
                rs.append(q)
                ks.append(k)
            ph, uh = headers(lab, c, cek, "full" if cls == "EncMessage" else "bare", sym("iv", "bytes") if cls == "EncMessage" else None)
            m = c.new(PM + cls, phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"), recipients=c.list(*rs))
            x = c.run(m, "encode")
            z = back(lab, rep, c, m, x, cls, cls, what, ph, uh)
            if z is None:
                continue
            c2, d = z
            t, _ = c2.spec("attr_tuple", d, const("recipients"))
            if t.op != "tuple" or len(t.args) != 2:
                rep.check(None if has_top(t) else False, cls + "|recipients", what + ": both recipients", "", show(t)[:200])
                continue
            for n2 in (0, 1):
                same_headers(rep, Ctx(lab, x.state), rs[n2], c2, t.args[n2], c2.st.pc, cls + "|order", what + ", recipient %d" % n2)
                f = c2.fork()
                f.set(t.args[n2], "key", ks[n2])
                with c2.wire:
                    v = f.run(t.args[n2], "decrypt", algterm(lab, cek))
                mine = [e for e in extcalls(x, "aes_key_wrap") if "kek%d" % (n2 + 1) in show(kwv(e, "wrapping_key"))]
                pair(rep, mine or extcalls(x, "aes_key_wrap"), extcalls(v, "aes_key_unwrap"),
                     [("wrapped key", lambda e: e.result, lambda e: kwv(e, "wrapped_key")), ("wrapping key", lambda e: kwv(e, "wrapping_key"), lambda e: kwv(e, "wrapping_key"))],
                     cls + "|order", what + ", recipient %d" % n2)
    return n


def prepared(lab, rep):
    """Emission without protecting anew: the recipient structures are complete all the same."""
    n = 0
    rows = [(i, nm, f) for i, nm, par in iana.algs("aeskw", "oaep", "ecdhkw", "ecdhdirect")
            for f in ((False,) if iana.ALGS[i][1] in ("aeskw", "oaep") or par["static"] else (False, True))]
    for cls, cek, off in (("EncMessage", 1, "encrypt"),):       # without its tag a COSE_Mac is no message
        for i, nm, fresh in rows:
            kind = iana.ALGS[i][1]
            for shape in ("full", "bare"):
                what = "%s[prepared] via %s%s,%s" % (cls, nm, ",fresh" if fresh else "", shape)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    r, key, hn, nums = sender(c, i, shape, fresh)
                    if kind != "ecdhdirect":
                        c.set(r, "payload", sym("cek", "bytes"))
                        c.st.pc = B.And(c.st.pc, B.Not(g_empty(sym("cek", "bytes"))))
                    ph, uh = headers(lab, c, cek, "full", sym("iv", "bytes") if cls == "EncMessage" else None)
                    m = c.new(PM + cls, phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("content", "bytes"), recipients=c.list(r))
                    x = c.run(m, "encode", **{off: const(False)})
                    z = back(lab, rep, c, m, x, cls, cls, what, ph, uh)
                    if z is None:
                        continue
                    c2, d = z
                    rep.same(c2.get1(d, "payload"), sym("content", "bytes"), c2.st.pc, cls + "|prepared", what + ": content")
                    q = only_recipient(rep, c2, d, cls, what)
                    if q is None:
                        continue
                    rk = RCPT_OF[kind]
                    recipient_headers(rep, Ctx(lab, x.state), r, c2, q, c2.st.pc, hn, nums, rk, what)
                    if kind == "ecdhdirect":
                        continue
                    c2.set(q, "key", key)
                    if hn:
                        c2.set(q, "local_attrs", c2.dict([(lab.name(H + "SuppPubOther"), sym("supp_pub", "bytes")), (lab.name(H + "SuppPrivOther"), sym("supp_priv", "bytes"))]))
                    with c2.wire:
                        v = c2.run(q, "decrypt", algterm(lab, cek))
                    goes_on(rep, x, v, rk, what)
                    if kind == "ecdhkw":
                        pair(rep, derivations(x), derivations(v), [(a, lambda e, a=a: kwv(e, a), lambda e, a=a: kwv(e, a)) for a in ("algorithm", "length", "salt", "info")],
                             rk, what + ": key derivation")
                    if kind == "oaep":
                        pair(rep, rsa(x, ".encrypt"), rsa(v, ".decrypt"), [("wrapped key", lambda e: e.result, lambda e: kwv(e, "ciphertext"))], rk, what + ": unwrapping of what was wrapped")
                    else:
                        pair(rep, extcalls(x, "aes_key_wrap"), extcalls(v, "aes_key_unwrap"), [("wrapped key", lambda e: e.result, lambda e: kwv(e, "wrapped_key"))],
                             rk, what + ": unwrapping of what was wrapped")
    return n


def derivations(r):
    """HKDF objects that derive a key: events whose keywords are those of the constructor"""
    return extcalls(r, "HKDF")


def rsa(r, which):
    return [e for e in extcalls(r, which) if set(extsig.ctor_names(e.callee.args[0])) & {"RSAPublicNumbers", "RSAPrivateNumbers"}]


def run(lab, rep, tier):
    n = 0
    extsig.RESULT.update({x: "bytes" for x in BYTES})
    try:
        for f in (sign1, sign, mac, enc0, recipients, several, prepared):
            n += f(lab, rep)
    finally:
        extsig.RESULT.clear()
    rep.floor("round trips analysed", n, 20)
