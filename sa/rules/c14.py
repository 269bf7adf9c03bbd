"""C14: structural rules of COSE_recipient (RFC 8152 section 5, 12)."""
from .common import *      # noqa

RULE = ("path condition of completing an encode / decode / decrypt implies the structural rules of the recipient class: Direct: empty "
        "protected header, zero-length ciphertext, no further recipients, no other kind beside it; AES key wrap: empty protected "
        "header; wrapping kinds: non-empty ciphertext; direct key agreement: only recipient, ephemeral key announced, none nested")
EXPLAIN = ("Encoding of every recipient class in an arbitrary state, producing and decrypting messages with every mix of recipient "
           "kinds, decoding of recipient structures with every algorithm, placement and ciphertext, nested or not, are analysed; "
           "completion together with the negation of a rule must be unsatisfiable.")
WRAP = {"aeskw": -3, "oaep": -41, "ecdhkw": -32, "ecdhkw-es": -29}
KIND = dict(WRAP, direct=-6, **{"ecdhdirect": -27, "ecdhdirect-es": -25})
ES = {"ecdhdirect"}


def run(lab, rep, tier):
    n = encodes(lab, rep) + mixes(lab, rep) + foreign(lab, rep) + setters(lab, rep) + decodes(lab, rep)
    rep.floor("structural conditions", n, 300)


def arbitrary(c, i, name="rcpt", bucket="uhdr"):
    """A recipient structure about which only class, algorithm, keys are known."""
    r, _ = sending(c, i, name)
    return r


def encodes(lab, rep):
    n = 0
    E = lab.name("pycose.headers.EphemeralKey")
    for i, nm, par in iana.algs("direct", "aeskw", "oaep", "ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for bucket in ("uhdr", "phdr"):
            for keyed in (True, False):
                if not keyed and kind not in ("ecdhdirect",):
                    continue
                what = "%s.encode[%s in %s]%s" % (RCPT_OF[kind], nm, bucket, "" if keyed else ", no own key")
                with rep.case(what):
                    c = lab.ctx()
                    r = c.inst(RCPT + RCPT_OF[kind], "rcpt")
                    dict_headers(c, r)
                    c.with_alg(r, algterm(lab, i), bucket)
                    bytes_header(c, r)
                    c.set(r, "payload", sym("value", "bytes"))
                    if kind.startswith("ecdh"):
                        c.set(r, "key", ec_key(c, "own") if keyed else NONE)
                        local_attrs(c, r, [(lab.name("pycose.headers.StaticKey"), ec_key(c, "peer"))])
                    c.get(r, "recipients")
                    pre = c.fork()
                    x = c.run(r, "encode", target_alg=algterm(lab, 1))
                    cn = RCPT_OF[kind]

                    def never(cond, key, text):
                        t, pc = cond
                        ok_guard(rep, B.And(x.pc, pc, g_truthy(t)), "%s|%s.encode" % (key, cn), what + ": " + text)
                    if kind == "direct":
                        n += 2
                        never(pre.spec("has_protected", r, pc=TRUE), "protected", "refused with a protected header")
                        never(pre.spec("holds_recipients", r, const(0), pc=TRUE), "nested", "refused with further recipients")
                    if kind == "aeskw":
                        n += 1
                        never(pre.spec("has_protected", r, pc=TRUE), "protected", "refused with a protected header")
                    if kind == "ecdhdirect":
                        n += 1
                        never(pre.spec("holds_recipients", r, const(1), pc=TRUE), "nested", "refused with several further recipients")
                        if not par["static"]:
                            n += 1
                            t, pc = Ctx(lab, x.state).spec("carries", r, E, pc=x.pc)
                            ok_guard(rep, B.And(x.pc, pc, B.Not(g_truthy(t))), "ephemeral|%s.encode" % cn,
                                     what + ": refused without an ephemeral key in the header")
                    if kind in ("direct", "ecdhdirect") and x.pc != FALSE:
                        for g, v in from_term(c.snap(x)):
                            q = B.And(x.pc, g)
                            if not sat(q):
                                continue
                            els = list_elems(v)
                            if els is None or len(els) < 3:
                                rep.undecided(what + ": structure")
                            else:
                                n += 1
                                rep.same(els[2], const(b""), q, "ciphertext|%s.encode" % cn, what + ": zero-length ciphertext")
    return n


def mixes(lab, rep):
    n = 0
    sets = []
    for k in sorted(KIND):
        if k != "direct":
            sets += [("direct", k), (k, "direct"), ("direct", k, k), (k, "direct", k)]
        if not k.startswith("ecdhdirect"):
            for d in ("ecdhdirect", "ecdhdirect-es"):
                sets += [(d, k), (k, d)]
    sets += [("ecdhdirect", "ecdhdirect"), ("ecdhdirect-es", "ecdhdirect"), ("aeskw", "ecdhkw", "ecdhdirect"), ()]
    for ks in sets:
        for cls, cek, meth in (("EncMessage", 1, "encrypt"), ("EncMessage", 1, "decrypt"), ("EncMessage", 1, "encode"),
                               ("MacMessage", 14, "compute_tag"), ("MacMessage", 14, "encode")):
            what = "%s.%s with recipients (%s)" % (cls, meth, ", ".join(ks))
            with rep.case(what):
                c, m = msg_ctx(lab, cls, cek)
                if cls == "MacMessage":
                    extsig.DUMPS_LEN[0] = 64
                c.set(m, "key", sym_key(c))
                build = rx_recipient_alg if meth == "decrypt" else lambda c, i, nm: sending(c, i, nm)[0]
                rs = [build(c, KIND[k], "rcpt%d" % j) for j, k in enumerate(ks)]
                c.set(m, "recipients", c.list(*rs))
                for target in (rs if meth == "decrypt" else [None]):
                    c2 = c.fork()
                    x = c2.run(m, meth, *([] if target is None else [target]))
                    n += 1
                    ok_guard(rep, x.pc, "mix|%s.%s|%s" % (cls, meth, "none" if not ks else "direct" if "direct" in ks else "agreement"),
                             what + " is refused")
            extsig.DUMPS_LEN[0] = None
    return n


def foreign(lab, rep):
    """Decryption for a structure that is not part of the message is refused, for any part of it is not."""
    n = 0
    for kind in sorted(WRAP) + ["direct", "ecdhdirect", "ecdhdirect-es"]:
        for nest in (0, 1, 2):
            if nest and kind in ("direct", "ecdhdirect", "ecdhdirect-es"):
                continue
            what = "EncMessage.decrypt for a foreign %s recipient, nesting %d" % (kind, nest)
            with rep.case(what):
                c, m = msg_ctx(lab, "EncMessage", 1)
                rs = [recipient(c, KIND[kind], "rcpt%d" % j) for j in range(nest + 1)]
                for j in range(nest, 0, -1):
                    c.set(rs[j - 1], "recipients", c.list(rs[j]))
                other = recipient(c, KIND[kind], "other")
                for j, r in enumerate(rs + [other]):
                    c.set(r, "payload", sym("wrapped", "bytes"))
                    if kind == "aeskw":
                        c.set(r, "key", sym_key(c, "kek%d" % j))
                c.set(m, "key", sym_key(c))
                c.set(m, "recipients", c.list(rs[0]))
                c2 = c.fork()
                x = c2.run(m, "decrypt", other)
                n += 1
                ok_guard(rep, x.pc, "foreign|EncMessage.decrypt", what + " is refused")
                if kind == "aeskw":
                    for j, r in enumerate(rs):
                        x = c.fork().run(m, "decrypt", r)
                        n += 1
                        rep.check(x.pc != FALSE and sat(x.pc), "own|EncMessage.decrypt",
                                  "EncMessage.decrypt for the recipient at depth %d is possible" % j)
    what = "EncMessage.decrypt for one of %d recipients" % MANY
    with rep.case(what):
        c, m = msg_ctx(lab, "EncMessage", 1)
        rs = [recipient(c, -3, "rcpt%d" % j) for j in range(MANY)]
        for j, r in enumerate(rs):
            c.set(r, "payload", sym("wrapped%d" % j, "bytes"))
            c.set(r, "key", sym_key(c, "kek%d" % j))
        c.set(m, "recipients", c.list(*rs))
        for j in (0, MANY // 2, MANY - 1):
            x = c.fork().run(m, "decrypt", rs[j])
            n += 1
            rep.check(x.pc != FALSE and sat(x.pc), "own|EncMessage.decrypt", "%s: the %d. is possible" % (what, j + 1))
    return n


MANY = 24       # more elements than any shape the code spells out


def setters(lab, rep):
    n = 0
    R = lab.name(RCPT + "CoseRecipient")
    for cls in ("pycose.messages.EncMessage", "pycose.messages.MacMessage", RCPT + "KeyWrap", RCPT + "KeyAgreementWithKeyWrap"):
        for how in ("set", "new"):
            for k in (0, 1, MANY):
                what = "%s recipients (%s), element %d of any type" % (cls.rsplit(".", 1)[-1], how, k)
                with rep.case(what):
                    c = lab.ctx()
                    anyv = sym("anything")
                    els = [recipient(c, -3, "good%d" % j) for j in range(k)] + [anyv]
                    t, pc = c.spec("is_a", anyv, R, pc=TRUE)
                    m = c.inst(cls, "msg")
                    if how == "set":
                        x = c.runset(m, "recipients", c.list(*els))
                    else:
                        x = c.run(lab.name(cls), "__call__", recipients=c.list(*els))
                    n += 1
                    ok_guard(rep, B.And(x.pc, pc, B.Not(g_truthy(t))), "type|%s.recipients" % cls.rsplit(".", 1)[-1],
                             what + ": anything but a recipient structure is refused")
    return n


def structure(c, rx, i, bucket, ciphertext, protected=True, ephemeral=True, nested=None, tag=""):
    """A received COSE_recipient."""
    lab = c.lab
    alg = [(const(1), const(i))] if i is not None else []
    key = [(const(-1), c.dict([(const(1), const(2)), (const(-1), const(1)), (const(-2), const(b"x" * 32)), (const(-3), const(b"y" * 32))]))]
    kid = [(const(4), sym("kid" + tag, "bytes"))]
    p, u = [], list(kid)
    (p if bucket == "p" else u).extend(alg)
    if protected and not p:
        p = [(const(3), const(7))]
    if ephemeral:
        u += key
    if p:
        P = rx.header("protected" + tag, c.dict(p))
        c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
    else:
        P = const(b"")
    els = [P, c.dict(u), ciphertext]
    if nested is not None:
        els.append(c.list(*nested))
    return c.list(*els), P


def nonempty(c, t):
    c.st.pc = B.And(c.st.pc, g_truthy(t), B.Not(g_eq(t, const(b""))))
    return t


def received_msg(c, rx, cls, rec):
    i = 1 if cls == "EncMessage" else 5
    P = rx.header("phdr_bytes", c.dict([(const(1), const(i))]))
    nonempty(c, P)
    received(c, rx, cls, P, c.dict(), last=c.list(*rec))


def decodes(lab, rep):
    n = 0
    EMPTY = const(b"")

    def attempt(what, key, mk, cls, via, depth):
        """Decoding must be refused."""
        with rep.case(what):
            c = lab.ctx()
            rx = Rx(c)
            rec = mk(c, rx)
            for d in range(depth):
                rec = structure(c, rx, -3, "u", nonempty(c, sym("outer%d" % d, "bytes")), protected=False, ephemeral=False,
                                nested=[rec], tag="_outer%d" % d)[0]
            received_msg(c, rx, cls, [rec])
            with rx:
                x = c.run(lab.name("pycose.messages." + via), "decode", rx.rx)
            ok_guard(rep, x.pc, key, what + " is refused")
        return 1
    cases = []
    for i, nm, par in iana.algs("direct", "aeskw", "oaep", "ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        cn = RCPT_OF[kind]
        W = lambda c: nonempty(c, sym("wrapped", "bytes"))
        for b in ("u", "p"):
            ck = "|%s.decode" % cn
            empty = kind in ("direct", "aeskw")
            if kind == "direct":
                if b == "u":
                    cases.append((nm, b, "ciphertext" + ck, "with a ciphertext", lambda c, rx, i=i, b=b: structure(c, rx, i, b, W(c), False, False)[0]))
                    cases.append((nm, b, "nested" + ck, "with further recipients", lambda c, rx, i=i, b=b: structure(
                        c, rx, i, b, EMPTY, False, False, [structure(c, rx, -3, "u", W(c), False, False, tag="_in")[0]])[0]))
                cases.append((nm, b, "protected" + ck, "with a protected header", lambda c, rx, i=i, b=b: structure(c, rx, i, b, EMPTY, True, False)[0]))
            if kind == "aeskw":
                cases.append((nm, b, "protected" + ck, "with a protected header", lambda c, rx, i=i, b=b: structure(c, rx, i, b, W(c), True, False)[0]))
            if kind in ("aeskw", "oaep", "ecdhkw") and not (b == "p" and empty):
                for ct, t in ((EMPTY, "without a ciphertext"), (const(None), "with a nil ciphertext")):
                    cases.append((nm, b, "ciphertext" + ck, t, lambda c, rx, i=i, b=b, e=empty, ct=ct: structure(
                        c, rx, i, b, ct, not e, True)[0]))
            if kind == "ecdhdirect":
                if not par["static"]:
                    cases.append((nm, b, "ephemeral" + ck, "without an ephemeral key", lambda c, rx, i=i, b=b: structure(c, rx, i, b, EMPTY, True, False)[0]))
                cases.append((nm, b, "nested" + ck, "with further recipients", lambda c, rx, i=i, b=b: structure(
                    c, rx, i, b, EMPTY, True, True, [structure(c, rx, -3, "u", W(c), False, False, tag="_in")[0]])[0]))
    for i, nm in ((None, "no algorithm"), (-7, "a signature algorithm"), (1, "a content encryption algorithm"), (5, "a MAC algorithm"),
                  (-44, "a hash algorithm"), (-9999, "an unregistered algorithm")):
        for b in ("u", "p"):
            for ct in (True, False):
                cases.append((nm, b, "algorithm|decode", "with a ciphertext" if ct else "without ciphertext", lambda c, rx, i=i, b=b, ct=ct: structure(
                    c, rx, i, b, nonempty(c, sym("wrapped", "bytes")) if ct else EMPTY, False, True)[0]))
    for nm, b, key, text, mk in cases:
        for cls, via, depth in (("EncMessage", "EncMessage", 0), ("EncMessage", "CoseMessage", 0), ("MacMessage", "CoseMessage", 0),
                                ("EncMessage", "CoseMessage", 1), ("EncMessage", "CoseMessage", 2)):
            n += attempt("%s.decode of a %s recipient (%s header) %s%s" % (via, nm, b, text, ", nested %d deep" % depth if depth else ""),
                         key, mk, cls, via, depth)
    # well-formed structures, nested
    for i, nm, par in iana.algs("direct", "aeskw", "oaep", "ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for depth in (1, 2):
            what = "decode of a %s recipient nested %d deep" % (nm, depth)
            with rep.case(what):
                c = lab.ctx()
                rx = Rx(c)
                ct = EMPTY if kind in ("direct", "ecdhdirect") else nonempty(c, sym("wrapped", "bytes"))
                rec, P = structure(c, rx, i, "u", ct, kind not in ("direct", "aeskw"), kind.startswith("ecdh"))
                for d in range(depth):
                    rec = structure(c, rx, -3, "u", nonempty(c, sym("outer%d" % d, "bytes")), False, False, [rec], "_outer%d" % d)[0]
                received_msg(c, rx, "EncMessage", [rec])
                m = decode(c, rx, "EncMessage")
                for d in range(depth + 1):
                    m = single(c.I.getitem(c.st, c.get(m, "recipients"), one(const(0)), None))
                    if m is None:
                        break
                if m is None:
                    rep.undecided(what)
                    continue
                g = c.st.pc
                chk = lambda got, exp, k: rep.same(got, exp, g, "%s|nested" % k, what + ": " + k)
                chk(c.get1(m, "payload"), ct, "ciphertext")
                chk(c.get1(m, "phdr_encoded"), P, "protected header")
                t, _ = c.spec("exactly", m, lab.name(RCPT + RCPT_OF[kind]))
                chk(t, const(True), "class")
                chk(c.get1(m, "context"), const("Rec_Recipient"), "context")
                t, _ = c.spec("in_bucket", m, const("u"), lab.name("pycose.headers.KID"))
                chk(t, sym("kid", "bytes"), "unprotected header")
                n += 1
    return n
