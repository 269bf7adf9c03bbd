"""C11: the wire layout of RFC 8152 in both directions."""
from .common import *      # noqa

RULE = ("encode emits the elements of the RFC 8152 array of the class in order, tagged with the class's CBOR tag exactly when "
        "asked; decode puts each element into the attribute it belongs to; attributes are serialised by their registered "
        "identifier")
EXPLAIN = ("Encoding of every message class, signer and recipient class (0..3 signers/recipients) and decoding of every class "
           "with symbolic element contents; element terms of the serialised array, respectively attribute terms of the "
           "decoded object, are compared with the specified positions. The CBOR default encoder is analysed for every "
           "registered attribute class.")
ALG1 = {"Sign1Message": -7, "Mac0Message": 5, "MacMessage": 5, "Enc0Message": 1, "EncMessage": 1, "SignMessage": None}
PRIM = {"Sign1Message": sign_events, "Mac0Message": mac_events, "MacMessage": mac_events,
        "Enc0Message": lambda r: aead_events(r, ".encrypt"), "EncMessage": lambda r: aead_events(r, ".encrypt")}
FLAG = {"Sign1Message": "sign", "Mac0Message": "mac", "MacMessage": "mac", "Enc0Message": "encrypt", "EncMessage": "encrypt"}


def run(lab, rep, tier):
    n = encoding(lab, rep)
    n += inner_encoding(lab, rep)
    n += decoding(lab, rep)
    n += reencoding(lab, rep)
    n += attributes(lab, rep)
    rep.floor("layout cases", n, 150)


def tags(lab, rep, r, cls, tag, what):
    """Alternatives of the emitted message with the tag checked; yields (guard, elements)."""
    if r.pc == FALSE:
        rep.undecided(what + ": always refuses")
        return
    for g, t, els, z in wire(lab.I.snapv(r.state, r.value)):
        q = B.And(r.pc, g)
        if not sat(q):
            continue
        if has_top(z):
            rep.undecided(what + ": " + show(z)[:100])
            continue
        if els is None:
            rep.bad("array|" + cls, what + ": a CBOR array is emitted", "", show(z)[:300])
            continue
        if tag:
            if t is None:
                ok_guard(rep, q, "tag|" + cls, what + ": CBOR tag present")
            else:
                rep.same(t, const(TAGNUM[cls]), q, "tag|" + cls, what + ": CBOR tag %d" % TAGNUM[cls])
        else:
            ok_guard(rep, q if t is not None else FALSE, "untagged|" + cls, what + ": no CBOR tag")
        yield q, els


def produced(rep, t, vals, q, key, what):
    if any(t is v for v in vals):
        rep.ok(what)
    elif any(mentions(t, lambda x: x is v) for v in vals):
        rep.ok(what)      # truncated MACs
    elif has_top(t) or t.op == "gamma":
        bad = [x for g, x in from_term(t) if sat(B.And(q, g)) and not any(mentions(x, lambda y: y is v) for v in vals)]
        if bad and not any(has_top(x) for x in bad):
            rep.bad(key, what, "", show(t)[:200])
        elif bad:
            rep.undecided(what)
        else:
            rep.ok(what)
    else:
        rep.bad(key, what, "", show(t)[:200])


MANY = 24       # more elements than any shape the code spells out


def key_for(c, cls):
    return sig_key(c, "pycose.keys.EC2Key", "P256") if cls == "Sign1Message" else sym_key(c)


def encoding(lab, rep):
    n = 0
    P = sym("payload", "bytes")
    for cls in MSGCLS:
        for tag in (None, True, False):
            for count in ((0,) if cls not in ("SignMessage", "MacMessage", "EncMessage") else (1, 2, 3, MANY)):
                if count == MANY and tag is False:
                    continue
                for pl in ("payload", "detached") if cls in ("Sign1Message", "SignMessage") else ("payload",):
                    what = "%s.encode(tag=%s)%s, %s" % (cls, tag, "" if not count else " with %d inner" % count, pl)
                    with rep.case(what):
                        n += 1
                        c, m = msg_ctx(lab, cls, ALG1[cls], payload="none" if pl == "detached" else "bytes")
                        inner = []
                        if cls == "SignMessage":
                            for k in range(count):
                                s = signer_of(c, "signer%d" % k, m, -7)
                                c.set(s, "key", sig_key(c, "pycose.keys.EC2Key", "P256", "key%d" % k))
                                inner.append(s)
                            c.set(m, "signers", c.list(*inner))
                        else:
                            c.set(m, "key", key_for(c, cls))
                        if cls in ("MacMessage", "EncMessage"):
                            kind = "direct" if count == 1 else "aeskw"
                            inner = [rcpt_for(c, kind, "rcpt%d" % k) for k in range(count)]
                            c.set(m, "recipients", c.list(*inner))
                        kw = {} if tag is None else {"tag": const(tag)}
                        if pl == "detached":
                            kw["detached_payload"] = sym("detached", "bytes")
                        uh = c.I.snapshot(c.st, c.get1(m, "uhdr"))
                        r = c.run(m, "encode", **kw)
                        ph = c.get1(m, "phdr_encoded")
                        for q, els in tags(lab, rep, r, cls, tag is not False, what):
                            size = {"Sign1Message": 4, "SignMessage": 4, "Mac0Message": 4, "MacMessage": 5, "Enc0Message": 3,
                                    "EncMessage": 4}[cls]
                            if len(els) != size:
                                rep.bad("length|" + cls, what + ": %d elements" % size, "", "%d elements" % len(els))
                                continue
                            rep.same(els[0], ph, q, "protected|" + cls, what + ": element 0 is the protected header")
                            rep.same(els[1], uh, q, "unprotected|" + cls, what + ": element 1 is the unprotected header")
                            if cls in ("Enc0Message", "EncMessage"):
                                produced(rep, els[2], [e.result for e in PRIM[cls](r)], q, "ciphertext|" + cls,
                                         what + ": element 2 is the ciphertext")
                            else:
                                rep.same(els[2], NONE if pl == "detached" else P, q, "payload|" + cls, what + ": element 2 is the payload")
                            if cls in PRIM and size - (1 if inner else 0) == 4:
                                produced(rep, els[3], [e.result for e in PRIM[cls](r)], q, "proof|" + cls,
                                         what + ": element 3 is the tag or signature")
                            if inner:
                                inner_elems(lab, rep, c, r, els[-1], inner, q, cls, what)
        if cls in FLAG:
            for tag in (True, False):
                what = "%s.encode(tag=%s, %s=False)" % (cls, tag, FLAG[cls])
                with rep.case(what):
                    n += 1
                    c, m = msg_ctx(lab, cls, ALG1[cls])
                    S = sym("proof", "bytes")
                    if cls == "Sign1Message":
                        c.set(m, "signature", S)
                        c.st.pc = B.And(c.st.pc, g_truthy(S))
                    if cls in ("MacMessage", "EncMessage"):
                        c.set(m, "recipients", c.list())
                    r = c.run(m, "encode", tag=const(tag), **{FLAG[cls]: const(False)})
                    ph = c.get1(m, "phdr_encoded")
                    for q, els in tags(lab, rep, r, cls, tag, what):
                        exp = [ph, None, P] + ([S] if cls == "Sign1Message" else [])
                        if cls in ("Mac0Message", "MacMessage"):
                            els = els[:3]
                        if len(els) != len(exp):
                            rep.bad("length|" + cls, what + ": %d elements" % len(exp), "", "%d elements" % len(els))
                            continue
                        for k, e in enumerate(exp):
                            if e is not None:
                                rep.same(els[k], e, q, "unprotectedform|" + cls, what + ": element %d" % k)
                    evs = PRIM[cls](r)
                    ok_guard(rep, B.Or(FALSE, *[e.pc for e in evs]), "flag|" + cls, what + ": no primitive runs")
    return n


def inner_elems(lab, rep, c, r, t, inner, q, cls, what, nested=()):
    """nested: for each of inner the recipients it contains"""
    for g, u in from_term(t):
        q2 = B.And(q, g)
        if not sat(q2):
            continue
        xs = list_elems(u)
        if xs is None or has_top(u) and (xs is None or len(xs) != len(inner)):
            rep.undecided(what + ": inner structures " + show(u)[:80])
            continue
        if len(xs) != len(inner):
            rep.bad("inner count|" + cls, what + ": one inner structure per signer/recipient", "", "%d of %d" % (len(xs), len(inner)))
            continue
        for k, (x, o) in enumerate(zip(xs, inner)):
            c2 = Ctx(lab, r.state.copy())
            ph = c2.get1(o, "phdr_encoded")
            uh = c2.I.snapshot(c2.st, c2.get1(o, "uhdr"))
            for g3, y in from_term(x):
                q3 = B.And(q2, g3)
                if not sat(q3):
                    continue
                els = list_elems(y)
                if els is None:
                    rep.undecided(what + ": inner structure %d" % k)
                    continue
                size = 4 if nested and nested[k] else 3
                if len(els) != size:
                    rep.bad("inner length|" + cls, what + ": inner structure %d has %d elements" % (k, size), "", "%d" % len(els))
                    continue
                if size == 4:
                    inner_elems(lab, rep, c, r, els[3], nested[k], q3, "nested", what + " (nested in %d)" % k)
                rep.same(els[0], ph, q3, "inner protected|" + cls, what + ": protected header of inner structure %d" % k)
                rep.same(els[1], uh, q3, "inner unprotected|" + cls, what + ": unprotected header of inner structure %d" % k)
                yield_value(lab, rep, c, r, els[2], o, cls, q3, what + ": value of inner structure %d" % k)


def yield_value(lab, rep, c, r, t, o, cls, q, what):
    cl = single(lab.I.getattr_val(r.state.copy(), one(o), "__class__", None))
    short = cl.args[0].rsplit(".", 1)[-1] if cl is not None and cl.op == "class" else "?"
    if short in ("DirectEncryption", "DirectKeyAgreement"):
        rep.same(t, const(b""), q, "inner value|" + short, what + " is empty")
    elif short == "CoseSignature":
        # by the signer's own key
        kid = o.args[0].replace("signer", "key") if o.op == "sym" else None
        vals = [e for e in sign_events(r) if any(x is e.result or mentions(x, lambda y: y is e.result) for _, x in from_term(t))]
        if not vals:
            produced(rep, t, [e.result for e in sign_events(r)], q, "inner value|" + short, what + " is a signature")
        elif kid:
            good = any(mentions(v.result, lambda y: y.op == "sym" and y.args[0] == kid) for v in vals)
            rep.check(good, "inner value|" + short, what + " is made with its own key", "", show(t)[:200])
        else:
            rep.ok(what)
    else:
        produced(rep, t, [e.result for e in extcalls(r, "aes_key_wrap", ".encrypt")], q, "inner value|" + short,
                 what + " is the wrapped key")


def inner_encoding(lab, rep):
    """Every recipient class and algorithm inside both message types."""
    n = 0
    for cls in ("EncMessage", "MacMessage"):
        for kind in ("direct", "aeskw", "oaep", "ecdhdirect", "ecdhkw", "ecdhdirect-es", "ecdhkw-es"):
            for count in (1, 2):
                if count == 2 and kind.startswith("ecdhdirect"):
                    continue
                what = "%s.encode with %d %s recipient(s)" % (cls, count, kind)
                with rep.case(what):
                    n += 1
                    c, m = msg_ctx(lab, cls, ALG1[cls])
                    c.set(m, "key", sym_key(c))
                    inner = [rcpt_for(c, kind, "rcpt%d" % k) for k in range(count)]
                    if kind == "ecdhdirect-es":
                        for o in inner:
                            c.callm(o, "uhdr_update", c.dict([(lab.name("pycose.headers.EphemeralKey"), ec_key(c, "eph"))]))
                    if kind in ("direct", "ecdhdirect", "ecdhdirect-es"):
                        for k, o in enumerate(inner):
                            c.set(o, "payload", sym("rcpt_payload%d" % k, "bytes"))
                    c.set(m, "recipients", c.list(*inner))
                    r = c.run(m, "encode")
                    for q, els in tags(lab, rep, r, cls, True, what):
                        inner_elems(lab, rep, c, r, els[-1], inner, q, cls, what)
        for kind in ("aeskw", "oaep", "ecdhkw", "ecdhkw-es"):
            for inside in (("aeskw",), ("ecdhkw",), ("ecdhdirect",), ("aeskw", "oaep"), ("aeskw",) * MANY):
                what = "%s.encode with a %s recipient that contains %s" % (cls, kind, ", ".join(inside[:3]) + ("" if len(inside) < 3 else "..."))
                with rep.case(what):
                    n += 1
                    c, m = msg_ctx(lab, cls, ALG1[cls])
                    c.set(m, "key", sym_key(c))
                    o = rcpt_for(c, kind, "rcpt")
                    nested = [rcpt_for(c, x, "nested%d" % k) for k, x in enumerate(inside)]
                    for k, x in enumerate(nested):
                        c.set(x, "payload", sym("nested_payload%d" % k, "bytes"))
                    c.set(o, "recipients", c.list(*nested))
                    c.set(m, "recipients", c.list(o))
                    r = c.run(m, "encode")
                    for q, els in tags(lab, rep, r, cls, True, what):
                        inner_elems(lab, rep, c, r, els[-1], [o], q, cls, what, [nested])
    return n


def inner_rx(c, rx, k, kind):
    """(element list, alg) of a received signer or recipient."""
    alg = {"signer": -7, "direct": -6, "aeskw": -3, "oaep": -41, "ecdhdirect": -27, "ecdhkw": -32, "ecdhdirect-es": -25,
           "ecdhkw-es": -29}[kind]
    kid = sym("kid%d" % k, "bytes")
    W = const(b"") if kind in ("direct", "ecdhdirect", "ecdhdirect-es") else sym("value%d" % k, "bytes")
    if W.op == "sym":
        c.st.pc = B.And(c.st.pc, g_truthy(W), B.Not(g_eq(W, const(b""))))
    uh = [(const(4), kid)]
    if kind in ("ecdhdirect-es", "ecdhkw-es"):
        uh.append((const(-1), c.dict([(const(1), const(2)), (const(-1), const(1)), (const(-2), const(b"x" * 32)), (const(-3), const(b"y" * 32))])))
    if kind in ("direct", "aeskw"):
        P = const(b"")
        uh.append((const(1), const(alg)))
    else:
        P = rx.header("inner_bytes%d" % k, c.dict([(const(1), const(alg))]))
        c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
    return c.list(P, c.dict(uh), W), (P, kid, W, alg)


def decoding(lab, rep):
    n = 0
    K, A = lab.name("pycose.headers.KID"), lab.name("pycose.headers.Algorithm")
    kid = sym("kid", "bytes")
    for cls in MSGCLS:
        kinds = ("-",)
        if cls == "SignMessage":
            kinds = ("signer",)
        elif cls in ("EncMessage", "MacMessage"):
            kinds = ("direct", "aeskw", "oaep", "ecdhdirect", "ecdhkw", "ecdhdirect-es", "ecdhkw-es")
        for kind in kinds:
            for count in (1, 2, 3, MANY):
                for pl in ("payload", "nil"):
                    if kind == "-" and count > 1 or kind not in ("signer", "aeskw") and count > 2 or count == MANY and pl == "nil":
                        continue
                    for via in (cls, "CoseMessage"):
                        what = "%s.decode of a %s with %d %s, %s" % (via, cls, count, kind, pl)
                        with rep.case(what):
                            n += 1
                            c = lab.ctx()
                            rx = Rx(c)
                            i = ALG1[cls]
                            P = rx.header("phdr_bytes", c.dict([(const(1), const(i))] if i is not None else [(const(3), const(7))]))
                            c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                            inn = [inner_rx(c, rx, k, kind) for k in range(count)] if kind != "-" else []
                            PL = NONE if pl == "nil" else sym("payload", "bytes")
                            received(c, rx, cls, P, c.dict([(const(4), kid)]), payload=PL,
                                     last=c.list(*[x[0] for x in inn]) if inn else None)
                            m = decode(c, rx, cls, via)
                            g = c.st.pc
                            chk = lambda got, exp, nm: rep.same(got, exp, g, "%s|%s" % (nm, cls), what + ": " + nm)
                            chk(c.get1(m, "phdr_encoded"), P, "protected header")
                            t, _ = c.spec("in_bucket", m, const("u"), K)
                            chk(t, kid, "unprotected header")
                            t, _ = c.spec("in_bucket", m, const("p"), K)
                            chk(t, NONE, "bucket of the unprotected parameter")
                            chk(c.get1(m, "payload"), PL, "payload")
                            if cls == "Sign1Message":
                                chk(c.get1(m, "signature"), sym("proof", "bytes"), "signature")
                            elif cls in ("Mac0Message", "MacMessage"):
                                chk(c.get1(m, "auth_tag"), sym("proof", "bytes"), "authentication tag")
                            if inn:
                                attr = "signers" if kind == "signer" else "recipients"
                                seq = c.get1(m, attr)
                                t, _ = c.spec("length", seq)
                                chk(t, const(len(inn)), "number of " + attr)
                                for k, (_, (Pk, kk, W, alg)) in enumerate(inn):
                                    o = single(c.I.getitem(c.st, one(seq), one(const(k)), None))
                                    if o is None:
                                        rep.undecided(what + ": %s %d" % (attr, k))
                                        continue
                                    nm = "inner %s " % kind
                                    chk(c.get1(o, "phdr_encoded"), Pk, nm + "protected header")
                                    t, _ = c.spec("in_bucket", o, const("u"), K)
                                    chk(t, kk, nm + "unprotected header")
                                    chk(c.get1(o, "signature" if kind == "signer" else "payload"), W, nm + "value")
                                    if kind != "signer":
                                        t, _ = c.spec("exactly", o, lab.name(RCPT + RCPT_OF[iana.ALGS[alg][1]]))
                                        chk(t, const(True), nm + "class")
                                        ctx = {"EncMessage": "Enc_Recipient", "MacMessage": "Mac_Recipient"}[cls]
                                        chk(c.get1(o, "context"), const(ctx), nm + "context")
    return n


def reencoding(lab, rep):
    """decode followed by encoding without new protection gives back the same elements."""
    n = 0
    for cls in ("Sign1Message", "Enc0Message", "EncMessage"):
        for tag in (True, False):
            what = "%s: decode, encode(tag=%s, %s=False)" % (cls, tag, FLAG[cls])
            with rep.case(what):
                n += 1
                c = lab.ctx()
                rx = Rx(c)
                kid = sym("kid", "bytes")
                P = rx.header("phdr_bytes", c.dict([(const(1), const(ALG1[cls]))]))
                c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))), g_truthy(sym("proof", "bytes")))
                received(c, rx, cls, P, c.dict([(const(4), kid)]))
                m = decode(c, rx, cls)
                r = c.run(m, "encode", tag=const(tag), **{FLAG[cls]: const(False)})
                uh = c.I.snapshot(c.st, c.dict([(lab.name("pycose.headers.KID"), kid)]))
                for q, els in tags(lab, rep, r, cls, tag, what):
                    exp = [P, uh, sym("payload", "bytes")] + ([sym("proof", "bytes")] if cls == "Sign1Message" else [])
                    if cls == "EncMessage":
                        exp.append(None)
                    if len(els) != len(exp):
                        rep.bad("reencode length|" + cls, what + ": %d elements" % len(exp), "", "%d" % len(els))
                        continue
                    for k, e in enumerate(exp):
                        if e is not None:
                            rep.same(els[k], e, q, "reencode|" + cls, what + ": element %d" % k)
    return n


def default_of(t):
    """`default` argument of a cbor2.dumps term."""
    if t.op == "call" and t.args[0] is ext("cbor2.dumps"):
        kw = dict(t.args[2]) if len(t.args) > 2 else {}
        return kw.get("default")
    return None


def attributes(lab, rep):
    """Registered attributes are serialised by identifier (algorithms by name on request), keys as their maps."""
    n = 0
    objs = [("pycose.headers." + x, i) for i, x in iana.HEADERS.items()]
    objs += [("pycose.algorithms." + v[0], i) for i, v in iana.ALGS.items()]
    kobjs = []
    for grp in iana.KEYPARAMS.values():
        kobjs += [("pycose.keys.keyparam." + x, i) for i, x in grp.items()]
    kobjs += [("pycose.keys.keytype." + x, i) for i, x in iana.KTYS.items()]
    kobjs += [("pycose.keys.keyops." + x, i) for i, x in iana.KEYOPS.items()]
    kobjs += [("pycose.keys.curves." + x[0], i) for i, x in iana.CURVES.items()]
    for cls in MSGCLS:
        for where in ("message", "protected"):
            for tstr in (None, True):
                what = "%s, %s encoder, alg_tstr_encoding=%s" % (cls, where, tstr)
                with rep.case(what):
                    c = lab.ctx()
                    kw = {} if tstr is None else {"alg_tstr_encoding": const(True)}
                    ph = c.dict([(lab.name("pycose.headers.KID"), sym("kid", "bytes"))])
                    m = c.new("pycose.messages." + cls, phdr=ph, uhdr=c.dict(), payload=sym("payload", "bytes"), **kw)
                    if where == "protected":
                        t = c.get1(m, "phdr_encoded")
                    else:
                        kw = {FLAG[cls]: const(False)} if cls in FLAG else {}
                        r = c.run(m, "encode", **kw)
                        t = c.snap(r)
                    ds = {default_of(x) for g, x in from_term(t) if sat(g)}
                    d = ds.pop() if len(ds) == 1 else None
                    if d is None:
                        if has_top(t):
                            rep.undecided(what)
                        else:
                            rep.bad("default|" + cls, what + ": attributes are serialised by the library's encoder", "", show(t)[:200])
                        continue
                    for dotted, i in (objs + kobjs):
                        n += 1
                        a = lab.name(dotted)
                        exp = const(i)
                        if tstr and dotted.startswith("pycose.algorithms."):
                            exp = as_term(c.get(a, "fullname"), TRUE)
                        encoded(lab, rep, c, d, a, exp, "%s: %s" % (what, dotted), "attribute encoder|" + where)
                    for kc in ("EC2Key", "OKPKey", "RSAKey", "SymmetricKey"):
                        n += 1
                        k = c.inst("pycose.keys." + kc, "key")
                        r = c.run(d, "__call__", sym("encoder"), k)
                        evs = [e for e in r.events if e.kind == "call" and e.name == ".encode" and sat(e.pc)]
                        if not evs or r.pc == FALSE:
                            rep.check(None if has_top(c.snap(r)) else False, "key encoder", "%s: %s is serialised" % (what, kc))
                            continue
                        ok_guard(rep, B.And(r.pc, B.Not(B.Or(*[e.pc for e in evs]))), "key encoder", "%s: %s is serialised" % (what, kc))
    return n


def encoded(lab, rep, c, d, a, exp, what, key):
    r = c.run(d, "__call__", sym("encoder"), a)
    evs = [e for e in r.events if e.kind == "call" and e.name == ".encode" and sat(e.pc) and e.recv is sym("encoder")]
    if r.pc == FALSE:
        rep.bad(key, what + ": is serialised", "", str(sorted(c.raised(r))))
        return
    if not evs:
        rep.check(None if has_top(c.snap(r)) else False, key, what + ": is serialised")
        return
    ok_guard(rep, B.And(r.pc, B.Not(B.Or(*[e.pc for e in evs]))), key, what + ": is serialised")
    for e in evs:
        args = [x for x in e.args if x is not e.recv] or list(e.kw.values())
        if len(args) != 1:
            rep.undecided(what)
        else:
            rep.same(args[0], exp, e.pc, key, what + ": identifier", e.where())
