"""C09: header parameter values are validated and resolved in both buckets."""
from .common import *      # noqa

RULE = ("a message, signer or recipient is constructed or decoded only if every value of a format-restricted header parameter "
        "is permitted, and then holds that value (algorithm identifiers resolved to the registered algorithm, key "
        "dictionaries to keys); permitted values are not refused")
EXPLAIN = ("Every way a header enters the library (constructors of all public classes, decoding of all message types, signers "
           "and recipients inside them) is analysed for both buckets with an arbitrary value of each restricted parameter: "
           "the completion condition has to equal the specified format predicate and the stored value the given one; every "
           "registered algorithm identifier/name is looked up, unregistered ones have to be refused.")

BSTR = ("KID", "IV", "PartialIV", "CounterSignature0", "KIDContext")
FREE = ("CounterSignature", "X5bag", "X5chain", "X5t", "X5u", "StaticKeyID", "Salt", "PartyUID", "PartyUNonce", "PartyUOther",
        "PartyVID", "PartyVNonce", "PartyVOther")


def entries(lab):
    """(label, f(content map term, bucket, ctx, allow) -> (Result, object term getter))"""
    def ctor(dotted):
        def f(c, content, bucket, allow):
            kw = {("phdr" if bucket == "p" else "uhdr"): content}
            if allow is not None:
                kw["allow_unknown_attributes"] = const(allow)
            r = c.run(lab.name(dotted), "__call__", **kw)
            return r, (lambda st: r.value)
        return f

    def dec(cls, via):
        def f(c, content, bucket, allow):
            rx = Rx(c)
            if bucket == "p":
                P = rx.header("phdr_bytes", content)
                c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                received(c, rx, cls, P, c.dict())
            else:
                received(c, rx, cls, const(b""), content)
            kw = {} if allow is None else {"allow_unknown_attributes": const(allow)}
            with rx:
                r = c.run(lab.name("pycose.messages." + via), "decode", rx.rx, **kw)
            return r, (lambda st: r.value)
        return f

    def inner(cls, attr, alg):
        def f(c, content, bucket, allow):
            rx = Rx(c)
            A = const(1)
            W = const(b"")
            if RCPT_OF.get(iana.ALGS[alg][1]) in ("KeyWrap", "KeyAgreementWithKeyWrap"):
                W = sym("wrapped", "bytes")
                c.st.pc = B.And(c.st.pc, g_truthy(W), B.Not(g_eq(W, const(b""))))
            d = c.st.heap[content]
            o = c.dict([(A, const(alg))]) if A not in d.ent else None
            u = c.dict() if bucket == "p" else content
            if iana.ALGS[alg][1] in ("ecdhdirect", "ecdhkw") and const(-1) not in d.ent:
                ek = c.dict([(const(1), const(2)), (const(-1), const(1)), (const(-2), const(b"x" * 32)), (const(-3), const(b"y" * 32))])
                c.st.heap[u].ent[const(-1)] = (TRUE, one(ek))
            if bucket == "p":
                P = rx.header("inner_bytes", content)
                c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                if o is not None:
                    c.st.heap[u].ent[A] = (TRUE, one(const(alg)))
                elem = c.list(P, u, W)
            elif o is None or not protectable(alg):
                if o is not None:
                    d.ent[A] = (TRUE, one(const(alg)))
                elem = c.list(const(b""), content, W)
            else:
                P = rx.header("inner_bytes", o)
                c.st.pc = B.And(c.st.pc, g_truthy(P), B.Not(g_eq(P, const(b""))))
                elem = c.list(P, content, W)
            received(c, rx, cls, const(b""), c.dict([(const(1), const(5 if cls == "MacMessage" else 1))]), last=c.list(elem))
            kw = {} if allow is None else {"allow_unknown_attributes": const(allow)}
            with rx:
                r = c.run(lab.name("pycose.messages." + cls), "decode", rx.rx, **kw)

            def obj(st):
                seq, _ = lab.I.getter(st, r.value, attr)
                return lab.I.getitem(st, seq, one(const(0)), None)
            return r, obj
        return f
    for cls in MSGCLS:
        yield cls + "()", ctor("pycose.messages." + cls), None
        yield cls + ".decode", dec(cls, cls), None
    yield "CoseMessage.decode", dec("Sign1Message", "CoseMessage"), None
    yield "CoseSignature()", ctor("pycose.messages.signer.CoseSignature"), None
    for rc in sorted(set(RCPT_OF.values())):
        yield rc + "()", ctor(RCPT + rc), None
    yield "signer of SignMessage.decode", inner("SignMessage", "signers", -7), -7
    for cls in ("EncMessage", "MacMessage"):
        for alg in (-3, -6, -25, -29, -41):
            yield "%s of %s.decode" % (RCPT_OF[iana.ALGS[alg][1]], cls), inner(cls, "recipients", alg), alg


def run(lab, rep, tier):
    n = 0
    ents = list(entries(lab))
    hd = {nm: i for i, nm in iana.HEADERS.items()}
    for label, f, inalg in ents:
        for bucket in "pu":
            if bucket == "p" and inalg is not None and not protectable(inalg):
                continue
            full = label.startswith(("Sign1", "Mac0", "EncM", "CoseM", "signer", "KeyWrap"))
            cases = [(p, "valid_bstr") for p in BSTR] + [("Critical", "valid_critical"), ("ContentType", "valid_content_type")]
            cases += [(p, "anything") for p in (FREE if full else FREE[:2])]
            for pn, pred in cases:
                for form in (("id", "name", "class") if pn in ("KID", "Critical") else ("id", "class")):
                    if form == "class" and "decode" in label:
                        continue
                    what = "%s %s header %s (%s)" % (label, "protected" if bucket == "p" else "unprotected", pn, form)
                    with rep.case(what):
                        n += 1
                        attr = lab.name("pycose.headers." + pn)
                        c = lab.ctx()
                        k = attr if form == "class" else const(hd[pn]) if form == "id" else lab_fullname(lab, c, attr)
                        v = sym("value")
                        r, obj = f(c, c.dict([(k, v)]), bucket, None)
                        compare(lab, rep, c, r, obj, bucket, attr, v, pred, "%s|%s" % (pn, "message" if inalg is None else "inner"), what)
            n += algorithms(lab, rep, label, f, bucket, inalg)
            n += unknown(lab, rep, label, f, bucket)
            n += keys(lab, rep, label, f, bucket, inalg)
    rep.floor("header entry cases", n, 400)


def protectable(alg):
    """Recipient algorithms that allow a protected header."""
    return iana.ALGS[alg][1] not in ("aeskw", "direct")


def lab_fullname(lab, c, attr):
    return as_term(c.get(attr, "fullname"), TRUE)


def compare(lab, rep, c, r, obj, bucket, attr, v, pred, key, what):
    valid, _ = c.spec(pred, v, pc=TRUE)
    gv = g_truthy(valid)
    bad = B.And(r.pc, B.Not(gv))
    if sat(bad):
        verdict(rep, bad, "accepts|" + key, what + ": a value of the wrong format is refused")
    else:
        rep.ok(what + ": a value of the wrong format is refused")
    rg = B.Or(FALSE, *[e[0] for e in r.raises])
    wrong = B.And(rg, gv)
    if sat(wrong):
        verdict(rep, wrong, "refuses|" + key, what + ": a permitted value is accepted")
    else:
        rep.ok(what + ": a permitted value is accepted")
    if sat(r.pc):
        got = stored(lab, c, r, obj, bucket, attr)
        rep.same(got, v, r.pc, "value|" + key, what + ": stored value")


def stored(lab, c, r, obj, bucket, attr):
    st = r.state
    o = obj(st)
    t, _ = c.spec("in_bucket", o, const(bucket), attr, pc=r.pc, heap=st.heap)
    return t


def verdict(rep, g, key, what):
    if imprecise(g):
        rep.undecided(what)
    else:
        rep.bad(key, what, "", showg(g)[:300])


def algorithms(lab, rep, label, f, bucket, inalg):
    n = 0
    A = lab.name("pycose.headers.Algorithm")
    if inalg is None:
        ids = sorted(iana.ALGS) if label in ("Sign1Message()", "Enc0Message.decode", "MacMessage()") else (-7, 1, 5, -8, -39, -3)
    elif inalg == -7:
        ids = (-7, -8, -37)
    else:
        ids = [i for i in iana.ALGS if RCPT_OF.get(iana.ALGS[i][1]) == RCPT_OF[iana.ALGS[inalg][1]] and
               i not in (-13, -11, -10, -12) and (bucket == "u" or protectable(i))]
    for i in ids:
        for form in ("id", "name", "class"):
            if form == "class" and "decode" in label:
                continue
            what = "%s %s algorithm %d (%s)" % (label, bucket, i, form)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                cl = algterm(lab, i)
                v = const(i) if form == "id" else cl if form == "class" else lab_fullname(lab, c, cl)
                r, obj = f(c, c.dict([(const(1), v)]), bucket, None)
                rg = B.Or(FALSE, *[e[0] for e in r.raises])
                if sat(rg) and r.pc == FALSE:
                    verdict(rep, rg, "algorithm refused|%d" % i, what + ": registered algorithm is accepted")
                    continue
                rep.same(stored(lab, c, r, obj, bucket, A), cl, r.pc, "algorithm|%d" % i, what)
    for v in (const(999), const(-99999), const("NOPE"), const(b"\x26"), NONE, const(0)):
        what = "%s %s algorithm %s" % (label, bucket, show(v))
        if inalg is not None and v is NONE:
            continue
        with rep.case(what):
            n += 1
            c = lab.ctx()
            r, obj = f(c, c.dict([(const(1), v)]), bucket, None)
            if sat(r.pc):
                verdict(rep, r.pc, "unregistered algorithm", what + ": an unregistered algorithm is refused")
            else:
                rep.ok(what)
    return n


def unknown(lab, rep, label, f, bucket):
    """Unregistered labels: kept by default, refused on request."""
    n = 0
    if label == "SignMessage()" or "()" not in label or True:
        for k in (const(4242), const(-70000), const("app")):
            for allow in (None, True, False):
                what = "%s %s label %s, allow_unknown_attributes=%s" % (label, bucket, show(k), allow)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    v = sym("value")
                    r, obj = f(c, c.dict([(k, v)]), bucket, allow)
                    if allow is False:
                        if sat(r.pc):
                            verdict(rep, r.pc, "unknown label kept", what + ": refused")
                        else:
                            rep.ok(what)
                    elif r.pc == FALSE:
                        verdict(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "unknown label refused", what + ": kept")
                    else:
                        rep.same(stored(lab, c, r, obj, bucket, k), v, r.pc, "unknown label value", what)
    return n


def keys(lab, rep, label, f, bucket, inalg):
    """Ephemeral and static keys are resolved to keys; malformed ones refused."""
    n = 0
    for nm, hid in (("EphemeralKey", -1), ("StaticKey", -2)):
        attr = lab.name("pycose.headers." + nm)
        x, y = sym("x", "bytes"), sym("y", "bytes")
        good = [("EC2", [(1, const(2)), (-1, const(1)), (-2, x), (-3, y)], "pycose.keys.EC2Key"),
                ("OKP", [(1, const(1)), (-1, const(4)), (-2, x)], "pycose.keys.OKPKey")]
        bad = [("without key type", [(-1, const(1)), (-2, x), (-3, y)]),
               ("EC2 without curve", [(1, const(2)), (-2, x), (-3, y)]),
               ("EC2 without point", [(1, const(2)), (-1, const(1))]),
               ("EC2 on an OKP curve", [(1, const(2)), (-1, const(6)), (-2, x), (-3, y)])]
        for kl, ent, cls in good:
            what = "%s %s %s %s key" % (label, bucket, nm, kl)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                for t in (x, y):
                    c.st.pc = B.And(c.st.pc, g_truthy(t), B.Not(g_eq(t, const(b""))))
                r, obj = f(c, c.dict([(const(hid), c.dict([(const(a), b) for a, b in ent]))]), bucket, None)
                if r.pc == FALSE:
                    verdict(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "key refused|" + nm, what + ": accepted")
                    continue
                t, _ = c.spec("key_xy", obj(r.state), const(bucket), attr, lab.name(cls), pc=r.pc, heap=r.state.heap)
                rep.same(t, T("tuple", const(True), x, y if kl == "EC2" else NONE), r.pc, "key|" + nm, what)
        for kl, ent in bad:
            what = "%s %s %s: %s" % (label, bucket, nm, kl)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                r, obj = f(c, c.dict([(const(hid), c.dict([(const(a), b) for a, b in ent]))]), bucket, None)
                if sat(r.pc):
                    verdict(rep, r.pc, "key accepted|" + nm, what + ": refused")
                else:
                    rep.ok(what)
    return n
