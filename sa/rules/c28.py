"""C28: attributes hold only values of their types, and a refused value changes nothing."""
from .common import *      # noqa
from .c20 import truth, CLS, K

RULE = ("payload, external data, key, signature, headers, signers, recipients and derived-key length of messages, signers, recipients and contexts "
        "hold values of their own types only; values of those types are taken as they are; an assignment that is refused leaves the attribute, "
        "and for keys every parameter, as it was")
EXPLAIN = ("Every public setter and constructor argument is analysed with a value about which nothing is known: the condition under which it "
           "completes has to imply the type of what the attribute then reads; with a value of the right type it must never raise and read back the "
           "same value; the state at every exception is compared with the state before.")
M = "pycose.messages."
KEYCLS = ["EC2Key", "OKPKey", "RSAKey", "SymmetricKey"]
SIGNERS = [M + "signer.CoseSignature"]
RECIPIENTS = [RCPT + x for x in sorted(set(RCPT_OF.values()))]
MESSAGES = [M + x for x in MSGCLS]
PARAMS = {"EC2": ["crv", "x", "y", "d"], "OKP": ["crv", "x", "d"], "Symmetric": ["k"],
          "RSA": ["n", "e", "d", "p", "q", "dp", "dq", "qinv", "other", "r_i", "d_i", "t_i"]}


def attributes(q):
    nm = q.rsplit(".", 1)[1]
    out = []
    if nm == "CoseSignature":
        out += [("signature", "bytes")]
    else:
        out += [("payload", "bytes?")]
    if nm == "Sign1Message":
        out += [("signature", "bytes")]
    if nm != "SignMessage":
        out += [("external_aad", "bytes"), ("key", "key")]
    out += [("phdr", "dict"), ("uhdr", "dict")]
    if nm == "SignMessage":
        out += [("signers", "list")]
    return out


def typed(c, t, kind):
    if kind == "bytes":
        v, _ = c.spec("is_bytes", t)
    elif kind == "bytes?":
        v, _ = c.spec("bytes_or_none", t)
    elif kind == "dict":
        v, _ = c.spec("is_dict", t)
    elif kind == "list":
        v, _ = c.spec("is_list", t)
    elif kind == "key":
        v, _ = c.spec("key_or_none", t, *[c.lab.name(K + k) for k in KEYCLS])
    return truth(v)


def good(c, kind):
    """Values of the type."""
    if kind == "bytes":
        return [sym("value", "bytes")]
    if kind == "bytes?":
        return [sym("value", "bytes"), NONE]
    if kind == "key":
        return [c.inst(K + k, "value") for k in KEYCLS] + [NONE]
    if kind == "dict":
        return [c.dict()]
    return [c.list()]


def at(lab, r):
    c = Ctx(lab, r.state)
    c.st.pc = r.pc
    return c


def unchanged(lab, rep, c, r, obj, names, key, what, where):
    """What the names read at every exception is what they read before."""
    before = {}
    c0 = c.fork()
    for n in names:
        before[n] = reading(c0, obj, n)
    for e in r.raises:
        if not sat(e[0]):
            continue
        c2 = Ctx(lab, State(e[0], {}, dict(e[2])))
        for n in names:
            now = reading(c2, obj, n)
            rep.same(now, before[n], e[0], "%s|kept" % key, "%s refused with %s: %s is as before" % (what, lab.I.exc_name(e[3]), n), where)


def reading(c, obj, n):
    f = c.fork()
    if n in ("key_ops", "other"):       # lists made when asked for
        return f.spec("attr_tuple", obj, const(n))[0]
    return f.I.snapv(f.st, one(f.get1(obj, n)))


def setters(lab, rep, tier):
    n = 0
    for q in MESSAGES + SIGNERS + RECIPIENTS:
        cls = q.rsplit(".", 1)[1]
        for a, kind in attributes(q):
            where = q + "." + a
            what = "%s.%s = anything" % (cls, a)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                m = c.inst(q, "m")
                c0 = c.fork()
                r = c.runset(m, a, sym("value"))
                if sat(r.pc):
                    c2 = at(lab, r)
                    ok_guard(rep, B.And(r.pc, B.Not(typed(c2, c2.get1(m, a), kind))), "type|%s.%s" % (cls, a), what + ": has its type", where)
                else:
                    rep.undecided(what + ": never completes")
                unchanged(lab, rep, c0, r, m, [a] + (["phdr_encoded"] if a == "phdr" else []), "%s.%s" % (cls, a), what, where)
            for i in range(len(good(lab.ctx(), kind))):
                c = lab.ctx()
                v = good(c, kind)[i]
                what = "%s.%s = %s" % (cls, a, show(v) if v.op != "sym" else TYPES.get(v, "") or "value of its type")
                with rep.case(what):
                    n += 1
                    taken(lab, rep, c, q, cls, a, v, what, where, kind)
        for a in ("phdr_update", "uhdr_update"):
            what = "%s.%s(anything)" % (cls, a)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                m = c.inst(q, "m")
                c0 = c.fork()
                v = sym("value")
                bad = B.Not(typed(c0, v, "dict"))
                r = c.run(m, a, v)
                ok_guard(rep, B.And(r.pc, bad), "type|%s.%s" % (cls, a), what + ": takes dictionaries only", q + "." + a)
                unchanged(lab, rep, c0, only(r, bad), m, [a[:4]], "%s.%s" % (cls, a), what, q + "." + a)
    return n


def only(r, g):
    class R:
        raises = [(B.And(e[0], g),) + tuple(e[1:]) for e in r.raises]
    return R


def taken(lab, rep, c, q, cls, a, v, what, where, kind):
    m = c.inst(q, "m")
    r = c.runset(m, a, v)
    rs = B.Or(FALSE, *[e[0] for e in r.raises])
    verdict(rep, rs, "refused|%s.%s" % (cls, a), what + " is accepted", where)
    if sat(r.pc) and kind in ("bytes", "bytes?", "key"):
        c2 = at(lab, r)
        rep.same(c2.get1(m, a), v, r.pc, "stored|%s.%s" % (cls, a), what + ": reads back", where)


def verdict(rep, g, key, what, where=""):
    return ok_guard(rep, g, key, what, where)


def arguments(lab, rep, tier):
    """constructor arguments"""
    n = 0
    for q in MESSAGES + SIGNERS + RECIPIENTS:
        cls = q.rsplit(".", 1)[1]
        for a, kind in attributes(q):
            if a == "signature" and cls == "Sign1Message":
                continue
            where = q + ".__init__"
            if a == "signature":
                kind = "bytes?"
            what = "%s(%s=anything)" % (cls, a)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                r = c.run(lab.name(q), "__call__", **{a: sym("value")})
                if not sat(r.pc):
                    rep.undecided(what + ": never completes")
                    continue
                c2 = at(lab, r)
                for g, o in from_term(as_term(r.value, r.pc)):
                    c3 = c2.fork()
                    c3.st.pc = B.And(r.pc, g)
                    if sat(c3.st.pc):
                        t = c3.get1(o, a)
                        ok_guard(rep, B.And(c3.st.pc, B.Not(typed(c3, t, kind))), "type|%s(%s)" % (cls, a), what + ": has its type", where)
            for i in range(len(good(lab.ctx(), kind))):
                c = lab.ctx()
                v = good(c, kind)[i]
                what = "%s(%s=%s)" % (cls, a, show(v) if v.op != "sym" else TYPES.get(v, "") or "value of its type")
                with rep.case(what):
                    n += 1
                    r = c.run(lab.name(q), "__call__", **{a: v})
                    ok_guard(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "refused|%s(%s)" % (cls, a), what + " is accepted", where)
                    o = single(r.value) if sat(r.pc) else None
                    if o is not None and kind in ("bytes", "bytes?", "key"):
                        rep.same(at(lab, r).get1(o, a), v, r.pc, "stored|%s(%s)" % (cls, a), what + ": reads back", where)
    return n


def recipients(lab, rep, tier):
    """lists of recipients hold recipients only"""
    n = 0
    R = lab.name(RCPT + "CoseRecipient")
    for q in [M + "MacMessage", M + "EncMessage"] + RECIPIENTS:
        cls = q.rsplit(".", 1)[1]
        where = q + ".recipients"
        for pos in (0, 1):
            what = "%s.recipients with anything at %d" % (cls, pos)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                m = c.inst(q, "m")
                v = sym("value")
                els = [c.inst(RCPT + "DirectEncryption", "r0"), c.inst(RCPT + "KeyWrap", "r1")]
                els[pos] = v
                lst = c.list(*els)
                c0 = c.fork()
                t, _ = c.fork().spec("is_a", v, R)
                r = c.runset(m, "recipients", lst)
                if not sat(r.pc):
                    rep.undecided(what + ": never completes")
                    continue
                ok_guard(rep, B.And(r.pc, B.Not(truth(t))), "type|%s.recipients" % cls, what + ": a recipient", where)
                before = c0.spec("attr_tuple", m, const("recipients"))[0]
                for e in r.raises:
                    if sat(e[0]):
                        c2 = Ctx(lab, State(e[0], {}, dict(e[2])))
                        rep.same(c2.spec("attr_tuple", m, const("recipients"))[0], before, e[0], "%s.recipients|kept" % cls,
                                 what + " refused: the recipients are as before", where)
        what = "%s.recipients = [KeyWrap, DirectEncryption]" % cls
        with rep.case(what):
            n += 1
            c = lab.ctx()
            m = c.inst(q, "m")
            els = [c.inst(RCPT + "KeyWrap", "r0"), c.inst(RCPT + "DirectEncryption", "r1")]
            r = c.runset(m, "recipients", c.list(*els))
            ok_guard(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "refused|%s.recipients" % cls, what + " is accepted", where)
            if sat(r.pc):
                rep.same(at(lab, r).spec("attr_tuple", m, const("recipients"))[0], T("tuple", *els), r.pc, "stored|%s.recipients" % cls,
                         what + ": reads back", where)
        what = "%s.recipients = None" % cls
        with rep.case(what):
            n += 1
            c = lab.ctx()
            m = c.inst(q, "m")
            r = c.runset(m, "recipients", NONE)
            ok_guard(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "refused|%s.recipients" % cls, what + " is accepted", where)
            if sat(r.pc):
                rep.same(at(lab, r).spec("attr_tuple", m, const("recipients"))[0], T("tuple"), r.pc, "stored|%s.recipients" % cls,
                         what + ": none", where)
    q = M + "SignMessage"
    what = "SignMessage.signers = [s0, s1]"
    with rep.case(what):
        n += 1
        c = lab.ctx()
        m = c.inst(q, "m")
        els = [c.inst(SIGNERS[0], "s0"), c.inst(SIGNERS[0], "s1")]
        r = c.runset(m, "signers", c.list(*els))
        ok_guard(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "refused|SignMessage.signers", what + " is accepted", q + ".signers")
        if sat(r.pc):
            rep.same(at(lab, r).spec("attr_tuple", m, const("signers"))[0], T("tuple", *els), r.pc, "stored|SignMessage.signers",
                     what + ": reads back", q + ".signers")
    return n


def context(lab, rep, tier):
    """length of a derived key"""
    n = 0
    q = M + "context.SuppPubInfo"
    for entry in ("constructor", "setter"):
        what = "SuppPubInfo %s: any length" % entry
        with rep.case(what):
            n += 1
            c = lab.ctx()
            v = sym("length", "int")
            t, _ = c.fork().spec("aes_or_refused", v)
            if entry == "setter":
                m = c.new(q, const(16))
                r = c.runset(m, "key_data_length", v)
            else:
                r = c.run(lab.name(q), "__call__", v)
                m = single(r.value) if sat(r.pc) else None
            ok_guard(rep, B.And(r.pc, B.Not(truth(t))), "length|" + entry, what + ": 16, 24 or 32 bytes", q)
            if m is not None and sat(r.pc):
                rep.same(at(lab, r).get1(m, "key_data_length"), v, r.pc, "length|%s|stored" % entry, what + ": reads back", q)
            ok_guard(rep, B.And(truth(t), B.Or(FALSE, *[e[0] for e in r.raises])), "length|%s|refused" % entry, what + ": sizes of AES keys are accepted", q)
            if entry == "setter":
                for e in r.raises:
                    if sat(e[0]):
                        rep.same(reading(Ctx(lab, State(e[0], {}, dict(e[2]))), m, "key_data_length"), const(16), e[0], "length|kept",
                                 what + " refused: as before", q)
    return n


def keys(lab, rep, tier):
    """a refused assignment leaves the key as it was"""
    n = 0
    for kt in CLS:
        names = ["kid", "alg", "key_ops", "base_iv"] + PARAMS[kt]
        for a in names:
            for form in ("any", "list") if a == "key_ops" else ("any",):
                what = "%s.%s = %s" % (CLS[kt], a, "anything" if form == "any" else "[sign, anything]")
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    k = c.inst(K + CLS[kt], "key")
                    v = sym("value") if form == "any" else c.list(const(1 if kt != "Symmetric" else 3), sym("value"))
                    c0 = c.fork()
                    r = c.runset(k, a, v)
                    unchanged(lab, rep, c0, r, k, names, "%s.%s" % (CLS[kt], a), what, K + CLS[kt] + "." + a)
    return n


def run(lab, rep, tier):
    n = 0
    for f in (setters, arguments, recipients, context, keys):
        n += f(lab, rep, tier)
    rep.floor("assignments analysed", n, 200)
