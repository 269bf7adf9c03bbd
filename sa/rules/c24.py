"""C24: objects do not share state and operations leave their inputs alone."""
from .common import *      # noqa
from .c20 import K, CLS

RULE = ("what is created separately stays separate: changing one message, recipient, signer or key, or a dictionary or list given to it, "
        "changes no other object; and signing, verifying, MACing, encrypting, decrypting and encoding leave headers, payload, external "
        "data and keys as they were, apart from content and ephemeral keys generated for the message")
EXPLAIN = ("Pairs of objects of every class are created and one of them changed through its public interface, and dictionaries given to "
           "constructors, factories and setters are changed afterwards or compared with what they were; the abstract heap decides "
           "whether anything is shared.  The operations of every class are analysed on messages with arbitrary header values and keys; the "
           "public state after completion and after refusal is compared with the state before.")
H = "pycose.headers."
MSG = {"Sign1Message": {}, "SignMessage": {}, "Mac0Message": {}, "MacMessage": {}, "Enc0Message": {}, "EncMessage": {}}
BASE = ["pycose.messages." + x for x in sorted(MSG)] + ["pycose.messages.signer.CoseSignature"] + [RCPT + x for x in sorted(set(RCPT_OF.values()))]


def short(dotted):
    return dotted.rsplit(".", 1)[-1]


def flat(t):
    """one form of a sequence copied from another"""
    if t.op == "gamma":
        return as_term(tuple((g, flat(x)) for g, x in t.args[0]))
    if t.op not in ("list", "tuple"):
        return t
    if len(t.args) == 1 and isinstance(t.args[0], Term) and t.args[0].op == "star" and t.args[0].args[0].op == "gamma":
        return as_term(tuple((g, flat(T("list", T("star", x)))) for g, x in t.args[0].args[0].args[0]))
    out = []
    for x in t.args:
        if isinstance(x, Term) and x.op == "star" and isinstance(x.args[0], Term) and x.args[0].op in ("list", "tuple"):
            out.extend(flat(x.args[0]).args)
        else:
            out.append(x)
    return T("list", *out)


def snap(c, obj, nm, narrow=False):
    if nm == "key_ops":
        t, pc = c.spec("attr_tuple", obj, const(nm))
        return flat(t)
    v, s2 = c.I.getter(c.st, one(obj), nm)
    if narrow and sat(s2.pc):
        c.st.pc = s2.pc      # the attribute exists
    return c.I.snapv(c.st, v)


def names_of(cls):
    out = ["phdr", "uhdr", "local_attrs", "payload"]
    if cls != "SignMessage":
        out.append("external_aad")
    return out


def run(lab, rep, tier):
    n = construction(lab, rep) + given(lab, rep) + keys(lab, rep) + label_forms(lab, rep) + operations(lab, rep)
    rep.floor("states compared", n, 400)


# ------------------------------------------------------------- separate objects

def construction(lab, rep):
    n = 0
    KID = lab.name(H + "KID")
    for dotted in BASE:
        cls = short(dotted)

        def changes(c, a):
            yield "phdr_update", lambda: c.callm(a, "phdr_update", c.dict([(KID, sym("kid", "bytes"))]))
            yield "uhdr_update", lambda: c.callm(a, "uhdr_update", c.dict([(KID, sym("kid", "bytes"))]))
            yield "phdr item", lambda: c.setitem(c.get1(a, "phdr"), KID, sym("kid", "bytes"))
            yield "uhdr item", lambda: c.setitem(c.get1(a, "uhdr"), KID, sym("kid", "bytes"))
            yield "local_attrs", lambda: c.set(a, "local_attrs", c.dict([(lab.name(H + "StaticKey"), sym("static"))]))
            yield "local_attrs item", lambda: c.setitem(c.get1(a, "local_attrs"), lab.name(H + "StaticKey"), sym("static"))
            yield "payload", lambda: c.set(a, "payload", sym("payload", "bytes"))
            if cls != "SignMessage":
                yield "external_aad", lambda: c.set(a, "external_aad", sym("external_aad", "bytes"))
            if cls in ("MacMessage", "EncMessage") or dotted.startswith(RCPT):
                yield "recipients", lambda: c.callm(c.get1(a, "recipients"), "append", rcpt_for(c, "direct"))
            if cls == "SignMessage":
                yield "signers", lambda: c.callm(c.get1(a, "signers"), "append", c.new("pycose.messages.signer.CoseSignature"))
        attrs = names_of(cls)
        more = []
        if cls in ("MacMessage", "EncMessage") or dotted.startswith(RCPT):
            more.append("recipients")
        if cls == "SignMessage":
            more.append("signers")
        k = 0
        while True:
            c = lab.ctx()
            what = "%s: change %d" % (cls, k)
            stop = False
            with rep.case(what):
                a, b = c.new(dotted), c.new(dotted)
                pre = {x: snap(c, b, x) for x in attrs + more}
                ch = list(changes(c, a))
                if k >= len(ch):
                    stop = True
                else:
                    nm, f = ch[k]
                    f()
                    for who, o in (("another", b), ("a later", c.new(dotted))):
                        for x in attrs + more:
                            n += 1
                            rep.same(snap(c, o, x), pre[x], c.st.pc, "shared|%s|%s" % (cls, x),
                                     "%s: %s of one object leaves %s of %s object alone" % (cls, nm, x, who))
            if stop or k > 20:
                break
            k += 1
    return n


# ------------------------------------------------------------- what the caller gave

def entries(lab, c, form):
    A, KID, IV = (lab.name(H + x) for x in ("Algorithm", "KID", "IV"))
    kid, x = sym("kid", "bytes"), sym("custom")
    if form == "class":
        return [(A, algterm(lab, -7)), (KID, kid), (const("custom"), x)]
    if form == "id":
        return [(const(1), const(-7)), (const(4), kid), (const(-70000), x)]
    return [(const("ALG"), const("ES256")), (const("KID"), kid), (const("custom"), x)]


def given(lab, rep):
    n = 0
    IV = lab.name(H + "IV")
    for dotted in BASE:
        cls = short(dotted)
        for b in ("phdr", "uhdr"):
            for how in ("constructor", "setter", "update"):
                for form in ("class", "id", "name") if how == "constructor" else ("class",):
                    what = "%s: %s given to the %s, labels by %s" % (cls, b, how, form)
                    key = "given|%s|%s|%s" % (cls, b, how)
                    with rep.case(what):
                        c = lab.ctx()
                        d = c.dict(entries(lab, c, form))
                        pre = c.I.snapshot(c.st, d)
                        if how == "constructor":
                            m = c.new(dotted, **{b: d})
                        else:
                            m = c.new(dotted)
                            if how == "setter":
                                c.set(m, b, d)
                            else:
                                c.callm(m, b + "_update", d)
                        rep.same(c.I.snapshot(c.st, d), pre, c.st.pc, key, what + ": left as given")
                        have = snap(c, m, b)
                        n += 3
                        # the caller goes on with its dictionary
                        f = c.fork()
                        f.setitem(d, IV, sym("iv", "bytes"))
                        rep.same(snap(f, m, b), have, f.st.pc, key, what + ": later changes of it do not reach the message")
                        # the message goes on
                        f = c.fork()
                        f.callm(m, b + "_update", f.dict([(IV, sym("iv", "bytes"))]))
                        rep.same(f.I.snapshot(f.st, d), pre, f.st.pc, key, what + ": later changes of the message do not reach it")
                        f = c.fork()
                        f.setitem(f.get1(m, b), IV, sym("iv", "bytes"))
                        rep.same(f.I.snapshot(f.st, d), pre, f.st.pc, key, what + ": later changes of the message do not reach it")
        with rep.case("%s: dictionary shared by two objects" % cls):
            for b in ("phdr", "uhdr"):
                for how in ("constructor", "setter"):
                    c = lab.ctx()
                    d = c.dict(entries(lab, c, "class"))
                    if how == "constructor":
                        m1, m2 = c.new(dotted, **{b: d}), c.new(dotted, **{b: d})
                    else:
                        m1, m2 = c.new(dotted), c.new(dotted)
                        c.set(m1, b, d)
                        c.set(m2, b, d)
                    have = snap(c, m2, b)
                    c.setitem(c.get1(m1, b), IV, sym("iv", "bytes"))
                    n += 1
                    rep.same(snap(c, m2, b), have, c.st.pc, "given|%s|%s|%s" % (cls, b, how),
                             "%s: two objects created from one %s dictionary (%s) are separate" % (cls, b, how))
        # the setters copy what is inside the dictionary, too
        for b in ("phdr", "uhdr"):
            what = "%s: value inside a dictionary given to the %s setter" % (cls, b)
            key = "given|%s|%s|nested" % (cls, b)
            with rep.case(what):
                c = lab.ctx()
                crit, inner = c.list(lab.name(H + "Algorithm")), c.dict([(const("x"), sym("custom"))])
                k = ctor(lab, c, "Symmetric")
                d = c.dict(entries(lab, c, "class") + [(lab.name(H + "Critical"), crit), (const("inner"), inner), (const("key"), k)])
                m, m2 = c.new(dotted), c.new(dotted)
                c.set(m, b, d)
                c.set(m2, b, d)
                have = snap(c, m2, b)
                hkid = snap(c, c.getitem1(c.get1(m2, b), const("key")), "kid")
                for j, ch in enumerate((
                        lambda f: f.callm(crit, "append", IV),
                        lambda f: f.setitem(inner, const("x"), sym("other")),
                        lambda f: f.set(k, "kid", sym("kid9", "bytes")),
                        lambda f: f.callm(f.getitem1(f.get1(m, b), lab.name(H + "Critical")), "append", IV),
                        lambda f: f.setitem(f.getitem1(f.get1(m, b), const("inner")), const("x"), sym("other")),
                        lambda f: f.set(f.getitem1(f.get1(m, b), const("key")), "kid", sym("kid9", "bytes")))):
                    f = c.fork()
                    ch(f)
                    n += 2
                    w = what + (": changing it reaches the message" if j < 3 else ": changing it in one message reaches another")
                    rep.same(snap(f, m2, b), have, f.st.pc, key, w)
                    rep.same(snap(f, f.getitem1(f.get1(m2, b), const("key")), "kid"), hkid, f.st.pc, key, w)
    for cls in ("MacMessage", "EncMessage"):
        for how in ("constructor", "setter"):
            what = "%s: recipients given to the %s" % (cls, how)
            with rep.case(what):
                c = lab.ctx()
                r1, r2 = rcpt_for(c, "direct", "r1"), rcpt_for(c, "direct", "r2")
                lst = c.list(r1)
                if how == "constructor":
                    m = c.new("pycose.messages." + cls, recipients=lst)
                else:
                    m = c.new("pycose.messages." + cls)
                    c.set(m, "recipients", lst)
                n += 2
                f = c.fork()
                f.callm(lst, "append", r2)
                same_list(rep, f, m, [r1], "given|%s|recipients" % cls, what + ": later changes of the list do not reach the message")
                f = c.fork()
                f.callm(f.get1(m, "recipients"), "append", r2)
                t, pc = f.spec("length", lst)
                rep.same(t, const(1), pc, "given|%s|recipients" % cls, what + ": later changes of the message do not reach the list")
    return n


def same_list(rep, c, m, want, key, what):
    t, pc = c.spec("length", c.get(m, "recipients"))
    rep.same(t, const(len(want)), pc, key, what)


# ------------------------------------------------------------- keys

def key_items(lab, c, kt, extra=True):
    D, X, Y = sym("d", "bytes"), sym("x", "bytes"), sym("y", "bytes")
    P = "pycose.keys.keyparam."
    items = [(const(1), const({"OKP": 1, "EC2": 2, "RSA": 3, "Symmetric": 4}[kt]))]
    if kt == "EC2":
        items += [(const(-1), const(1)), (const(-4), D)]
        extsig.LENS[D] = 32
    elif kt == "OKP":
        items += [(const(-1), const(6)), (const(-4), D)]
        extsig.LENS[D] = 32
    elif kt == "RSA":
        items += [(const(-1), X), (const(-2), Y)]
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(X)), B.Not(g_empty(Y)))
    else:
        items += [(const(-1), D)]
        extsig.LENS[D] = 16
    if extra:
        items += [(const(2), sym("kid", "bytes")), (const(-70000), sym("unknown"))]
    return items


def ctor(lab, c, kt, opt=None):
    kw = {}
    if opt is not None:
        kw["optional_params"] = opt
    D, X, Y = sym("d", "bytes"), sym("x", "bytes"), sym("y", "bytes")
    if kt == "EC2":
        extsig.LENS[D] = 32
        return c.new(K + "EC2Key", lab.name(K + "curves.P256"), d=D, **kw)
    if kt == "OKP":
        extsig.LENS[D] = 32
        return c.new(K + "OKPKey", lab.name(K + "curves.Ed25519"), d=D, **kw)
    if kt == "RSA":
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(X)), B.Not(g_empty(Y)))
        return c.new(K + "RSAKey", X, Y, **kw)
    extsig.LENS[D] = 16
    return c.new(K + "SymmetricKey", D, **kw)


def key_state(c, k):
    out = {}
    for nm in ("kid", "alg", "key_ops", "base_iv", "kty"):
        out[nm] = snap(c, k, nm)
    return out


def keys(lab, rep):
    n = 0
    KP = "pycose.keys.keyparam."
    KID, OPS, BIV, ALG = (lab.name(KP + x) for x in ("KpKid", "KpKeyOps", "KpBaseIV", "KpAlg"))
    op = lab.name("pycose.keys.keyops.SignOp")
    for kt in CLS:
        # separate keys
        def changes(c, a, op=op):
            yield "kid", lambda: c.set(a, "kid", sym("kid", "bytes"))
            yield "item", lambda: c.setitem(a, BIV, sym("biv", "bytes"))
            yield "key_ops list", lambda: c.callm(c.get1(a, "key_ops"), "append", op)
        for k in range(3):
            what = "%s: separate keys, change %d" % (CLS[kt], k)
            with rep.case(what):
                c = lab.ctx()
                a, b = ctor(lab, c, kt), ctor(lab, c, kt)
                pre = key_state(c, b)
                nm, f = list(changes(c, a))[k]
                f()
                for who, o in (("another", b), ("a later", ctor(lab, c, kt))):
                    post = key_state(c, o)
                    for x in pre:
                        n += 1
                        rep.same(post[x], pre[x], c.st.pc, "shared|%s|%s" % (CLS[kt], x),
                                 "%s: %s of one key leaves %s of %s key alone" % (CLS[kt], nm, x, who))
        # dictionaries given
        for how in ("from_dict", "optional_params"):
            what = "%s: dictionary given to %s" % (CLS[kt], how)
            key = "given|%s|%s" % (CLS[kt], how)
            with rep.case(what):
                c = lab.ctx()
                ops = c.list(op if how == "optional_params" else const(1 if kt != "Symmetric" else 9))
                items = key_items(lab, c, kt) if how == "from_dict" else [(KID, sym("kid", "bytes")), (const(-70000), sym("unknown"))]
                items.append((const(4) if how == "from_dict" else OPS, ops))
                d = c.dict(items)
                pre = c.I.snapshot(c.st, d)
                if how == "from_dict":
                    k = single(c.callm(lab.name(K + "CoseKey"), "from_dict", d))
                else:
                    k = ctor(lab, c, kt, d)
                if k is None:
                    rep.undecided(what)
                    continue
                n += 3
                rep.same(c.I.snapshot(c.st, d), pre, c.st.pc, key, what + ": left as given")
                have = key_state(c, k)
                f = c.fork()
                f.setitem(d, const(5), sym("biv", "bytes"))
                f.setitem(d, KID, sym("kid2", "bytes"))
                f.setitem(d, const(2), sym("kid2", "bytes"))
                post = key_state(f, k)
                for x in have:
                    rep.same(post[x], have[x], f.st.pc, key, "%s: later changes of it do not reach %s of the key" % (what, x))
                f = c.fork()
                f.callm(ops, "append", const(2) if how == "from_dict" else lab.name("pycose.keys.keyops.VerifyOp"))
                rep.same(key_state(f, k)["key_ops"], have["key_ops"], f.st.pc, key, what + ": later changes of the list of operations do not reach the key")
                f = c.fork()
                f.set(k, "kid", sym("kid3", "bytes"))
                f.setitem(k, BIV, sym("biv", "bytes"))
                rep.same(f.I.snapshot(f.st, d), pre, f.st.pc, key, what + ": later changes of the key do not reach it")
    return n


def label_forms(lab, rep):
    """from_dict leaves the dictionary as given, however its entries are labelled and whether or not it accepts them."""
    n = 0
    KP = "pycose.keys.keyparam."
    PRE = {"EC2": "EC2Kp", "OKP": "OKPKp", "RSA": "RSAKp", "Symmetric": "SymKp"}
    OF = {1: "KpKty", 2: "KpKid", 4: "KpKeyOps"}
    IN = {("EC2", -1): "EC2KpCurve", ("OKP", -1): "OKPKpCurve", ("EC2", -4): "EC2KpD", ("OKP", -4): "OKPKpD", ("RSA", -1): "RSAKpN", ("RSA", -2): "RSAKpE",
          ("Symmetric", -1): "SymKpK"}
    for kt in CLS:
        for form in ("name", "class", "type by name", "type by class"):
            for entry in ("CoseKey", CLS[kt]):
                what = "%s.from_dict of a dictionary of a %s, labels by %s" % (entry, CLS[kt], form)
                key = "given|%s.from_dict|%s" % (entry, form)
                with rep.case(what):
                    c = lab.ctx()
                    items = []
                    for k, v in key_items(lab, c, kt) + [(const(4), c.list(const(1 if kt != "Symmetric" else 9)))]:
                        i = cval(k)
                        nm = OF.get(i) or IN.get((kt, i))
                        if nm is None or form.startswith("type") and i != 1:
                            items.append((k, v))
                            continue
                        C = lab.name(KP + nm)
                        items.append((C if form.endswith("class") else single(c.I.getattr_val(c.st, one(C), "fullname", None)), v))
                    d = c.dict(items)
                    pre = c.I.snapshot(c.st, d)
                    r = c.run(lab.name(K + entry), "from_dict", d)
                    outs = [(r.pc, r.state.heap)] if r.pc != FALSE else []
                    outs += [(e[0], e[2]) for e in r.raises if e[2] is not None]
                    for g, heap in outs:
                        if not sat(g):
                            continue
                        st = c.st.copy()
                        st.heap, st.pc = heap, g
                        n += 1
                        rep.same(c.I.snapshot(st, d), pre, g, key, what + ": left as given")
    return n


# ------------------------------------------------------------- operations

KEYATTR = {"EC2": ["d", "x", "y", "crv"], "OKP": ["d", "x", "crv"], "RSA": ["n", "e", "d", "p", "q", "dp", "dq", "qinv"], "Symmetric": ["k"]}


HEADERS = ["full"]


def build(lab, c, cls, i, **kw):
    """A message as a user builds it, with arbitrary values."""
    A, KID, IV, CT = (lab.name(H + x) for x in ("Algorithm", "KID", "IV", "ContentType"))
    ph = [(A, algterm(lab, i)), (KID, sym("kid", "bytes")), (const("custom"), sym("custom"))] if i is not None else [(KID, sym("kid", "bytes"))]
    uh = [(const(-70000), sym("unknown"))]
    if HEADERS[0] != "full":
        ph, uh = [x for x in ph if x[0] is A], []
        if HEADERS[0] == "unprotected":
            ph, uh = uh, ph
    if iana.ALGS.get(i, ("", ""))[1] in ("gcm", "ccm"):
        iv = sym("iv", "bytes")
        extsig.LENS[iv] = 12 if iana.ALGS[i][1] == "gcm" else 13
        uh.append((IV, iv))
    return c.new(cls, phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"), **kw)


def public(c, objs, narrow=False):
    out = {}
    for nm, o, kind in objs:
        if kind in KEYATTR:
            for a in KEYATTR[kind] + ["kid", "alg", "key_ops", "base_iv"]:
                out["%s.%s" % (nm, a)] = snap(c, o, a, narrow)
        else:
            for a in kind:
                out["%s.%s" % (nm, a)] = snap(c, o, a)
    return out


def cases(lab):
    hd = ("phdr", "uhdr", "payload")
    ha = hd + ("external_aad",)
    for i, nm, par in iana.algs("sig"):
        for kc, cv in sig_keys(lab, i)[:1]:
            kind = {"EC2Key": "EC2", "OKPKey": "OKP", "RSAKey": "RSA"}[short(kc)]
            for op in ("compute_signature", "verify_signature", "encode"):
                def f(c, i=i, kc=kc, cv=cv):
                    m = build(lab, c, "pycose.messages.Sign1Message", i, external_aad=sym("external_aad", "bytes"))
                    k = sig_key(c, kc, cv)
                    c.set(m, "key", k)
                    return m, (), [("message", m, ha), ("key", k, kind)]
                yield "Sign1Message.%s[%s]" % (op, nm), op, f, None
                for who in ("signer", "message"):
                    if (who == "message") != (op == "encode"):
                        continue

                    def h(c, i=i, kc=kc, cv=cv, who=who):
                        A = lab.name(H + "Algorithm")
                        k = sig_key(c, kc, cv)
                        ph, uh = [(A, algterm(lab, i)), (const("custom"), sym("custom"))], [(lab.name(H + "KID"), sym("kid2", "bytes"))]
                        if HEADERS[0] != "full":
                            ph, uh = (ph[:1], []) if HEADERS[0] == "bare" else ([], ph[:1])
                        s = c.new("pycose.messages.signer.CoseSignature", phdr=c.dict(ph), uhdr=c.dict(uh), external_aad=sym("external_aad", "bytes"), key=k)
                        m = build(lab, c, "pycose.messages.SignMessage", None, signers=c.list(s))
                        objs = [("message", m, hd), ("signer", s, ("phdr", "uhdr", "external_aad")), ("key", k, kind)]
                        return (m if who == "message" else s), (), objs
                    yield "%s.%s[%s]" % ("SignMessage" if who == "message" else "CoseSignature", op, nm), op, h, None
    for i, nm, par in iana.algs("hmac", "aesmac"):
        for op in ("compute_tag", "verify_tag", "encode"):
            for cls in ("Mac0Message", "MacMessage"):
                def f(c, i=i, cls=cls):
                    extsig.DUMPS_LEN[0] = 64
                    kw = {}
                    objs = []
                    if cls == "MacMessage":
                        rc = rcpt_for(c, "direct")
                        kw["recipients"] = c.list(rc)
                        objs.append(("recipient", rc, hd))
                    m = build(lab, c, "pycose.messages." + cls, i, external_aad=sym("external_aad", "bytes"), **kw)
                    k = sym_key(c)
                    c.set(m, "key", k)
                    return m, (), objs + [("message", m, ha), ("key", k, "Symmetric")]
                yield "%s.%s[%s]" % (cls, op, nm), op, f, None
    for i, nm, par in list(iana.algs("gcm")) + list(iana.algs("ccm"))[:2]:
        for op in ("encrypt", "decrypt", "encode"):
            for cls in ("Enc0Message", "EncMessage"):
                def f(c, i=i, cls=cls, op=op):
                    kw = {}
                    objs = []
                    args = ()
                    if cls == "EncMessage":
                        rc = rcpt_for(c, "direct")
                        kw["recipients"] = c.list(rc)
                        objs.append(("recipient", rc, hd))
                        args = (rc,) if op == "decrypt" else ()
                    m = build(lab, c, "pycose.messages." + cls, i, external_aad=sym("external_aad", "bytes"), **kw)
                    k = sym_key(c)
                    c.set(m, "key", k)
                    return m, args, objs + [("message", m, ha), ("key", k, "Symmetric")]
                yield "%s.%s[%s]" % (cls, op, nm), op, f, None
    # recipients with keys of their own: message headers and recipient keys
    for kind, keyk in (("aeskw", "Symmetric"), ("oaep", "RSA"), ("ecdhdirect", "EC2"), ("ecdhkw", "EC2")):
        for cls, i in (("EncMessage", 1), ("MacMessage", 5)):
            for op in (("encode", "decrypt") if cls == "EncMessage" else ("encode",)):
                def f(c, kind=kind, keyk=keyk, cls=cls, i=i, op=op):
                    objs = []
                    if op == "encode":
                        rc = rcpt_for(c, kind)
                        if kind in ("aeskw", "oaep"):
                            objs.append(("recipient", rc, ("phdr", "uhdr")))
                    else:
                        rc = rx_recipient(c, kind)
                        objs.append(("recipient", rc, ("phdr", "uhdr", "payload")))
                    k = single(c.get(rc, "key"))
                    m = build(lab, c, "pycose.messages." + cls, i, external_aad=sym("external_aad", "bytes"), recipients=c.list(rc))
                    if k is not None:
                        objs.append(("recipient key", k, keyk))
                    return m, ((rc,) if op == "decrypt" else ()), objs + [("message", m, ha)]
                yield "%s.%s via %s" % (cls, op, kind), op, f, None


def operations(lab, rep):
    n = 0
    for how in ("full", "bare", "unprotected"):
        HEADERS[0] = how
        for label, op, f, _ in cases(lab):
            n += one_operation(lab, rep, label if how == "full" else "%s, %s headers" % (label, how), op, f)
    HEADERS[0] = "full"
    return n


def one_operation(lab, rep, label, op, f):
    n = 0
    if True:
        with rep.case(label):
            c = lab.ctx()
            m, args, objs = f(c)
            pre = public(c, objs, True)
            r = c.run(m, op, *args)
            extsig.DUMPS_LEN[0] = None
            if op.startswith(("verify", "decrypt")) and r.pc != FALSE and sat(r.pc):
                extsig.DUMPS_LEN[0] = 64
                c3 = Ctx(lab, r.state.copy())
                c3.st.pc = r.pc
                r2 = c3.run(m, op, *args)
                extsig.DUMPS_LEN[0] = None
                n += 2
                if r2.pc == FALSE:
                    rep.undecided(label + ": repeated")
                else:
                    rep.same(as_term(r2.value, r2.pc), as_term(r.value, r.pc), r2.pc, "repeated|" + label.split("[")[0],
                             label + ": repeated with the same result")
                    ok_guard(rep, B.And(r.pc, B.Not(r2.pc)), "repeated|" + label.split("[")[0], label + ": can be repeated")
            outs = []
            if r.pc != FALSE and sat(r.pc):
                outs.append(("completion", r.pc, r.state.heap))
            for e in r.raises:
                if sat(e[0]):
                    outs.append(("refusal", e[0], e[2]))
            if not outs:
                rep.undecided(label)
                return n
            for kind, pc, heap in outs[:8]:
                c2 = Ctx(lab, State(pc, {}, dict(heap)))
                post = public(c2, objs)
                for a in pre:
                    n += 1
                    rep.same(post[a], pre[a], pc, "changed|%s|%s" % (label.split("[")[0], a),
                             "%s: %s is as before after %s" % (label, a, kind))
        extsig.DUMPS_LEN[0] = None
    return n
