"""C23: representations and diagnostics do not disclose key material or content."""
from .common import *      # noqa
from .c20 import K, CLS, made, bsym
from .c21 import params, label, ATTR
from . import c05

RULE = ("repr() of a key, message, recipient or signer can be produced in every state, and of each private key value, symmetric key, "
        "payload, and secret held by a contained key it shows at most eight bytes; no exception raised and nothing printed, logged "
        "or warned about by an operation on a key or with a key contains such a value")
EXPLAIN = ("The representation methods of the key classes are analysed on keys with all their parameters, however they were set, those "
           "of the message classes on messages with keys, headers holding keys, recipients and signers; every occurrence of a secret "
           "in the resulting string has to lie under a constant slice or a length.  The operands of all exceptions, and of calls of "
           "print, logging and warnings, reached by the operations of every algorithm, by constructors, setters and from_dict, are "
           "searched in the same way.")
SECRET = {"EC2": ["d"], "OKP": ["d"], "RSA": ["d", "p", "q", "dp", "dq", "qinv", "other", "r_i", "d_i", "t_i"], "Symmetric": ["k"]}
LIMIT = 8
SINKS = ("builtins.print", "logging.", "warnings.", "sys.stdout", "sys.stderr", "syslog.", "traceback.")
LOGMETH = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log", "write"}


def cut(x):
    """how many elements a slice or an item shows at most; None: unbounded"""
    if x.op == "item":
        return 1
    if x.op != "slice":
        return None
    a, b, s = x.args[1:4] if len(x.args) > 3 else (x.args[1], x.args[2], NONE)
    num = lambda t: t is NONE or (is_const(t) and isinstance(cval(t), int))
    if not (num(a) and num(b) and num(s)):
        return None
    lo, hi = (0 if a is NONE else cval(a)), (None if b is NONE else cval(b))
    if hi is not None and hi >= 0 and lo >= 0:
        return max(0, hi - lo)
    if lo < 0 and (hi is None or hi < 0):
        return max(0, (0 if hi is None else hi) - lo)
    return None


def shown(t, secrets, pc, lab):
    """{secret: bytes shown (None = all)}, lost?"""
    out, lost, seen = {}, [], set()
    holders = {x.args[0] for x in secrets if x.op in ("item", "get") and isinstance(x.args[0], Term)}
    READS = ("item", "get", "in", "keys", "key", "len", "has")

    def add(s, n, g, piece):
        out.setdefault(s, {})[piece] = (n, g)

    def go(x, g):
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Term, tuple)):
                    go(y, g)
            return
        if (x.id, g) in seen:
            return
        seen.add((x.id, g))
        if x in secrets or x in holders:
            add(x, None, g, x)
            return
        if x.op in READS and x.args and x.args[0] in holders:
            go(x.args[1:], g)
            return
        if x.op == "top":
            lost.append(g)
            return
        if x.op == "gamma":
            for gg, y in x.args[0]:
                q = B.And(g, gg)
                if sat(q):
                    go(y, q)
            return
        n = cut(x)
        if n is not None:
            base = x.args[0]
            for gg, b in from_term(base):
                if b in secrets and sat(B.And(g, gg)):
                    add(b, n, B.And(g, gg), x)
                elif b not in secrets:
                    go(b, B.And(g, gg))
            return
        if x.op == "len" or x.op == "ty":
            return
        if x.op == "call":
            nm = short_name(x.args[0])
            if nm in MAKES_SECRET:
                add(x, None, g, x)
                return
            if nm in ("len", "isinstance", "type", "bool", "id"):
                return
            if x.args[0].op == "ext" and x.args[0].args[0].startswith(CRYPTO):
                return
            if x.args[0].op in ("attr", "meth") and extsig.ctor_names(x.args[0].args[0]):
                return
        if x.op == "attr" and x.args[1] in SECRET_ATTR:
            add(x, None, g, x)
            return
        for a in x.args:
            if isinstance(a, (Term, tuple)):
                go(a, g)
    go(t, pc)
    res = {}
    for s, pieces in out.items():
        tot = 0
        for p, (n, g) in pieces.items():
            tot = None if n is None or tot is None else tot + n
        res[s] = (tot, B.Or(*[g for n, g in pieces.values()]))
    return res, lost


def judge(rep, what, key, where, t, secrets, pc, lab):
    res, lost = shown(t, secrets, pc, lab)
    bad = [(s, n) for s, (n, g) in res.items() if (n is None or n > LIMIT) and sat(g) and not imprecise(g)]
    if bad:
        rep.bad(key, what, where, "; ".join("%s in full" % show(s)[:60] if n is None else "%d bytes of %s" % (n, show(s)[:60])
                                            for s, n in bad[:4]))
    elif lost or any((n is None or n > LIMIT) for n, g in res.values()):
        rep.undecided(what)
    else:
        rep.ok(what)


def representations(lab, rep, c, obj, what, key, secrets, where, total=True):
    I = lab.I
    for meth in ("__repr__", "__str__", "__format__"):
        o = c.st.heap.get(obj)
        cls = o.cls if o is not None and hasattr(o, "cls") else TYPES.get(obj, "")[5:]
        if not cls or I.class_lookup(c.st, cls, meth) is None:
            continue
        args = (const(""),) if meth == "__format__" else ()
        r = c.fork().run(obj, meth, *args)
        w = "%s of %s" % (meth.strip("_"), what)
        if sat(r.pc):
            judge(rep, w + " shows at most %d bytes of a secret" % LIMIT, "repr|" + key, where, as_term(r.value, r.pc), secrets, r.pc, lab)
            sinks(lab, rep, r, w, key, secrets)
        if not total:
            continue
        g = B.Or(*[e[0] for e in r.raises]) if r.raises else FALSE
        w += " can be produced"
        if not sat(g):
            rep.ok(w)
        elif imprecise(g) or sat(r.pc) and has_top(as_term(r.value, r.pc)):
            rep.undecided(w)
        else:
            rep.bad("repr-raises|" + key, w, where, "; ".join("%s under %s" % (n, showg(q)[:150]) for n, q in c.raised(r).items() if sat(q)))


def args_of(lab, e):
    pc, env, heap, exc = e[:4]
    if exc.op == "obj":
        o = heap.get(exc)
        vals = []
        for v in (o.fields.values() if o is not None else ()):
            vals.append(v)
        return vals
    if exc.op != "call":
        return [((TRUE, exc),)]
    out = []

    def flat(a):
        if isinstance(a, Term):
            out.append(((TRUE, a),))
        elif isinstance(a, tuple):
            for x in a:
                flat(x)
    for a in exc.args[1:]:
        flat(a)
    return out


def diagnostics(lab, rep, r, what, key, secrets, where=""):
    """the exceptions leaving a run, and what was printed or logged on the way"""
    n = 0
    from ..engine import State
    for e in r.raises:
        pc, env, heap, exc, node, mod, stack = e[:7]
        if not sat(pc):
            continue
        st = State(pc, {}, heap)
        for v in args_of(lab, e):
            n += 1
            t = lab.I.snapv(st, tuple((g, x) for g, x in v))
            w = "%s: the %s raised in %s names no secret" % (what, lab.I.exc_name(exc), (stack or ["?"])[-1] if not isinstance(stack, str) else stack)
            judge(rep, w, "raise|" + key, "%s:%s" % (mod, getattr(node, "lineno", "?")), t, secrets, pc, lab)
    sinks(lab, rep, r, what, key, secrets)
    return n


def sinks(lab, rep, r, what, key, secrets):
    for e in r.events:
        if e.kind != "call" or e.callee is None:
            continue
        cal = e.callee
        name = ""
        if cal.op == "ext":
            name = cal.args[0]
            hit = name.startswith(SINKS)
        elif cal.op in ("attr", "meth"):
            root = cal.args[0]
            while root.op in ("call", "attr", "meth"):
                root = root.args[0]
            hit = cal.args[1] in LOGMETH and root.op == "ext" and root.args[0].startswith(SINKS)
            name = cal.args[1]
        else:
            hit = False
        if not hit or not sat(e.pc):
            continue
        for a in list(e.args) + list(e.kw.values()):
            if isinstance(a, Term):
                judge(rep, "%s: %s shows no secret" % (what, name), "output|" + key, e.where(), a, secrets, e.pc, lab)


def secrets_of(c, obj, kt):
    out = set()
    for a in SECRET[kt]:
        for g, x in from_term(c.get1(obj, a)):
            if x.op not in ("const", "top") and sat(g):
                out.add(x)
    return out


def keys(lab, rep):
    for kt in CLS:
        for form in ("id", "name", "class"):
            for shape in ("private", "multi") if kt == "RSA" else ("private",):
                for via in ("from_dict", "assignment", "setter"):
                    if via != "from_dict" and (shape == "multi" and form != "id"):
                        continue
                    what = "%s (%s, labels by %s, by %s)" % (CLS[kt], shape, form, via)
                    with rep.case(what):
                        c = lab.ctx()
                        items, enc, att = params(lab, c, kt, form, shape)
                        r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict(items))
                        obj = made(r)
                        c2 = Ctx(lab, r.state)
                        c2.st.pc = r.pc
                        if not sat(r.pc):
                            rep.undecided(what)
                            continue
                        secrets = {v for a, v in att.items() if a in SECRET[kt]}
                        if via != "from_dict":
                            for i, a in ATTR[kt].items():
                                if a not in SECRET[kt] or a not in att:
                                    continue
                                v = sym("new_" + a, "list" if a == "other" else "bytes")
                                TYPES[v] = "list" if a == "other" else "bytes"
                                if a == "k":
                                    extsig.LENS[v] = 16
                                c2.st.pc = B.And(c2.st.pc, B.Not(g_empty(v)))
                                c3 = c2.fork()
                                rr = c3.run(obj, "__setitem__", label(lab, c3, kt, i, form), v) if via == "assignment" else \
                                    c3.runset(obj, a, v)
                                diagnostics(lab, rep, rr, what + ": setting " + a, CLS[kt], secrets | {v})
                                if not sat(rr.pc):
                                    continue
                                c4 = Ctx(lab, rr.state)
                                c4.st.pc = rr.pc
                                representations(lab, rep, c4, obj, what + " of " + a, CLS[kt], secrets | {v}, K + CLS[kt] + ".__repr__")
                        else:
                            representations(lab, rep, c2, obj, what, CLS[kt], secrets, K + CLS[kt] + ".__repr__")


def header_dict(c, lab, extra=()):
    H = "pycose.headers."
    iv = bsym("h_iv")
    items = [(lab.name(H + "Algorithm"), lab.name("pycose.algorithms.A128GCM")), (lab.name(H + "KID"), bsym("h_kid")),
             (lab.name(H + "IV"), iv)]
    return c.dict(items + list(extra))


def messages(lab, rep):
    M = "pycose.messages."
    H = lambda n: lab.name("pycose.headers." + n)
    for cls in ("Sign1Message", "SignMessage", "Mac0Message", "MacMessage", "Enc0Message", "EncMessage",
                "recipient.DirectEncryption", "recipient.KeyWrap", "recipient.DirectKeyAgreement", "recipient.KeyAgreementWithKeyWrap",
                "signer.CoseSignature"):
        for pl in ("bytes", "none"):
            for bucket in ("phdr", "uhdr"):
                what = "%s (payload %s, key in the %s)" % (cls.rsplit(".", 1)[-1], pl, bucket)
                with rep.case(what):
                    c = lab.ctx()
                    m = c.inst(M + cls, "msg")
                    payload = bsym("payload")
                    iv = bsym("h_iv")
                    eph = c.inst("pycose.keys.EC2Key", "eph")
                    H1 = [(H("KID"), bsym("h_kid")), (H("IV"), iv), (H("PartialIV"), bsym("h_piv"))]
                    with_key = [(H("EphemeralKey"), eph), (H("StaticKey"), c.inst("pycose.keys.OKPKey", "sta"))]
                    alg = [(H("Algorithm"), lab.name("pycose.algorithms.A128GCM"))]
                    c.set(m, "phdr", c.dict(alg + (H1 + with_key if bucket == "phdr" else [])))
                    c.set(m, "uhdr", c.dict(H1 + with_key if bucket == "uhdr" else []))
                    p = payload if pl == "bytes" else NONE
                    c.set(m, "payload", p)
                    secrets = {payload}
                    kcls = {"Sign1": "EC2", "CoseS": "EC2", "Direct": "Symmetric"}.get(cls.rsplit(".", 1)[-1][:5], "Symmetric")
                    for kc, o in (("EC2", eph),):
                        secrets |= secrets_of(c, o, kc)
                    if cls not in ("SignMessage",) and "Direct" not in cls:
                        k = c.inst("pycose.keys." + CLS["EC2" if "Sign" in cls or "Agree" in cls else kcls], "k")
                        c.set(m, "key", k)
                        secrets |= secrets_of(c, k, "EC2" if "Sign" in cls or "Agree" in cls else kcls)
                    if cls in ("MacMessage", "EncMessage") or cls.startswith("recipient."):
                        rc = c.inst(M + "recipient.KeyWrap", "inner")
                        c.set(rc, "payload", bsym("cek"))
                        c.set(m, "recipients", c.list(rc))
                        secrets.add(bsym("cek"))
                    if cls == "SignMessage":
                        s = c.inst(M + "signer.CoseSignature", "s1")
                        c.set(m, "signers", c.list(s))
                    representations(lab, rep, c, m, what, cls.rsplit(".", 1)[-1], secrets, M + cls + ".__repr__")


def operations(lab, rep, tier):
    n = 0
    KpAlg, KpOps = lab.name("pycose.keys.keyparam.KpAlg"), lab.name("pycose.keys.keyparam.KpKeyOps")
    for lbl, i, kc, curve, allowed, build, evf in c05.operations(lab):
        cname = lbl.split("[")[0]
        variants = [("a key", kc, None), ("a key for another algorithm", kc, "alg"), ("a key for other operations", kc, "ops")]
        variants += [("a %s key" % w, w, None) for w in CLS if w != kc]
        if tier != "thorough":
            variants = variants[:1] + variants[1:][abs(i) % 3::3]
        for vn, w, how in variants:
            what = "%s with %s" % (lbl, vn)
            with rep.case(what):
                c = lab.ctx()
                key = c05.setup_key(c, w, curve if w == kc else None)
                if how == "alg":
                    c.setitem(key, KpAlg, algterm(lab, 1 if i != 1 else -7))
                elif how == "ops":
                    c.setitem(key, KpOps, c.list(lab.name("pycose.keys.keyops.DeriveBitsOp" if "DeriveKeyOp" not in allowed else
                                                          "pycose.keys.keyops.SignOp")))
                secrets = secrets_of(c, key, w)
                try:
                    o, meth, args = build(c, key)
                except AnalysisError:
                    continue
                pl = sym("payload", "bytes")
                secrets.add(pl)
                r = c.run(o, meth, *args)
                extsig.DUMPS_LEN[0] = None
                n += diagnostics(lab, rep, r, what, cname, secrets)
    rep.floor("exceptions of operations", n, 100)


def creation(lab, rep):
    n = 0
    # constructors
    for kt in CLS:
        cname = CLS[kt]
        what = "%s(...)" % cname
        with rep.case(what):
            c = lab.ctx()
            cls = lab.name(K + cname)
            sec = {}
            if kt == "Symmetric":
                sec["k"] = sym("s_k")
                r = c.run(cls, "__call__", sec["k"])
            elif kt == "RSA":
                names = ["n", "e", "d", "p", "q", "dp", "dq", "qinv"]
                vals = {x: sym("s_" + x) for x in names}
                sec = {x: vals[x] for x in names[2:]}
                r = c.run(cls, "__call__", **vals)
            else:
                for a in ("d",):
                    sec[a] = sym("s_" + a)
                kw = dict(crv=lab.name(K + "curves." + ("P256" if kt == "EC2" else "Ed25519")), x=sym("s_x"), d=sec["d"])
                if kt == "EC2":
                    kw["y"] = sym("s_y")
                r = c.run(cls, "__call__", **kw)
            n += diagnostics(lab, rep, r, what, cname, set(sec.values()))
    # from_dict with arbitrary values
    for kt in CLS:
        for shape in ("private", "multi") if kt == "RSA" else ("private",):
            for i, a in ATTR[kt].items():
                if a not in SECRET[kt] or (shape == "private" and kt == "RSA" and i <= -9):
                    continue
                what = "from_dict of %s with an arbitrary %s" % (CLS[kt], a)
                with rep.case(what):
                    c = lab.ctx()
                    items, enc, att = params(lab, c, kt, "id", shape)
                    odd = sym("odd_" + a)
                    secrets = {v for b, v in att.items() if b in SECRET[kt]} | {odd}
                    items = [(k, odd if is_const(k) and cval(k) == i else v) for k, v in items]
                    r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict(items))
                    n += diagnostics(lab, rep, r, what, CLS[kt] + ".from_dict", secrets)
    # setters
    for kt in CLS:
        for i, a in ATTR[kt].items():
            if a not in SECRET[kt]:
                continue
            for how in ("setter", "assignment"):
                what = "%s.%s set by %s" % (CLS[kt], a, how)
                with rep.case(what):
                    c = lab.ctx()
                    k = c.inst(K + CLS[kt], "key")
                    v = sym("odd_" + a)
                    secrets = secrets_of(c, k, kt) | {v}
                    r = c.runset(k, a, v) if how == "setter" else c.run(k, "__setitem__", const(i), v)
                    n += diagnostics(lab, rep, r, what, CLS[kt] + "." + a, secrets)
    rep.floor("exceptions of constructors and setters", n, 20)


def sharing(lab, rep):
    """several recipients: content encryption keys"""
    n = 0
    for cls, algid in (("EncMessage", 1), ("MacMessage", 5)):
        for kinds in (("aeskw", "aeskw"), ("oaep", "aeskw"), ("direct",), ("ecdhkw", "aeskw"), ("ecdhdirect",)):
            what = "%s.encode for recipients %s" % (cls, "+".join(kinds))
            with rep.case(what):
                c, m = msg_ctx(lab, cls, algid)
                rs = [rcpt_for(c, k, "r%d" % j) for j, k in enumerate(kinds)]
                secrets = {sym("payload", "bytes")}
                for j, (k, rc) in enumerate(zip(kinds, rs)):
                    if k != "direct":
                        v = bsym("cek%d" % j)
                        secrets.add(v)
                        c.set(rc, "payload", v)
                    kc = {"aeskw": "Symmetric", "oaep": "RSA"}.get(k, "EC2")
                    if k != "direct":
                        secrets |= secrets_of(c, c.get1(rc, "key"), kc)
                c.set(m, "recipients", c.list(*rs))
                if kinds == ("direct",):
                    k = c.inst("pycose.keys.SymmetricKey", "key")
                    c.set(m, "key", k)
                    secrets |= secrets_of(c, k, "Symmetric")
                r = c.run(m, "encode")
                n += diagnostics(lab, rep, r, what, cls + ".encode", secrets)
    rep.floor("exceptions of messages with recipients", n, 20)


def run(lab, rep, tier):
    sharing(lab, rep)
    keys(lab, rep)
    messages(lab, rep)
    creation(lab, rep)
    operations(lab, rep, tier)
