"""C21: a key is what was put into it: decoding, encoding, attributes and mapping access agree."""
from .common import *      # noqa
from .c20 import K, KP, CLS, KTY_ID, bsym, made, RSAID, truth

RULE = ("from_dict / decode store every parameter under its own attribute and keep unknown labels; encode emits every parameter once, "
        "under its registered label, with the value the attribute has; attribute, label, name and class of a parameter always read "
        "and write one and the same entry")
EXPLAIN = ("from_dict, decode, encode, the attribute getters and setters and the mapping operations of the four key classes are "
           "analysed with every parameter present, with arbitrary values; the operand of the CBOR encoder is translated through the "
           "analysed encoding hook and compared with the map that went in.")
ATTR = {"EC2": {-2: "x", -3: "y", -4: "d"}, "OKP": {-2: "x", -4: "d"}, "RSA": {v: k for k, v in RSAID.items()}, "Symmetric": {-1: "k"}}
CRV = {"EC2": (1, "P256"), "OKP": (6, "Ed25519")}
COMMON = {2: "kid", 5: "base_iv"}
KNAME = {1: "KTY", 2: "KID", 3: "ALG", 4: "KEY_OPS", 5: "BASE_IV"}


def pclass(kt, i):
    t = iana.KEYPARAMS["KeyParam"] if i > 0 else iana.KEYPARAMS[kt + "KeyParam"]
    return KP + t[i]


def label(lab, c, kt, i, form):
    if form == "id":
        return const(i)
    cls = lab.name(pclass(kt, i))
    if form == "class":
        return cls
    n = c.get1(cls, "fullname")
    if form in ("lower", "upper"):
        # names are recognised in any letter case
        return const(getattr(n.args[1], form)()) if n.op == "const" else None
    return n


def params(lab, c, kt, form, shape, ops=True):
    """(items for from_dict, {label: expected encoded value}, {attribute: expected value})"""
    items, enc, att = [], {}, {}

    def put(i, v, e=None, attr=None, av=None):
        items.append((label(lab, c, kt, i, form), v))
        enc[i] = v if e is None else e
        if attr:
            att[attr] = v if av is None else av
    ref = form == "class"
    A = {"EC2": -7, "OKP": -8, "RSA": -37, "Symmetric": 5}[kt]
    O = {"Symmetric": 9}.get(kt, 1)
    put(1, lab.name(K + "keytype.Kty" + kt) if ref else const(KTY_ID[kt]), const(KTY_ID[kt]), "kty", lab.name(K + "keytype.Kty" + kt))
    if kt in CRV:
        cid, cn = CRV[kt]
        cv = lab.name(K + "curves." + cn)
        put(-1, cv if ref else const(cid), const(cid), "crv", cv)
    for i, a in ATTR[kt].items():
        if i < 0 and shape == "public" and a not in ("x", "y", "n", "e", "k"):
            continue
        if kt == "RSA" and shape == "private" and i <= -9:
            continue
        v = sym("p_" + a, "list" if a == "other" else "bytes")
        TYPES[v] = "list" if a == "other" else "bytes"
        if a == "k":
            extsig.LENS[v] = 16
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(v)))
        put(i, v, None, a)
    for i, a in COMMON.items():
        v = bsym("p_" + a)
        put(i, v, None, a)
    alg = lab.name("pycose.algorithms." + iana.ALGS[A][0])
    put(3, alg if ref else const(A), const(A), "alg", alg)
    if ops:
        op = lab.name(K + "keyops." + iana.KEYOPS[O])
        put(4, c.list(op if ref else const(O)), T("list", const(O)), "key_ops", T("list", op))
    for x, n in ((const(-70001), "extra"), (const("vendor"), "vendor")):
        v = sym("p_" + n)
        items.append((x, v))
        enc[cval(x)] = v
    return items, enc, att


class Lost(Exception):
    pass


def canon(c, t, hook, pc):
    """encoded form of a value: classes through the hook given to the encoder"""
    if t.op == "gamma":
        al = [(g, x) for g, x in t.args[0] if sat(B.And(pc, g))]
        return as_term(tuple((g, canon(c, x, hook, B.And(pc, g))) for g, x in al))
    if t.op == "class":
        if hook is None:
            raise Lost("no encoding hook")
        c2 = c.fork()
        c2.st.pc = pc
        e = sym("encoder", "inst:ext")
        r = c2.run(hook, "__call__", e, t)
        calls = [x for x in r.events if x.kind == "call" and x.callee is not None and x.callee.op in ("attr", "meth") and
                 x.callee.args[1] in ("encode", "encode_int") and x.callee.args[0] is e]
        if len(calls) != 1 or len(calls[0].args) != 1:
            raise Lost("encoding hook does not encode one value for %s" % show(t))
        return canon(c, calls[0].args[0], None, pc)
    if t.op in ("list", "tuple"):
        return T("list", *[canon(c, x, hook, pc) for x in t.args])
    return t


def encoded(c, obj):
    """[(guard, {label: value} with canonical labels, base)] of key.encode(), and its refusals"""
    r = c.run(obj, "encode")
    out = []
    if not sat(r.pc):
        return r, out
    for g, t in from_term(as_term(r.value, r.pc)):
        q = B.And(r.pc, g)
        if not sat(q):
            continue
        if t.op != "call" or t.args[0] is not ext("cbor2.dumps"):
            out.append((q, None, t))
            continue
        arg = t.args[1][0]
        hook = dict(t.args[2]).get("default")
        for h, d in from_term(arg):
            p = B.And(q, h)
            if not sat(p):
                continue
            if d.op != "dict":
                out.append((p, None, d))
                continue
            m, ok = [], True
            for kv in d.args[1:]:
                pres = TRUE
                if kv.op == "cseg":
                    pres, kv = kv.args
                if kv.op != "kv" or len(kv.args) != 2:
                    ok = False
                    break
                try:
                    k = canon(c, kv.args[0], hook, p)
                    m.append((k, pres, canon(c, kv.args[1], hook, p)))
                except Lost as e:
                    m.append((kv.args[0], pres, top(str(e))))
            out.append((p, m, d) if ok else (p, None, d))
    return r, out


def forms(lab, rep, tier):
    for kt in CLS:
        for shape in ("public", "private", "multi") if kt == "RSA" else ("public", "private") if kt != "Symmetric" else ("private",):
            for form in ("id", "class", "name"):
                for entry in ("CoseKey.from_dict", CLS[kt] + ".from_dict", "CoseKey.decode", CLS[kt] + ".decode"):
                    if "decode" in entry and form == "class" or form != "id" and entry.startswith(CLS[kt]):
                        continue
                    for ops in (True, False) if form == "id" else (True,):
                        one_form(lab, rep, kt, shape, form, entry, ops)


def start(lab, c, kt, items, entry):
    cls, m = entry.split(".")
    if m == "from_dict":
        return c.run(lab.name(K + cls), m, c.dict(items))
    b = bsym("received")
    L = T("call", ext("cbor2.loads"), (b,), ())
    TYPES[L] = "dict"
    c.st.heap[L] = DObj(None, {k: (TRUE, one(v) if isinstance(v, Term) else v) for k, v in items})
    return c.run(lab.name(K + cls), m, b)


def one_form(lab, rep, kt, shape, form, entry, ops):
    what = "%s, %s %s key, labels by %s%s" % (entry, shape, kt, form, "" if ops else ", no operations")
    key = "%s|%s" % (kt, entry.replace(CLS[kt], "Key"))
    where = K + CLS[kt]
    with rep.case(what):
        c = lab.ctx()
        items, enc, att = params(lab, c, kt, form, shape, ops)
        r = start(lab, c, kt, items, entry)
        obj = made(r)
        if obj is None:
            (rep.undecided if any(imprecise(g) for g in c.raised(r).values()) else lambda w: rep.bad(key + "|refused", w, where))(
                what + ": a complete key is accepted")
            return
        c2 = Ctx(lab, r.state)
        c2.st.pc = r.pc
        for g, o in from_term(obj):
            q = B.And(r.pc, g)
            if sat(q):
                ok = o.op == "obj" and o.args[1] == lab.q(K + CLS[kt])
                rep.check(ok or (None if has_top(o) else False), key + "|class", what + ": class", where, show(o)[:100])
        for a, v in att.items():
            t = c2.get1(obj, a)
            if a == "key_ops":
                t, _ = c2.spec("as_tuple", t)
                v = T("tuple", *v.args)
            rep.same(t, v, c2.st.pc, "%s|attribute %s" % (key, a), "%s: %s" % (what, a), where + "." + a)
        # entry read through the mapping interface
        for i in enc:
            if isinstance(i, int) and i > -70000 and i not in (1, 3, 4) and not (i == -1 and kt in CRV):
                for f2 in ("id", "class", "name"):
                    read(rep, lab, c2, obj, kt, i, f2, enc[i], key, what)
            elif not isinstance(i, int) or i <= -70000:
                cx = c2.fork()
                rr = cx.run(obj, "__getitem__", const(i))
                if sat(rr.pc):
                    rep.same(as_term(rr.value, rr.pc), enc[i], rr.pc, key + "|unknown label", "%s: [%r]" % (what, i), where)
                else:
                    rep.bad(key + "|unknown label", "%s: unknown label %r is kept" % (what, i), where)
        check_encoded(rep, c2, obj, enc, key, what, where)


def check_encoded(rep, c2, obj, enc, key, what, where, only=None, base=False):
    r, alts = encoded(c2, obj)
    if not alts:
        rep.bad(key + "|encode refused", what + ": encodes", where, str(sorted(c2.raised(r))))
    for q, m, t in alts:
        if m is None:
            rep.undecided("%s: encoded operand %s" % (what, show(t)[:100]))
            continue
        labels = {}
        for k, pres, v in m:
            labels.setdefault(k, []).append((pres, v))
        for i, v in enc.items():
            if only is not None and i != only:
                continue
            got = labels.pop(const(i), None)
            if got is None:
                rep.bad("%s|encode|%s" % (key, i if isinstance(i, str) or i < -70000 else i), "%s: encode emits label %r" % (what, i), where,
                        "labels: %s" % [show(k) for k in labels][:20])
                continue
            if len(got) > 1:
                rep.bad("%s|encode twice|%s" % (key, i), "%s: label %r emitted once" % (what, i), where)
            ok_guard(rep, B.And(q, B.Not(got[0][0])), "%s|encode|%s" % (key, i), "%s: encode emits label %r" % (what, i), where)
            rep.same(got[0][1], v, q, "%s|encode|%s" % (key, i), "%s: encoded value of label %r" % (what, i), where)
        if only is None:
            for k, al in labels.items():
                for pres, v in al:
                    if k.op == "const":
                        ok_guard(rep, B.And(q, pres), "%s|encode extra" % key, "%s: encode emits nothing else (%s)" % (what, show(k)), where)
                    else:
                        rep.undecided("%s: label %s" % (what, show(k)[:100]))


def read(rep, lab, c2, obj, kt, i, form, v, key, what):
    cx = c2.fork()
    k = label(lab, cx, kt, i, form)
    rr = cx.run(obj, "__getitem__", k)
    if not sat(rr.pc):
        rep.bad(key + "|mapping", "%s: entry %d readable by %s" % (what, i, form), K + CLS[kt] + ".__getitem__", str(sorted(cx.raised(rr))))
    else:
        rep.same(as_term(rr.value, rr.pc), v, rr.pc, key + "|mapping", "%s: entry %d by %s" % (what, i, form), K + CLS[kt])
    cx = c2.fork()
    rr = cx.run(obj, "__contains__", k)
    if sat(rr.pc):
        t = truth(as_term(rr.value, rr.pc))
        ok_guard(rep, B.And(rr.pc, B.Not(t)), key + "|contains", "%s: entry %d present by %s" % (what, i, form), K + CLS[kt] + ".__contains__")


def value(c, k, a):
    return c.spec("attr_tuple", k, const(a))[0] if a == "other" else c.get1(k, a)


def changed(lab, rep, tier):
    """after an assignment, in any state of the key, everything reads the new value"""
    for kt in CLS:
        attrs = dict(ATTR[kt])
        attrs.update(COMMON)
        for i, a in attrs.items():
            ways = [("attribute", None)] + [("entry by " + f, f) for f in ("id", "class", "name")]
            for wn, f in ways:
                what = "%s, %s %s assigned" % (CLS[kt], a, wn)
                key = "%s|assign %s" % (kt, a)
                with rep.case(what):
                    c = lab.ctx()
                    k = c.inst(K + CLS[kt], "key")
                    v = sym("new", "list" if a == "other" else "bytes")
                    TYPES[v] = "list" if a == "other" else "bytes"
                    if a == "k":
                        extsig.LENS[v] = 24
                    if f is None:
                        r = c.runset(k, a, v)
                    else:
                        r = c.run(k, "__setitem__", label(lab, c, kt, i, f), v)
                    if not sat(r.pc):
                        rep.bad(key, what + ": accepted", K + CLS[kt], str(sorted(c.raised(r))))
                        continue
                    c2 = Ctx(lab, r.state)
                    c2.st.pc = r.pc
                    rep.same(c2.get1(k, a), v, r.pc, key, what + ": attribute reads it", K + CLS[kt] + "." + a)
                    for f2 in ("id", "class", "name"):
                        read(rep, lab, c2, k, kt, i, f2, v, key, what)
                    check_encoded(rep, c2, k, {i: v}, key, what, K + CLS[kt], only=i)
                    # nothing else changed
                    for j, b in attrs.items():
                        if b == a:
                            continue
                        c0 = lab.ctx()
                        k0 = c0.inst(K + CLS[kt], "key")
                        rep.same(value(c2, k, b), value(c0, k0, b), r.pc, key + "|others", "%s: %s unchanged" % (what, b), K + CLS[kt])
        for a, i, val in (("alg", 3, None), ("crv", -1, None)):
            if a == "crv" and kt not in CRV:
                continue
            for n, cid, cls in (((CRV[kt][1], CRV[kt][0], K + "curves." + CRV[kt][1]),) if a == "crv" else
                                (("Es256", -7, "pycose.algorithms.Es256"), ("A128GCM", 1, "pycose.algorithms.A128GCM"))):
                for v in (const(cid), lab.name(cls)):
                    what = "%s.%s = %s" % (CLS[kt], a, show(v))
                    with rep.case(what):
                        c = lab.ctx()
                        k = c.inst(K + CLS[kt], "key")
                        r = c.runset(k, a, v)
                        if not sat(r.pc):
                            rep.bad("%s|assign %s" % (kt, a), what + ": accepted", K + CLS[kt], str(sorted(c.raised(r))))
                            continue
                        c2 = Ctx(lab, r.state)
                        c2.st.pc = r.pc
                        rep.same(c2.get1(k, a), lab.name(cls), r.pc, "%s|assign %s" % (kt, a), what + ": reads the class", K + CLS[kt])
                        check_encoded(rep, c2, k, {i: const(cid)}, "%s|assign %s" % (kt, a), what, K + CLS[kt], only=i)


def dispatch(lab, rep, tier):
    """the key type decides the class; without a known one the key is refused"""
    for kty, n in iana.KTYS.items():
        kt = n[3:]
        if kt in CLS:
            continue
        with rep.case("key type %s" % n):
            c = lab.ctx()
            r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict([(const(1), const(kty)), (const(-1), bsym("k"))]))
            ok_guard(rep, r.pc, "dispatch|" + n, "key type %s: refused" % n, K + "CoseKey.from_dict")
    with rep.case("no key type"):
        c = lab.ctx()
        r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict([(const(-1), bsym("k"))]))
        ok_guard(rep, r.pc, "dispatch|none", "no key type: refused", K + "CoseKey.from_dict")
    with rep.case("unknown key type"):
        c = lab.ctx()
        v = sym("kty", "int")
        TYPES[v] = "int"
        known = B.Or(*[g_eq(v, const(i)) for i in (1, 2, 3, 4)])
        c.st.pc = B.And(c.st.pc, B.Not(known))
        r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict([(const(1), v), (const(-1), bsym("k"))]))
        ok_guard(rep, r.pc, "dispatch|unknown", "unknown key type: refused", K + "CoseKey.from_dict")


def run(lab, rep, tier):
    forms(lab, rep, tier)
    changed(lab, rep, tier)
    dispatch(lab, rep, tier)
    rep.floor("key parameter obligations", rep.obligations, 500)
