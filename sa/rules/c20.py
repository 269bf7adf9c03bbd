"""C20: a key object that comes into being is well formed."""
from .common import *      # noqa

RULE = ("a constructor, from_dict or setter completes only if the key type is the class's own, the curve belongs to it, the values are "
        "byte strings, EC2 public coordinates are those of the private value (or are derived from it, or lie on the curve for the "
        "given x), OKP keys have a public or private value, RSA parameters form a public, two-prime or multi-prime key, symmetric "
        "keys have 16, 24 or 32 bytes, and algorithm and operations are registered ones")
EXPLAIN = ("Constructors, from_dict and the property setters of the four key classes are analysed for every curve and for arbitrary "
           "parameter values; the stored values and the conditions of completion are compared with the rules.")
K = "pycose.keys."
KP = K + "keyparam."
CLS = {"EC2": "EC2Key", "OKP": "OKPKey", "RSA": "RSAKey", "Symmetric": "SymmetricKey"}
KTY_ID = {"OKP": 1, "EC2": 2, "RSA": 3, "Symmetric": 4}
OWN = {"EC2": "EC2", "OKP": "OKP", "RSA": "RSA", "Symmetric": "Sym"}
RSA = ["n", "e", "d", "p", "q", "dp", "dq", "qinv", "other", "r_i", "d_i", "t_i"]
RSAID = dict(zip(RSA, range(-1, -13, -1)))
LIB = "cryptography.hazmat.primitives.asymmetric.ec."


def bsym(n):
    t = sym(n, "bytes")
    TYPES[t] = "bytes"
    return t


def roots(t, out=None, seen=None):
    """names of library functions in a term"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t in seen:
        return out
    seen.add(t)
    if t.op == "ext":
        out.add(t.args[0])
    for a in t.args:
        walk(a, out, seen)
    return out


def walk(a, out, seen):
    if isinstance(a, Term):
        roots(a, out, seen)
    elif isinstance(a, tuple):
        for x in a:
            walk(x, out, seen)


def curve_obj(c, curve):
    return c.get1(curve, "curve_obj")


def derived(c, curve, d, which):
    """library value of a coordinate of the public point of private value d on a curve"""
    t, _ = c.spec("ec_point", d, curve, const(which))
    return t


def guard_roots(g):
    out = set()
    for v in B.support(g):
        for x in tm.ATOMS[v][1:]:
            walk(x, out, set())
    return out


def agrees(rep, c, stored, given, want, pc, key, what, where):
    """the stored coordinate is the derived one, or the given one where it equals the derived one"""
    for g, v in from_term(stored):
        q = B.And(pc, g)
        if not sat(q):
            continue
        if v is want:
            rep.ok(what)
        elif has_top(v) or imprecise(q):
            rep.undecided(what)
        elif v is given:
            bad = B.And(q, B.Not(g_eq(given, want)))
            if not sat(bad):
                rep.ok(what)
            elif guard_roots(q) - {LIB + "derive_private_key", LIB + "SECP256R1", LIB + "SECP384R1", LIB + "SECP521R1",
                                   LIB + "SECP256K1"} - {x for x in guard_roots(q) if "default_backend" in x}:
                rep.undecided(what + ": compared with another library value")
            else:
                rep.bad(key, what, where, "a given value is kept without being the derived one, when " + showg(bad)[:300])
        else:
            other = {x for x in roots(v) if x.startswith("cryptography") or x.startswith("ecdsa")}
            if other and not (LIB + "derive_private_key" in other):
                rep.undecided("%s: %s" % (what, show(v)[:200]))
            else:
                rep.bad(key, what, where, "stored value is %s" % show(v)[:300])


def made(r):
    return as_term(r.value, r.pc) if sat(r.pc) else None


def ways(lab, kt, curve_name):
    """(label, function(ctx, values by parameter name) -> Result)"""
    ids = {"EC2": dict(x=-2, y=-3, d=-4), "OKP": dict(x=-2, d=-4), "RSA": RSAID, "Symmetric": dict(k=-1)}[kt]
    cls = K + CLS[kt]

    def ctor(c, vals):
        a = {} if curve_name is None else {"crv": lab.name(K + "curves." + curve_name)}
        return c.run(lab.name(cls), "__call__", **a, **vals)

    def fd(form):
        def f(c, vals):
            it = [(const(1), const(KTY_ID[kt]))]
            if form == "class":
                it = [(lab.name(KP + "KpKty"), lab.name(K + "keytype.Kty" + kt))]
            if curve_name is not None:
                it.append((lab.name(KP + OWN[kt] + "KpCurve"), lab.name(K + "curves." + curve_name)) if form == "class" else
                          (const(-1), const(curve_id(curve_name))))
            for n, v in vals.items():
                it.append((lab.name(KP + iana.KEYPARAMS[kt + "KeyParam"][ids[n]]), v) if form == "class" else (const(ids[n]), v))
            return c.run(lab.name(K + "CoseKey"), "from_dict", c.dict(it))
        return f
    return [("%s()" % CLS[kt], ctor), ("CoseKey.from_dict (%s, labels)" % kt, fd("id")),
            ("CoseKey.from_dict (%s, classes)" % kt, fd("class"))]


def curve_id(n):
    return next(i for i, v in iana.CURVES.items() if v[0] == n)


def kty_kept(rep, c2, obj, kt, key, what, lab):
    rep.same(c2.get1(obj, "kty"), lab.name(K + "keytype.Kty" + kt), c2.st.pc, key, what + ": key type", K + CLS[kt])


def bytes_kept(rep, c2, obj, names, key, what, where):
    for n in names:
        t = c2.get1(obj, n)
        ok, pc = c2.spec("is_bytes", t)
        ok_guard(rep, B.And(c2.st.pc, B.Not(truth(ok))), key + "|" + n, "%s: %s is a byte string" % (what, n), where)


def truth(t):
    return B.Or(*[B.And(g, g_truthy(x)) for g, x in from_term(t)])


def ec2(lab, rep, tier):
    curves = [n for n, k, s in iana.CURVES.values() if k == "EC2"]
    for cv in curves:
        for label, f in ways(lab, "EC2", cv):
            # which of x, y, d are given
            for given in ("x", "xy", "d", "xd", "yd", "xyd", "y", ""):
                what = "%s on %s given %s" % (label, cv, ",".join(given) or "nothing")
                key = "EC2|%s" % label
                with rep.case(what):
                    c = lab.ctx()
                    vals = {n: bsym(n) for n in given}
                    for v in vals.values():
                        c.st.pc = B.And(c.st.pc, B.Not(g_empty(v)))
                    r = f(c, vals)
                    obj = made(r)
                    if given in ("", "y"):
                        ok_guard(rep, r.pc, key + "|incomplete", what + ": refused", K + "EC2Key")
                        continue
                    if obj is None:
                        rep.undecided(what + ": never completes")
                        continue
                    c2 = Ctx(lab, r.state)
                    c2.st.pc = r.pc
                    curve = lab.name(K + "curves." + cv)
                    rep.same(c2.get1(obj, "crv"), curve, r.pc, key + "|curve", what + ": curve", K + "EC2Key")
                    kty_kept(rep, c2, obj, "EC2", key + "|kty", what, lab)
                    bytes_kept(rep, c2, obj, [n for n in "xyd" if n != "d" or "d" in given], key + "|bytes", what, K + "EC2Key")
                    if "d" in given:
                        rep.same(c2.get1(obj, "d"), vals["d"], r.pc, key + "|d", what + ": private value as given", K + "EC2Key")
                        for n in "xy":
                            want = derived(c2, curve, vals["d"], n)
                            agrees(rep, c2, c2.get1(obj, n), vals.get(n), want, r.pc, key + "|consistent " + n,
                                   "%s: %s belongs to the private value" % (what, n), K + "EC2Key")
                    else:
                        rep.same(c2.get1(obj, "x"), vals["x"], r.pc, key + "|x", what + ": x as given", K + "EC2Key")
                        ok_guard(rep, B.And(r.pc, B.Not(g_empty_t(c2.get1(obj, "d")))), key + "|no d",
                                 what + ": no private value appears", K + "EC2Key")
                        yt = c2.get1(obj, "y")
                        if "y" in given:
                            rep.same(yt, vals["y"], r.pc, key + "|y", what + ": y as given", K + "EC2Key")
                        else:
                            completed(rep, c2, yt, vals["x"], curve, r.pc, key + "|y from x", what + ": y completes x on the curve")
    foreign(lab, rep, "EC2", ["x", "y"])
    odd_types(lab, rep, "EC2", "P256", ["x", "y", "d"])


def g_empty_t(t):
    return B.Or(*[B.And(g, B.Or(g_isnone(x), g_empty(x))) for g, x in from_term(t)])


def completed(rep, c, yt, x, curve, pc, key, what):
    alts = [c.spec("ec_lift", x, curve, const(b))[0] for b in (b"\x03", b"\x02")]
    for g, v in from_term(yt):
        q = B.And(pc, g)
        if not sat(q):
            continue
        if v in alts:
            rep.ok(what)
        elif has_top(v) or imprecise(q):
            rep.undecided(what)
        elif v.op == "const" or v is x or LIB + "EllipticCurvePublicKey.from_encoded_point" in roots(v):
            rep.bad(key, what, K + "EC2Key", "y is %s when %s" % (show(v)[:300], showg(q)[:200]))
        else:
            rep.undecided("%s: %s" % (what, show(v)[:200]))


def foreign(lab, rep, kt, names):
    """curves of another key type, or none, are refused"""
    for cv in [v[0] for v in iana.CURVES.values() if v[1] != kt]:
        for label, f in ways(lab, kt, cv):
            what = "%s with curve %s" % (label, cv)
            with rep.case(what):
                c = lab.ctx()
                vals = {n: bsym(n) for n in names}
                r = f(c, vals)
                ok_guard(rep, r.pc, "%s|foreign curve|%s" % (kt, label), what + ": refused", K + CLS[kt])
        what = "%s.crv = %s" % (CLS[kt], cv)
        for form in ("class", "id"):
            with rep.case(what):
                c = lab.ctx()
                k = c.inst(K + CLS[kt], "key")
                r = c.runset(k, "crv", lab.name(K + "curves." + cv) if form == "class" else const(curve_id(cv)))
                ok_guard(rep, r.pc, "%s|foreign curve|setter" % kt, what + ": refused", K + CLS[kt] + ".crv")
    with rep.case("no curve"):
        c = lab.ctx()
        r = c.run(lab.name(K + CLS[kt]), "__call__", crv=NONE, **{n: bsym(n) for n in names})
        ok_guard(rep, r.pc, "%s|no curve" % kt, "%s() without a curve: refused" % CLS[kt], K + CLS[kt])
        c = lab.ctx()
        r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict([(const(1), const(KTY_ID[kt]))] + [
            (const({"x": -2, "y": -3, "d": -4}[n]), bsym(n)) for n in names]))
        ok_guard(rep, r.pc, "%s|no curve" % kt, "from_dict (%s) without a curve: refused" % kt, K + CLS[kt])


def odd_types(lab, rep, kt, cv, names):
    """a value of an arbitrary type: stored only if it is a byte string"""
    for n in names:
        for label, f in ways(lab, kt, cv):
            what = "%s with any value for %s" % (label, n)
            with rep.case(what):
                c = lab.ctx()
                vals = {m: bsym(m) for m in names if kt != "RSA" or m in ("n", "e") or n not in ("n", "e")}
                if kt == "EC2" and n != "d":
                    vals.pop("d")
                for v in vals.values():
                    c.st.pc = B.And(c.st.pc, B.Not(g_empty(v)))
                vals[n] = sym("any_" + n)
                r = f(c, vals)
                if not sat(r.pc):
                    rep.ok(what)
                    continue
                c2 = Ctx(lab, r.state)
                c2.st.pc = r.pc
                bytes_kept(rep, c2, made(r), [n], "%s|type|%s" % (kt, label), what, K + CLS[kt])
        with rep.case("setter %s.%s" % (CLS[kt], n)):
            c = lab.ctx()
            k = c.inst(K + CLS[kt], "key")
            r = c.runset(k, n, sym("any_" + n))
            if sat(r.pc):
                c2 = Ctx(lab, r.state)
                c2.st.pc = r.pc
                bytes_kept(rep, c2, k, [n], "%s|type|setter" % kt, "%s.%s = anything" % (CLS[kt], n), K + CLS[kt] + "." + n)
            else:
                rep.undecided("setter %s.%s never completes" % (CLS[kt], n))


def okp(lab, rep, tier):
    for cv in [n for n, k, s in iana.CURVES.values() if k == "OKP"]:
        for label, f in ways(lab, "OKP", cv):
            for given in ("x", "d", "xd", ""):
                what = "%s on %s given %s" % (label, cv, ",".join(given) or "nothing")
                key = "OKP|%s" % label
                with rep.case(what):
                    c = lab.ctx()
                    vals = {n: bsym(n) for n in given}
                    for v in vals.values():
                        c.st.pc = B.And(c.st.pc, B.Not(g_empty(v)))
                    r = f(c, vals)
                    obj = made(r)
                    if not given:
                        ok_guard(rep, r.pc, key + "|incomplete", what + ": refused", K + "OKPKey")
                        continue
                    if obj is None:
                        rep.undecided(what + ": never completes")
                        continue
                    c2 = Ctx(lab, r.state)
                    c2.st.pc = r.pc
                    rep.same(c2.get1(obj, "crv"), lab.name(K + "curves." + cv), r.pc, key + "|curve", what + ": curve", K + "OKPKey")
                    kty_kept(rep, c2, obj, "OKP", key + "|kty", what, lab)
                    bytes_kept(rep, c2, obj, list(given), key + "|bytes", what, K + "OKPKey")
                    for n in given:
                        rep.same(c2.get1(obj, n), vals[n], r.pc, key + "|" + n, "%s: %s as given" % (what, n), K + "OKPKey")
    foreign(lab, rep, "OKP", ["x", "d"])
    odd_types(lab, rep, "OKP", "Ed25519", ["x", "d"])


def rsa(lab, rep, tier):
    for label, f in ways(lab, "RSA", None):
        what = label
        with rep.case(what):
            c = lab.ctx()
            vals = {n: bsym(n) for n in RSA}
            o = sym("other", "list")
            TYPES[o] = "list"
            vals["other"] = o
            valid = truth(c.fork().spec("rsa_complete", *[vals[n] for n in RSA])[0])
            r = f(c, vals)
            if not sat(r.pc):
                rep.undecided(what + ": never completes")
                continue
            ok_guard(rep, B.And(r.pc, B.Not(valid)), "RSA|incomplete|" + label,
                     "%s: only public, two-prime and multi-prime keys are accepted" % label, K + "RSAKey")
            refused = B.Or(*[e[0] for e in r.raises]) if r.raises else FALSE
            ok_guard(rep, B.And(refused, valid), "RSA|complete|" + label,
                     "%s: every complete key is accepted" % label, K + "RSAKey")
            c2 = Ctx(lab, r.state)
            c2.st.pc = r.pc
            obj = made(r)
            kty_kept(rep, c2, obj, "RSA", "RSA|kty", what, lab)
            for n in RSA:
                rep.same(c2.get1(obj, n), vals[n], B.And(r.pc, B.Not(g_empty(vals[n]))), "RSA|%s" % n, "%s: %s as given" % (what, n), K + "RSAKey")
    odd_types(lab, rep, "RSA", None, ["n", "e", "d", "p", "q", "dp", "dq", "qinv"])
    for n in ("r_i", "d_i", "t_i"):
        with rep.case("setter RSAKey." + n):
            c = lab.ctx()
            k = c.inst(K + "RSAKey", "key")
            r = c.runset(k, n, sym("any_" + n))
            if sat(r.pc):
                c2 = Ctx(lab, r.state)
                c2.st.pc = r.pc
                bytes_kept(rep, c2, k, [n], "RSA|type|setter", "RSAKey.%s = anything" % n, K + "RSAKey." + n)


def symmetric(lab, rep, tier):
    for label, f in ways(lab, "Symmetric", None) + [("SymmetricKey.k = ...", None)]:
        with rep.case(label):
            c = lab.ctx()
            k = sym("any_k")
            if f is None:
                obj = c.inst(K + "SymmetricKey", "key")
                r = c.runset(obj, "k", k)
            else:
                r = f(c, {"k": k})
                obj = made(r)
            if obj is None or not sat(r.pc):
                rep.undecided(label + ": never completes")
                continue
            c2 = Ctx(lab, r.state)
            c2.st.pc = r.pc
            bytes_kept(rep, c2, obj, ["k"], "Symmetric|type|" + label, label, K + "SymmetricKey")
            t = c2.get1(obj, "k")
            rep.same(t, k, r.pc, "Symmetric|k|" + label, label + ": key bytes as given", K + "SymmetricKey")
            s, _ = c2.spec("aes_size", t)
            ok_guard(rep, B.And(r.pc, B.Not(truth(s))), "Symmetric|size|" + label, label + ": 16, 24 or 32 bytes", K + "SymmetricKey")
            if f is not None:
                kty_kept(rep, c2, obj, "Symmetric", "Symmetric|kty", label, lab)
    with rep.case("no key bytes"):
        c = lab.ctx()
        r = c.run(lab.name(K + "CoseKey"), "from_dict", c.dict([(const(1), const(4))]))
        ok_guard(rep, r.pc, "Symmetric|incomplete", "from_dict without key bytes: refused", K + "SymmetricKey")


VALS = {"EC2": dict(x="x", y="y"), "OKP": dict(x="x"), "RSA": dict(n="n", e="e"), "Symmetric": dict(k="k")}
CRV = {"EC2": "P256", "OKP": "X25519"}


def base(lab, c, kt, extra):
    """constructor and from_dict of a plain key with further parameters"""
    vals = {n: bsym(n) for n in VALS[kt]}
    for v in vals.values():
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(v)))
    if kt == "Symmetric":
        extsig.LENS[vals["k"]] = 16
    a = {"crv": lab.name(K + "curves." + CRV[kt])} if kt in CRV else {}
    return c.run(lab.name(K + CLS[kt]), "__call__", optional_params=c.dict(extra), **a, **vals)


def optional(lab, rep, tier):
    """kty, alg and key_ops among the further parameters"""
    for kt in CLS:
        for form in ("id", "name", "class"):
            lb = {"id": lambda p: const(p[0]), "name": lambda p: const(p[1]), "class": lambda p: lab.name(KP + p[2])}[form]
            for other in iana.KTYS.values():
                for v in (lab.name(K + "keytype." + other), const(next(i for i, n in iana.KTYS.items() if n == other))):
                    what = "%s with key type parameter %s (%s)" % (CLS[kt], show(v), form)
                    with rep.case(what):
                        c = lab.ctx()
                        r = base(lab, c, kt, [(lb((1, "KTY", "KpKty")), v)])
                        if other == "Kty" + kt:
                            if not sat(r.pc):
                                rep.bad("kty|own|" + kt, what + ": accepted", K + CLS[kt], str(sorted(c.raised(r))))
                            else:
                                c2 = Ctx(lab, r.state)
                                c2.st.pc = r.pc
                                kty_kept(rep, c2, made(r), kt, "kty|own|" + kt, what, lab)
                        else:
                            ok_guard(rep, r.pc, "kty|foreign|" + kt, what + ": refused", K + CLS[kt])
            for i, (an, kind, _) in sorted(iana.ALGS.items()):
                if i not in (-7, 1, 5, -37, -25) or form != "class" and i not in (-7, 5):
                    continue
                for v in (const(i), lab.name("pycose.algorithms." + an)):
                    what = "%s with algorithm %s (%s)" % (CLS[kt], show(v), form)
                    with rep.case(what):
                        c = lab.ctx()
                        r = base(lab, c, kt, [(lb((3, "ALG", "KpAlg")), v)])
                        if not sat(r.pc):
                            rep.undecided(what + ": never completes")
                            continue
                        c2 = Ctx(lab, r.state)
                        c2.st.pc = r.pc
                        rep.same(c2.get1(made(r), "alg"), lab.name("pycose.algorithms." + an), r.pc, "alg|" + kt,
                                 what + ": registered algorithm class", K + CLS[kt])
            what = "%s with an unregistered algorithm (%s)" % (CLS[kt], form)
            with rep.case(what):
                c = lab.ctx()
                r = base(lab, c, kt, [(lb((3, "ALG", "KpAlg")), const(-70000))])
                ok_guard(rep, r.pc, "alg|unregistered|" + kt, what + ": refused", K + CLS[kt])
            what = "%s with key operations (%s)" % (CLS[kt], form)
            with rep.case(what):
                c = lab.ctx()
                ops = sorted(iana.KEYOPS)[:2] if kt != "Symmetric" else [9, 10]
                r = base(lab, c, kt, [(lb((4, "KEY_OPS", "KpKeyOps")), c.list(*[const(o) for o in ops]))])
                if not sat(r.pc):
                    rep.undecided(what + ": never completes")
                    continue
                c2 = Ctx(lab, r.state)
                c2.st.pc = r.pc
                got, _ = c2.spec("as_tuple", c2.get1(made(r), "key_ops"))
                rep.same(got, T("tuple", *[lab.name(K + "keyops." + iana.KEYOPS[o]) for o in ops]), r.pc, "key_ops|" + kt,
                         what + ": registered operations", K + CLS[kt])
            what = "%s with an unregistered key operation (%s)" % (CLS[kt], form)
            with rep.case(what):
                c = lab.ctx()
                r = base(lab, c, kt, [(lb((4, "KEY_OPS", "KpKeyOps")), c.list(const(1), const(77)))])
                ok_guard(rep, r.pc, "key_ops|unregistered|" + kt, what + ": refused", K + CLS[kt])


USES = {"EC2": {1, 2, 7, 8}, "OKP": {1, 2, 7, 8}, "RSA": {1, 2, 7, 8}, "Symmetric": {3, 4, 5, 6, 9, 10}}


def setters(lab, rep, tier):
    """alg, key_ops, kid, base_iv after creation"""
    for kt in CLS:
        for o, on in sorted(iana.KEYOPS.items()):
            for v in (const(o), lab.name(K + "keyops." + on)):
                what = "%s.key_ops = [%s]" % (CLS[kt], show(v))
                with rep.case(what):
                    c = lab.ctx()
                    k = c.inst(K + CLS[kt], "key")
                    r = c.runset(k, "key_ops", c.list(v))
                    if o not in USES[kt]:
                        ok_guard(rep, r.pc, "key_ops|foreign|" + kt, what + ": refused", K + CLS[kt] + ".key_ops")
                    elif not sat(r.pc):
                        rep.bad("key_ops|own|" + kt, what + ": accepted", K + CLS[kt] + ".key_ops", str(sorted(c.raised(r))))
                    else:
                        c2 = Ctx(lab, r.state)
                        c2.st.pc = r.pc
                        got, _ = c2.spec("as_tuple", c2.get1(k, "key_ops"))
                        rep.same(got, T("tuple", lab.name(K + "keyops." + on)), r.pc, "key_ops|own|" + kt, what + ": stored", K + CLS[kt])
            if o in USES[kt]:
                continue
            for first in sorted(USES[kt])[:1]:
                what = "%s.key_ops = [%d, %d]" % (CLS[kt], first, o)
                with rep.case(what):
                    c = lab.ctx()
                    k = c.inst(K + CLS[kt], "key")
                    r = c.runset(k, "key_ops", c.list(const(first), const(o)))
                    ok_guard(rep, r.pc, "key_ops|foreign|" + kt, what + ": refused", K + CLS[kt] + ".key_ops")
        for n in ("kid", "base_iv"):
            what = "%s.%s = anything" % (CLS[kt], n)
            with rep.case(what):
                c = lab.ctx()
                k = c.inst(K + CLS[kt], "key")
                r = c.runset(k, n, sym("any_" + n))
                if sat(r.pc):
                    c2 = Ctx(lab, r.state)
                    c2.st.pc = r.pc
                    bytes_kept(rep, c2, k, [n], "type|setter", what, K + "cosekey.CoseKey." + n)
                else:
                    rep.undecided(what + ": never completes")
        what = "%s.alg = unregistered" % CLS[kt]
        with rep.case(what):
            c = lab.ctx()
            k = c.inst(K + CLS[kt], "key")
            r = c.runset(k, "alg", const(-70000))
            ok_guard(rep, r.pc, "alg|unregistered|setter", what + ": refused", K + "cosekey.CoseKey.alg")


def run(lab, rep, tier):
    for f in (ec2, okp, rsa, symmetric, optional, setters):
        f(lab, rep, tier)
    rep.floor("key construction obligations", rep.obligations, 500)
