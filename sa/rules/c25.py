"""C25: generated and imported keys are the library's keys."""
from .common import *      # noqa
from .c20 import K, KP, CLS, made
from .. import terms as tm

RULE = ("generate_key draws a key of the requested curve or size from the system's generator, anew on every call, and imported PEM keys "
        "are parsed from the given text with the given password; the resulting COSE key has the right class and curve and holds exactly "
        "the numbers of the library key (curve-sized coordinates and private values, minimal-length RSA numbers, raw OKP octets), no "
        "private value when the source has none, and the given optional parameters")
EXPLAIN = ("generate_key of the four key classes and the PEM import functions are analysed for every curve and kind of library key; the "
           "attributes of the resulting object are compared as terms over the library key with the specified encodings.  Length "
           "expressions of RSA numbers are evaluated for every bit length up to 16384.")
LIB = "ext:cryptography.hazmat.primitives.asymmetric."
EC2 = ["P256", "P384", "P521", "SECP256K1"]
OKP = ["Ed25519", "Ed448", "X25519", "X448"]
RSAN = ["n", "e", "d", "p", "q", "dp", "dq", "qinv"]
ACC = {"dp": "dmp1", "dq": "dmq1", "qinv": "iqmp"}


def evalint(t, L):
    """value of an integer term for bit_length() = L; None if not determined"""
    if is_const(t):
        return cval(t) if isinstance(cval(t), int) else None
    if t.op == "call" and t.args[0].op in ("attr", "meth") and t.args[0].args[1] == "bit_length":
        return L
    if t.op == "bin":
        a, b = evalint(t.args[1], L), evalint(t.args[2], L)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b,
                    ">>": lambda: a >> b, "&": lambda: a & b, "<<": lambda: a << b, "|": lambda: a | b}.get(t.args[0], lambda: None)()
        except (ZeroDivisionError, ValueError):
            return None
    if t.op == "un" and t.args[0] == "USub":
        a = evalint(t.args[1], L)
        return None if a is None else -a
    return None


def bits_in(t):
    return isinstance(t, Term) and any(x.op in ("attr", "meth") and x.args[1] == "bit_length" for x in subterms(t))


def known_access(t):
    """only accesses of public and private numbers"""
    for v in subterms(t):
        if v.op == "attr" and v.args[1] in ("public_bytes", "private_bytes", "public_bytes_raw", "private_bytes_raw"):
            return False
        if v.op == "call" and v.args[0].op == "ext" and not v.args[0].args[0].rsplit(".", 1)[-1].startswith(("load_pem", "generate")) \
                and v.args[0].args[0].startswith(("cryptography.", "ecdsa.")) and ".ec.SEC" not in v.args[0].args[0] \
                and "default_backend" not in v.args[0].args[0]:
            return False
    return True


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Term) and x not in seen:
            seen.add(x)
            out.append(x)
            for a in x.args:
                go(a)
    go(t)
    return out


def same(rep, got, want, pc, key, what, where, raw=False):
    """got equals want under pc"""
    res = None
    for g, v in from_term(got):
        q = B.And(pc, g)
        if not sat(q):
            continue
        for g2, w in from_term(want):
            q2 = B.And(q, g2)
            if not sat(q2) or v is w:
                continue
            bad = B.And(q2, B.Not(g_eq(v, w)))
            if not sat(bad):
                continue
            if has_top(v) or imprecise(bad) or unclear(v, w, raw):
                res = res or "undecided"
                continue
            res = "holds %s instead of %s, when %s" % (show(v)[:160], show(w)[:160], showg(bad)[:200])
            rep.bad(key, what, where, res)
            return False
    if res:
        rep.undecided(what)
    else:
        rep.ok(what)
    return True


def unclear(v, w, raw):
    """another way of asking the library"""
    if raw:
        for x in subterms(v):
            if x.op == "attr" and x.args[1].endswith(("bytes_raw",)):
                return True
        return False
    return not known_access(v)


def rsa_same(rep, got, num, pc, key, what, where):
    for g, v in from_term(got):
        q = B.And(pc, g)
        if not sat(q):
            continue
        if has_top(v) or imprecise(q):
            rep.undecided(what)
            return
        if v.op != "to_be":
            if v.op == "call" or not known_access(v):
                rep.undecided(what)
            else:
                rep.bad(key, what, where, "holds %s" % show(v)[:200])
            return
        if v.args[0] is not num:
            rep.bad(key, what, where, "holds %s instead of %s" % (show(v.args[0])[-120:], show(num)[-120:]))
            return
        dep = [x for x in B.support(q) if any(bits_in(a) for a in tm.ATOMS[x][1:])]
        for L in range(1, 700 if dep else 16385):
            if dep:
                lits = TRUE
                for x in dep:
                    k, *a = tm.ATOMS[x]
                    vals = [evalint(y, L) if isinstance(y, Term) else None for y in a]
                    if None in vals or k not in ("empty", "eq", "lt"):
                        rep.undecided(what + ": length chosen by an unknown condition")
                        return
                    tv = vals[0] == 0 if k == "empty" else vals[0] == vals[1] if k == "eq" else vals[0] < vals[1]
                    lits = B.And(lits, B.literal(x) if tv else B.Not(B.literal(x)))
                if not sat(B.And(q, lits)):
                    continue
            n = evalint(v.args[1], L)
            if n is None:
                rep.undecided(what + ": length %s" % show(v.args[1])[-80:])
                return
            if n != (L + 7) // 8:
                rep.bad(key, what, where, "a number of %d bits is stored in %d bytes" % (L, n))
                return
    rep.ok(what)


def cls_of(obj):
    return obj.args[1] if obj is not None and obj.op == "obj" else None


def attributes(lab, rep, c, obj, kt, ext, curve, private, pc, what, key, where, opt):
    """the attributes of the key made from a library key"""
    st = c.st
    q = pc
    cv = lab.name(K + "curves." + curve) if curve else None
    if kt == "EC2":
        t, p2 = c.spec("on_curve", ext, cv)
        q = B.And(pc, p2, g_truthy(t))
        if not sat(q):
            rep.bad(key, what + " completes", where, "a library key on this curve never comes through")
            return
        st.pc = q
    if cv is not None:
        same(rep, c.get1(obj, "crv"), cv, q, key, what + ": curve", where)
    same(rep, c.get1(obj, "kty"), lab.name(K + "keytype.Kty" + kt), q, key, what + ": key type", where)
    if kt == "RSA":
        for a in RSAN:
            w = "%s: %s" % (what, a)
            got = c.get1(obj, a)
            if a in ("n", "e") or private:
                num, _ = c.spec("rsa_number", ext, const(a))
                rsa_same(rep, got, num, q, key, w, where)
            else:
                same(rep, got, const(b""), q, key, w + " is absent", where)
    else:
        for a in ("x", "y", "d") if kt == "EC2" else ("x", "d"):
            w = "%s: %s" % (what, a)
            got = c.get1(obj, a)
            if a == "d" and not private:
                same(rep, got, const(b""), q, key, w + " is absent", where)
            elif kt == "EC2":
                want, _ = c.spec("ec_numbers", ext, cv, const(a))
                same(rep, got, want, q, key, w, where)
            else:
                want, _ = c.spec("okp_raw", ext, const(a))
                same(rep, got, want, q, key, w, where, raw=True)
    if opt is not None:
        same(rep, c.get1(obj, "kid"), opt, q, key, what + ": key identifier", where)


def result(rep, lab, r, kt, what, key, where):
    obj = made(r)
    if obj is None:
        if any(imprecise(e[0]) for e in r.raises):
            rep.undecided(what)
        else:
            rep.bad(key, what, where, "always refused: %s" % sorted({lab.I.exc_name(e[3]) for e in r.raises}))
        return None
    alts = [(g, x) for g, x in from_term(obj) if sat(B.And(r.pc, g))]
    if len(alts) != 1 or alts[0][1].op != "obj":
        if any(has_top(x) for g, x in alts) or len(alts) > 1 and all(cls_of(x) == lab.q(K + CLS[kt]) for g, x in alts):
            rep.undecided(what)
        else:
            rep.bad(key, what, where, "returns %s" % ", ".join(show(x)[:80] for g, x in alts))
        return None
    if cls_of(alts[0][1]) != lab.q(K + CLS[kt]):
        rep.bad(key, what, where, "returns a %s" % cls_of(alts[0][1]))
        return None
    rep.ok(what)
    return alts[0][1]


def imports(lab, rep):
    kinds = [("EC2", cv, "ec.EllipticCurve") for cv in EC2] + [("RSA", None, "rsa.RSA")] + \
            [("OKP", cv, "%s.%s" % (cv.lower(), cv)) for cv in OKP]
    for kt, cv, lib in kinds:
        for side in ("private", "public"):
            for withopt in (False, True):
                what = "import of a %s %s key%s" % (cv or kt, side, " with optional parameters" if withopt else "")
                key = "import|%s %s" % (kt, side)
                where = K + CLS[kt] + "._from_cryptography_key"
                with rep.case(what):
                    c = lab.ctx()
                    extsig.RESULT.clear()
                    fn = "load_pem_%s_key" % side
                    extsig.RESULT[fn] = LIB + lib + side.capitalize() + "Key"
                    try:
                        pem = sym("pem_%s_%s" % (cv or kt, side), "str")
                        pw = sym("password")
                        opt = sym("kid", "bytes") if withopt else None
                        if withopt:
                            TYPES[opt] = "bytes"
                            c.st.pc = B.And(c.st.pc, B.Not(g_empty(opt)))
                        args = [pem] + ([pw] if side == "private" else [])
                        if withopt:
                            args.append(c.dict([(lab.name(KP + "KpKid"), opt)]))
                        r = c.run(lab.name(K + "CoseKey"), "from_pem_%s_key" % side, *args)
                        obj = result(rep, lab, r, kt, what + " gives a %s" % CLS[kt], key, where)
                        if obj is None:
                            continue
                        c2 = Ctx(lab, r.state)
                        c2.st.pc = r.pc
                        loads = [e for e in extcalls(r, fn) if sat(e.pc)]
                        if not loads:
                            rep.undecided(what + ": parsing")
                            continue
                        e = loads[0]
                        arg = lambda i, *ns: e.args[i] if len(e.args) > i else next((e.kw[n] for n in ns if n in e.kw), None)
                        data = arg(0, "data")
                        want, _ = c2.spec("utf8", pem)
                        same(rep, data, want, e.pc, key, what + ": the text parsed", e.where())
                        if side == "private":
                            p = arg(1, "password")
                            same(rep, p if p is not None else NONE, pw, e.pc, key, what + ": the password used", e.where())
                        attributes(lab, rep, c2, obj, kt, e.result, cv, side == "private", r.pc, what, key, where, opt)
                        if kt != "EC2":
                            g = B.And(e.pc, B.Or(*[x[0] for x in r.raises])) if r.raises else FALSE
                            if sat(g) and not imprecise(g):
                                rep.bad(key, what + " is never refused", where, showg(g)[:300])
                    finally:
                        extsig.RESULT.clear()
    for lib in ("dsa.DSA", "dh.DH"):
        what = "import of a %s key is refused" % lib.split(".")[1]
        with rep.case(what):
            c = lab.ctx()
            extsig.RESULT["load_pem_public_key"] = LIB + lib + "PublicKey"
            try:
                r = c.run(lab.name(K + "CoseKey"), "from_pem_public_key", sym("pem_" + lib, "str"))
                ok_guard(rep, r.pc, "import|unsupported", what, K + "CoseKey.from_pem_public_key")
            finally:
                extsig.RESULT.clear()


def generation(lab, rep):
    for kt, curves, lib in (("EC2", EC2, None), ("OKP", OKP, None)):
        cls = lab.name(K + CLS[kt])
        for cv in curves:
            for form in ("class", "id", "name"):
                for withopt in ((False, True) if form == "class" else (False,)):
                    what = "%s.generate_key(%s by %s%s)" % (CLS[kt], cv, form, ", optional parameters" if withopt else "")
                    key = "generate|" + kt
                    where = K + CLS[kt] + ".generate_key"
                    with rep.case(what):
                        c = lab.ctx()
                        cvt = lab.name(K + "curves." + cv)
                        label = cvt if form == "class" else c.get1(cvt, "identifier" if form == "id" else "fullname")
                        extsig.RESULT.clear()
                        extsig.RESULT["generate_private_key"] = LIB + "ec.EllipticCurvePrivateKey"
                        extsig.RESULT["generate"] = LIB + "%s.%sPrivateKey" % (cv.lower(), cv)
                        try:
                            one_generation(lab, rep, c, cls, kt, cvt, cv, [label], what, key, where, withopt)
                        finally:
                            extsig.RESULT.clear()
        for cv in EC2 + OKP:
            if cv in curves:
                continue
            what = "%s.generate_key(%s) is refused" % (CLS[kt], cv)
            with rep.case(what):
                c = lab.ctx()
                r = c.run(cls, "generate_key", lab.name(K + "curves." + cv))
                ok_guard(rep, r.pc, "generate|%s curve" % kt, what, K + CLS[kt] + ".generate_key")
    cls = lab.name(K + "RSAKey")
    for withopt in (False, True):
        what = "RSAKey.generate_key(bits%s)" % (", optional parameters" if withopt else "")
        with rep.case(what):
            c = lab.ctx()
            extsig.RESULT.clear()
            extsig.RESULT["generate_private_key"] = LIB + "rsa.RSAPrivateKey"
            try:
                bits = sym("bits", "int")
                one_generation(lab, rep, c, cls, "RSA", None, None, [bits], what, "generate|RSA", K + "RSAKey.generate_key", withopt)
            finally:
                extsig.RESULT.clear()
        for n in (512, 1024, 2048, 3072, 4096, 8192):
            what = "RSAKey.generate_key(%d)" % n
            with rep.case(what):
                c = lab.ctx()
                r = c.run(cls, "generate_key", const(n))
                for e in extcalls(r, "generate_private_key"):
                    a = e.args[1] if len(e.args) > 1 else e.kw.get("key_size", NONE)
                    same(rep, a, const(n), e.pc, "generate|RSA", what + ": size", e.where())
    cls = lab.name(K + "SymmetricKey")
    for n in list(range(0, 41)) + [48, 64, 128, 192, 256]:
        what = "SymmetricKey.generate_key(%d)" % n
        key, where = "generate|Symmetric", K + "SymmetricKey.generate_key"
        with rep.case(what):
            c = lab.ctx()
            opt = sym("kid", "bytes")
            TYPES[opt] = "bytes"
            c.st.pc = B.And(c.st.pc, B.Not(g_empty(opt)))
            r = c.run(cls, "generate_key", const(n), c.dict([(lab.name(KP + "KpKid"), opt)]))
            if n not in (16, 24, 32):
                ok_guard(rep, r.pc, key, what + " is refused", where)
                continue
            weak(rep, r, key, what)
            obj = result(rep, lab, r, "Symmetric", what, key, where)
            if obj is None:
                continue
            c2 = Ctx(lab, r.state)
            c2.st.pc = r.pc
            k = c2.get1(obj, "k")
            random(rep, k, n, what, key, where)
            same(rep, c2.get1(obj, "kid"), opt, r.pc, key, what + ": key identifier", where)
            c3 = Ctx(lab, r.state)
            c3.st.pc = r.pc
            r2 = c3.run(cls, "generate_key", const(n))
            o2 = made(r2)
            if o2 is not None and o2.op == "obj":
                c4 = Ctx(lab, r2.state)
                c4.st.pc = r2.pc
                k2 = c4.get1(o2, "k")
                rep.check(k2 is not k or has_top(k), key, what + ": a second key is drawn anew", where, "both hold %s" % show(k)[:100])


def weak(rep, r, key, what):
    """no key material from a generator that is not cryptographic"""
    w = what + ": no other generator takes part"
    for e in r.events:
        if e.kind == "call" and e.callee is not None and sat(e.pc):
            root = e.callee
            while root.op in ("attr", "meth", "call"):
                root = root.args[0]
            if root.op == "ext" and root.args[0].startswith(("random.", "numpy.random", "uuid.", "time.")) and \
                    not root.args[0].startswith("random.SystemRandom"):
                rep.bad(key, w, e.where(), root.args[0])
                return
    rep.ok(w)


def random(rep, k, n, what, key, where):
    w = what + ": holds %d random bytes" % n
    v = k
    if has_top(v):
        rep.undecided(w)
        return
    f = v.args[1] if v.op == "fresh" else v
    nm = f.args[0].args[0] if f.op == "call" and f.args[0].op == "ext" else None
    if nm in ("os.urandom", "secrets.token_bytes") and v.op == "fresh":
        a = [x for x in f.args[1] if isinstance(x, Term)] + [x for kx, x in f.args[2]]
        if len(a) == 1 and is_const(a[0]):
            rep.check(cval(a[0]) == n, key, w, where, "draws %s bytes" % cval(a[0]))
        else:
            rep.undecided(w)
    elif nm and nm.rsplit(".", 1)[-1] in ("generate_key", "getrandbits", "token_bytes", "urandom", "bytes", "read") and not nm.startswith("random."):
        rep.undecided(w)
    else:
        rep.bad(key, w, where, "holds %s" % show(v)[:200])


def one_generation(lab, rep, c, cls, kt, cvt, cv, args, what, key, where, withopt):
    opt = None
    if withopt:
        opt = sym("kid", "bytes")
        TYPES[opt] = "bytes"
        c.st.pc = B.And(c.st.pc, B.Not(g_empty(opt)))
        args = args + [c.dict([(lab.name(KP + "KpKid"), opt)])]
    r = c.run(cls, "generate_key", *args)
    obj = result(rep, lab, r, kt, what + " gives a " + CLS[kt], key, where)
    if obj is None:
        return
    weak(rep, r, key, what)
    gens = [e for e in extcalls(r, "generate_private_key", "generate", ".generate", "derive_private_key") if sat(B.And(e.pc, r.pc))]
    gens = [e for e in gens if not (e.callee.op == "ext" and e.callee.args[0].endswith("derive_private_key"))]
    if len(gens) != 1 or gens[0].result is None or gens[0].result.op != "fresh":
        if any(e.kind == "call" and e.callee is not None and "generate" in show(e.callee) for e in r.events) or r.state is None:
            rep.undecided(what + ": generation")
        else:
            rep.bad(key, what + ": the key is generated by the library", where, "%d generation calls" % len(gens))
        return
    e = gens[0]
    arg = lambda i, *ns: e.args[i] if len(e.args) > i else next((e.kw[n] for n in ns if n in e.kw), None)
    if kt == "EC2":
        same(rep, arg(0, "curve"), c.get1(cvt, "curve_obj"), e.pc, key, what + ": curve of the library key", e.where())
    elif kt == "OKP":
        root = e.callee.args[0] if e.callee.op == "ext" else e.recv.args[0] + ".generate" if e.recv is not None and e.recv.op == "ext" else ""
        rep.check(root.split(".")[-2:] == [cv + "PrivateKey", "generate"], key, what + ": kind of the library key", e.where(), root)
    else:
        same(rep, arg(0, "public_exponent"), const(65537), e.pc, key, what + ": public exponent", e.where())
        same(rep, arg(1, "key_size"), args[0], e.pc, key, what + ": size", e.where())
    c2 = Ctx(lab, r.state)
    c2.st.pc = r.pc
    attributes(lab, rep, c2, obj, kt, e.result, cv, True, r.pc, what, key, where, opt)
    c3 = Ctx(lab, r.state)
    c3.st.pc = r.pc
    r2 = c3.run(cls, "generate_key", *args)
    g2 = [x for x in extcalls(r2, "generate_private_key", "generate", ".generate") if sat(B.And(x.pc, r2.pc))]
    w = what + ": a second key is generated anew"
    if g2 and all(x.result is not e.result for x in g2):
        rep.ok(w)
    elif sat(r2.pc) and not has_top(as_term(r2.value, r2.pc)):
        rep.bad(key, w, where, "no library call the second time")
    else:
        rep.undecided(w)


def run(lab, rep, tier):
    imports(lab, rep)
    generation(lab, rep)
