"""C26: certificate thumbprints and chains."""
from .common import *      # noqa
from .c18 import hash_of, kwof

RULE = ("a thumbprint made from a certificate is the registered hash of exactly that certificate under the algorithm it is labelled with; "
        "matches is true exactly for certificates with that thumbprint and never for an empty one; equality compares algorithm and value; "
        "encodings carry both, certificate lists keep content and order; verifying a chain validates the first certificate with the others "
        "as intermediates for the requested usage, with the validator's own trust settings, and cannot succeed otherwise")
EXPLAIN = ("X5T, X5Bag, X5Chain and X5U are analysed for every registered hash algorithm and arbitrary certificates, thumbprints and "
           "chains; results are compared as terms over the library's digest, CBOR decoder and certificate validator.")
X = "pycose.extensions.x509."
VALIDATOR = "CertificateValidator"


def digest(x):
    """(hash name, length, data) of a leading part of a library digest."""
    base = x
    while base.op == "slice":
        base = base.args[0]
    if base.op != "call" or base.args[0] is not ext("stream.digest"):
        return None
    ct = base.args[1][0]
    h = hash_of(kwof(ct).get("algorithm", ct))
    ln = extsig.known_len(x)
    head = x is base or (x.op == "slice" and x.args[0] is base and x.args[1] in (const(0), NONE))
    if h is None or ln is None or not head:
        return None
    return h, ln, base.args[1][1]


def is_digest(rep, t, i, par, data, pc, key, what):
    for g, x in from_term(t):
        q = B.And(pc, g)
        if not sat(q):
            continue
        d = digest(x)
        if d is None:
            if has_top(x) or imprecise(q) or (x.op in ("call", "slice") and any("stream" in str(a) or "digest" in show(x) for a in x.args)):
                rep.undecided(what + ": " + show(x)[:120])
            else:
                rep.bad(key, what + ": not a digest of the certificate", "", show(x)[:200])
            continue
        hs = (par["hash"],) + (("SHA512_256",) if i == -17 else ())
        good = d[0] in hs and d[1] == par["out"] and d[2] is data
        if not good and (has_top(d[2]) or imprecise(q)):
            rep.undecided(what)
        else:
            rep.check(good, key, what + ": leftmost %d bytes of %s of the certificate" % (par["out"], par["hash"]), "",
                      "%d bytes of %s over %s" % (d[1], d[0], show(d[2])[:150]))


def run(lab, rep, tier):
    algs = list(iana.algs("hash"))
    cert, tp = sym("cert", "bytes"), sym("tp", "bytes")
    for i, nm, par in algs:
        A = algterm(lab, i)
        for flag in ("default", False, True):
            what = "X5T.from_certificate[%s%s]" % (nm, ", CBOR" if flag is True else "")
            with rep.case(what):
                c = lab.ctx()
                kw = {} if flag == "default" else {"cbor_encoded": const(flag)}
                if flag == "default":
                    # whatever was thumbprinted before plays no part
                    c.callm(lab.name(X + "X5T"), "from_certificate", A, sym("another certificate", "bytes"))
                rx = Rx(c)
                inner = sym("inner", "bytes")
                rx.maps[cert] = inner
                with rx:
                    r = c.run(lab.name(X + "X5T"), "from_certificate", A, cert, **kw)
                if r.pc == FALSE:
                    rep.undecided(what + ": never completes")
                    continue
                ok_guard(rep, B.Not(r.pc), "refused|from_certificate|" + nm, what + ": completes")
                o = single(r.value)
                if o is None:
                    rep.undecided(what)
                    continue
                c2 = Ctx(lab, r.state)
                c2.st.pc = r.pc
                rep.same(c2.get1(o, "alg"), A, r.pc, "label|from_certificate", what + ": algorithm")
                is_digest(rep, c2.get1(o, "thumbprint"), i, par, inner if flag is True else cert, r.pc, "digest|" + nm, what)
                # decoding what it encodes
                e = Ctx(lab, r.state)
                er = e.run(o, "encode")
                encoded(rep, e, er, A, i, c2.get1(o, "thumbprint"), "encode|X5T", "X5T.encode[%s]" % nm)
        with rep.case("X5T.decode[%s]" % nm):
            decoded(lab, rep, i, nm, A, tp)
        with rep.case("X5T.matches[%s]" % nm):
            matches(lab, rep, i, nm, par, A, cert, tp)
    with rep.case("X5T.decode of unknown algorithms"):
        what = "X5T.decode: an unknown algorithm"
        c = lab.ctx()
        r = c.run(lab.name(X + "X5T"), "decode", c.list(const(-65000), tp))
        ok_guard(rep, r.pc, "decode-unknown|X5T", what + " is refused")
    equality(lab, rep, algs, tp)
    bags(lab, rep)
    chains(lab, rep)
    with rep.case("X5U"):
        c = lab.ctx()
        u = c.new(X + "X5U", sym("uri", "str"))
        r = c.run(u, "encode")
        rep.same(c.snap(r), sym("uri", "str"), r.pc, "encode|X5U", "X5U.encode")
    rep.floor("hash algorithms", len(algs), 5)


def encoded(rep, e, er, A, i, tpv, key, what):
    if er.pc == FALSE:
        rep.undecided(what + ": never completes")
        return
    for g, u in from_term(e.snap(er)):
        q = B.And(er.pc, g)
        if not sat(q):
            continue
        els = list_elems(u)
        if els is None:
            (rep.undecided(what) if has_top(u) else rep.bad(key, what + ": not a pair", "", show(u)[:200]))
            continue
        if len(els) != 2:
            rep.bad(key, what + ": %d elements" % len(els), "", show(u)[:200])
            continue
        for g1, a in from_term(els[0]):
            if not sat(B.And(q, g1)):
                continue
            if has_top(a) or imprecise(B.And(q, g1)):
                rep.undecided(what)
            else:
                rep.check(a is A or a is const(i), key, what + ": hash algorithm", "", show(a)[:200])
        rep.same(els[1], tpv, q, key, what + ": value")


def decoded(lab, rep, i, nm, A, tp):
    what = "X5T.decode[%s]" % nm
    for kind, first in (("id", const(i)), ("class", A)):
        c = lab.ctx()
        r = c.run(lab.name(X + "X5T"), "decode", c.list(first, tp))
        if r.pc == FALSE:
            if kind == "id":
                rep.undecided(what + ": never completes")
            continue
        o = single(r.value)
        if o is None:
            rep.undecided(what)
            continue
        c2 = Ctx(lab, r.state)
        c2.st.pc = r.pc
        rep.same(c2.get1(o, "alg"), A, r.pc, "decode|X5T", what + ": algorithm")
        rep.same(c2.get1(o, "thumbprint"), tp, r.pc, "decode|X5T", what + ": value")


def matches(lab, rep, i, nm, par, A, cert, tp):
    for flag in ("default", False, True):
        what = "X5T.matches[%s%s]" % (nm, ", CBOR" if flag is True else "")
        for source in ("constructed", "decoded", "empty", "asked before"):
            if source == "asked before" and flag is True:
                continue
            c = lab.ctx()
            v = const(b"") if source == "empty" else tp
            if source == "decoded":
                o = single(c.callm(lab.name(X + "X5T"), "decode", c.list(const(i), v)))
            else:
                o = c.new(X + "X5T", A, v)
            if o is None:
                rep.undecided(what)
                continue
            if source == "asked before":
                c.callm(o, "matches", sym("another certificate", "bytes"))
            inner = sym("inner", "bytes")
            rx = Rx(c)
            rx.maps[cert] = inner
            data = inner if flag is True else cert
            kw = {} if flag == "default" else {"cbor_encoded": const(flag)}
            with rx:
                r = c.run(o, "matches", cert, **kw)
            if r.pc == FALSE:
                rep.undecided(what + ": never completes")
                continue
            res = as_term(r.value, r.pc)
            yes = B.And(r.pc, g_truthy(res))
            if source == "empty":
                ok_guard(rep, yes, "empty|matches", what + ": an empty thumbprint matches nothing")
                continue
            if has_top(res):
                rep.undecided(what)
                continue
            # every way to answer yes compares the thumbprint with the digest of the certificate
            want = None
            for v2 in sorted(B.support(yes)):
                k, *a = tm.ATOMS[v2]
                if k == "eq" and tp in a:
                    other = a[0] if a[1] is tp else a[1]
                    d = digest(other)
                    if d is not None:
                        want = (v2, other)
            if want is None:
                if imprecise(yes):
                    rep.undecided(what)
                else:
                    rep.bad("compare|matches", what + ": answers yes without comparing the thumbprint with a digest", "", showg(yes)[:300])
                continue
            is_digest(rep, want[1], i, par, data, yes, "digest-matches|" + nm, what)
            lit = B.literal(want[0])
            ok_guard(rep, B.And(yes, B.Not(lit)), "compare|matches", what + ": yes only for a certificate with this thumbprint")
            ok_guard(rep, B.And(B.And(r.pc, B.Not(yes)), B.And(lit, g_truthy(tp))), "compare|matches",
                     what + ": yes for a certificate with this thumbprint")
            ok_guard(rep, B.And(B.Not(r.pc), B.And(lit, g_truthy(tp))), "compare|matches",
                     what + ": answers for a certificate with this thumbprint")


def equality(lab, rep, algs, tp):
    t2 = sym("tp2", "bytes")
    for i, nm, _ in algs:
        for j, nm2, _ in algs:
            what = "X5T[%s] == X5T[%s]" % (nm, nm2)
            with rep.case(what):
                c = lab.ctx()
                a, b = c.new(X + "X5T", algterm(lab, i), tp), c.new(X + "X5T", algterm(lab, j), t2)
                r = c.run(a, "__eq__", b)
                if r.pc == FALSE:
                    rep.undecided(what)
                    continue
                yes = g_truthy(as_term(r.value, r.pc))
                want = g_eq(tp, t2) if i == j else FALSE
                ok_guard(rep, B.And(r.pc, B.And(yes, B.Not(want))), "equality|X5T", what + ": equal only if both agree")
                ok_guard(rep, B.And(r.pc, B.And(B.Not(yes), want)), "equality|X5T", what + ": equal if both agree")


def bags(lab, rep):
    certs = [sym("c%d" % k, "bytes") for k in range(4)]
    for cls in ("X5Bag", "X5Chain"):
        # the same certificate may be there more than once
        for pat in ((), (0,), (0, 1), (0, 1, 2), (0, 1, 2, 3), (0, 0), (0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1)):
            n = len(pat)
            what = "%s.encode, %s" % (cls, "certificates %s" % (pat,) if n else "a bare certificate")
            with rep.case(what):
                c = lab.ctx()
                o = c.new(X + cls, c.list(*[certs[k] for k in pat]) if n else certs[0])
                r = c.run(o, "encode")
                if r.pc == FALSE:
                    rep.undecided(what)
                    continue
                got = c.snap(r)
                if n < 2:
                    rep.same(got, certs[0], r.pc, "encode|" + cls, what)
                    continue
                for g, u in from_term(got):
                    q = B.And(r.pc, g)
                    if not sat(q):
                        continue
                    els = list_elems(u)
                    if els is None:
                        (rep.undecided(what) if has_top(u) else rep.bad("encode|" + cls, what + ": not a list", "", show(u)[:200]))
                    elif len(els) != n:
                        rep.bad("encode|" + cls, what + ": %d certificates" % len(els), "", show(u)[:200])
                    else:
                        for x, k in zip(els, pat):
                            rep.same(x, certs[k], q, "encode|" + cls, what)


def chains(lab, rep):
    certs = [sym("c%d" % k, "bytes") for k in range(4)]
    for how in ("bare", (0,), (0, 1), (0, 1, 2), (0, 1, 2, 3), (0, 0), (0, 1, 1), (0, 1, 0)):
        for via in ("verify_chain", "constructor", "verified before", "verified on construction"):
            what = "X5Chain, %s, %s" % (via, "a bare certificate" if how == "bare" else "certificates %s" % (how,))
            with rep.case(what):
                c = lab.ctx()
                given = [certs[0]] if how == "bare" else [certs[k] for k in how]
                arg = certs[0] if how == "bare" else c.list(*given)
                usage = None
                if via == "constructor":
                    r = c.run(lab.name(X + "X5Chain"), "__call__", arg, const(True))
                else:
                    o = c.new(X + "X5Chain", arg, *([const(True)] if via == "verified on construction" else []))
                    if via == "verified before":
                        c.callm(o, "verify_chain", sym("former usage"))
                    usage = sym("usage")
                    r = c.run(o, "verify_chain", usage)
                validated(rep, c, r, given, usage, what, "verify|%s" % via)
    with rep.case("X5Chain, not verified on request"):
        c = lab.ctx()
        r = c.run(lab.name(X + "X5Chain"), "__call__", c.list(*certs[:2]))
        ok_guard(rep, B.Not(r.pc), "verify|unasked", "X5Chain: an unverified chain can be held")


def validated(rep, c, r, certs, usage, what, key):
    if r.pc == FALSE:
        rep.undecided(what + ": never completes")
        return
    evs = [e for e in r.events if e.kind == "call" and short_name(e.callee) == "validate_usage"]
    if not evs:
        if any(short_name(e.callee) in ("validate_tls", "validate_path", "async_validate_usage") for e in r.events if e.kind == "call") \
                or has_top(as_term(r.value, r.pc)):
            rep.undecided(what)
        else:
            rep.bad(key, what + ": completes without validating the chain")
        return
    done = FALSE
    for e in evs:
        done = B.Or(done, e.pc)
        ct = None
        for g, x in from_term(e.callee.args[0]):
            while x.op == "fresh":
                x = x.args[1]
            if x.op == "call" and short_name(x.args[0]) == VALIDATOR:
                ct = x
        if ct is None:
            rep.undecided(what + ": validator")
            continue
        kw = dict(ct.args[2]) if len(ct.args) > 2 and ct.args[2] else {}
        for k, nm in enumerate(("end_entity_cert", "intermediate_certs", "validation_context")):
            if k < len(ct.args[1]):
                kw.setdefault(nm, ct.args[1][k])
        rep.same(kw.get("end_entity_cert", NONE), certs[0], e.pc, key, what + ": the first certificate is the end entity", e.where())
        for g, u in from_term(kw.get("intermediate_certs", NONE)):
            q = B.And(e.pc, g)
            if not sat(q):
                continue
            els = [] if u is NONE else list_elems(u) if u.args else []
            if els is None or has_top(u) or imprecise(q):
                rep.undecided(what + ": intermediates " + show(u)[:100])
            elif len(els) != len(certs) - 1:
                rep.bad(key, what + ": %d intermediates instead of %d" % (len(els), len(certs) - 1), e.where(), show(u)[:200])
            else:
                for x, y in zip(els, certs[1:]):
                    rep.same(x, y, q, key, what + ": intermediates", e.where())
        for g, v in from_term(kw.get("validation_context", NONE)):
            if sat(B.And(e.pc, g)):
                if has_top(v):
                    rep.undecided(what + ": trust settings")
                else:
                    rep.check(v is NONE, key, what + ": the validator's own trust settings", e.where(), show(v)[:200])
        uk = dict(e.kw)
        u = uk.get("key_usage", e.args[0] if e.args else None)
        if u is None:
            rep.undecided(what + ": usage")
        elif usage is not None:
            rep.same(u, usage, e.pc, key, what + ": requested usage", e.where())
        else:
            for g, v in from_term(u):
                if not sat(B.And(e.pc, g)):
                    continue
                if v.op in ("set", "list", "tuple", "frozenset") and all(isinstance(x, Term) for x in v.args):
                    rep.check(const("digital_signature") in v.args, key, what + ": digital signatures", e.where(), show(v)[:200])
                elif is_const(v) and isinstance(cval(v), (set, frozenset, list, tuple)):
                    rep.check("digital_signature" in cval(v), key, what + ": digital signatures", e.where(), show(v)[:200])
                else:
                    rep.undecided(what + ": usage " + show(v)[:100])
    ok_guard(rep, B.And(r.pc, B.Not(done)), key, what + ": nothing completes without validation")
    if usage is not None:
        res = as_term(r.value, r.pc)
        if has_top(res):
            rep.undecided(what + ": result")
        else:
            good = any(x.op == "call" and short_name(x.args[0]) == "validate_usage" for _, x in from_term(res))
            rep.check(good, key, what + ": the validated path is returned", "", show(res)[:200])
