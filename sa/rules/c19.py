"""C19: registries map every registered identifier, name and class to the one registered class."""
from .common import *      # noqa

RULE = ("X.from_id(identifier), X.from_id(name, any case) and X.from_id(class) are the class whose identifier is the IANA value, for "
        "every registered header parameter, algorithm, curve, key type, key operation and key parameter; no two classes share an "
        "entry; what is not registered is refused, or handed back untouched where unknown values are allowed; curves carry the "
        "registered key type, coordinate size and library curve")
EXPLAIN = ("The registries are those the module-level decorators build (analysed, not run). from_id is analysed with every "
           "identifier, with every class, with the class's own name in three spellings, and with an arbitrary integer and string, "
           "and its result compared with the IANA tables.")
K = "pycose.keys."
REG = [("pycose.headers.CoseHeaderAttribute", "pycose.headers.", iana.HEADERS, "headers"),
       ("pycose.algorithms.CoseAlgorithm", "pycose.algorithms.", {i: n for i, (n, _, _) in iana.ALGS.items()}, "algorithms"),
       (K + "curves.CoseCurve", K + "curves.", {i: v[0] for i, v in iana.CURVES.items()}, "curves"),
       (K + "keytype.KTY", K + "keytype.", iana.KTYS, "key types"),
       (K + "keyops.KeyOps", K + "keyops.", iana.KEYOPS, "key operations")] + [
       (K + "keyparam." + r, K + "keyparam.", d if r == "KeyParam" else {**iana.KEYPARAMS["KeyParam"], **d}, r)
       for r, d in iana.KEYPARAMS.items()]
CURVE_OBJ = {"P256": "SECP256R1", "P384": "SECP384R1", "P521": "SECP521R1", "SECP256K1": "SECP256K1",
             "X25519": "X25519PrivateKey", "X448": "X448PrivateKey", "Ed25519": "Ed25519PrivateKey",
             "Ed448": "Ed448PrivateKey"}


def resolve(rep, lab, reg, arg, want, key, what, **kw):
    """from_id(arg) is exactly `want`"""
    c = lab.ctx()
    r = c.run(lab.name(reg), "from_id", arg, **kw)
    if not sat(r.pc):
        names = sorted(c.raised(r))
        if any(imprecise(g) for g in c.raised(r).values()):
            rep.undecided(what)
        else:
            rep.bad(key, what + ": refused", reg, "raises %s" % names)
        return
    t = as_term(r.value, r.pc)
    rep.same(t, want, r.pc, key, what, reg)
    for n, g in c.raised(r).items():
        if sat(g) and not imprecise(g):
            rep.bad(key, what + ": refused", reg, "raises %s when %s" % (n, showg(g)[:200]))


def registries(lab, rep):
    for reg, mod, table, label in REG:
        for i, n in sorted(table.items()):
            with rep.case("%s %d" % (label, i)):
                c = lab.ctx()
                cls = lab.name(mod + n)
                own = c.get1(cls, "identifier")
                rep.same(own, const(i), TRUE, "identifier|%s.%s" % (label, n),
                         "the identifier of %s is the registered value" % n, mod + n)
                resolve(rep, lab, reg, const(i), cls, "from_id|%s" % label, "%s: %d resolves to %s" % (label, i, n))
                resolve(rep, lab, reg, cls, cls, "from_id(class)|%s" % label, "%s: class %s resolves to itself" % (label, n))
                f = c.get1(cls, "fullname")
                if not is_const(f) or not isinstance(cval(f), str):
                    rep.undecided("name of %s: %s" % (n, show(f)[:100]))
                    continue
                for s in {cval(f), cval(f).lower(), cval(f).upper(), cval(f).swapcase()}:
                    resolve(rep, lab, reg, const(s), cls, "from_id(name)|%s" % label,
                            "%s: name %r resolves to %s" % (label, s, n))
    # every class that is registered at all, whatever its identifier
    for reg, mod, table, label in REG:
        with rep.case("collisions in %s" % label):
            c = lab.ctx()
            seen = {}
            for q in lab.I.subclasses_of(lab.q(reg)):
                t = T("class", q)
                i = c.get1(t, "identifier")
                if is_const(i) and type(cval(i)) is int:
                    seen.setdefault(cval(i), []).append(q)
            for i, qs in sorted(seen.items()):
                rep.check(len(qs) == 1 or None if i not in table else len(qs) == 1, "collision|%s" % label,
                          "%s: one class per identifier (%d: %s)" % (label, i, qs), reg)


def unknown(lab, rep):
    for reg, mod, table, label in REG:
        for ty in ("int", "str"):
            for allow in (None, False, True):
                with rep.case("unknown %s in %s" % (ty, label)):
                    lab.I.registry_limit = 14 if ty == "str" else 10 ** 9
                    c = lab.ctx()
                    x = sym("anyid", ty)
                    TYPES[x] = ty
                    r = c.run(lab.name(reg), "from_id", x, **({} if allow is None else {"allow_unknown_attributes": const(allow)}))
                    names = sorted(table)
                    if ty == "int":
                        known = [const(i) for i in names]
                        kn = FALSE
                        for k in known:
                            kn = B.Or(kn, g_eq(x, k))
                        other = B.Not(kn)
                        if allow:
                            for g, v in from_term(as_term(r.value, r.pc)):
                                q = B.And(r.pc, other, g)
                                if sat(q) and not (v.op == "class" and extra(c, v, x, q)):
                                    rep.same(v, x, q, "unknown kept|%s" % label,
                                             "%s: an unregistered identifier is handed back as it is" % label, reg)
                            for n, g in c.raised(r).items():
                                q = B.And(g, other)
                                if sat(q) and not imprecise(q):
                                    rep.bad("unknown kept|%s" % label, "%s: an unregistered identifier is accepted where allowed" % label,
                                            reg, "raises %s when %s" % (n, showg(q)[:200]))
                        elif sat(r.pc):
                            # completing means: a registered class
                            reach = B.And(r.pc, other)
                            if not sat(reach):
                                rep.ok("%s: unregistered identifiers are refused" % label)
                            else:
                                for g, v in from_term(as_term(r.value, r.pc)):
                                    q = B.And(reach, g)
                                    if not sat(q):
                                        continue
                                    if imprecise(q) or has_top(v):
                                        rep.undecided("%s: unregistered identifier" % label)
                                    elif v.op == "class" and extra(c, v, x, q):
                                        rep.ok("%s: a further registered class under its own identifier" % label)
                                    else:
                                        rep.bad("unknown refused|%s" % label, "%s: an unregistered identifier is refused" % label, reg,
                                                "yields %s when %s" % (show(v)[:200], showg(q)[:200]))
                            bad = sorted(n for n, g in c.raised(r).items() if n != "CoseException" and sat(g) and not imprecise(g))
                            rep.check(not bad, "unknown refused|%s" % label,
                                      "%s: an unregistered identifier is refused with CoseException" % label, reg, str(bad))
                        else:
                            rep.undecided("%s: from_id never completes for an integer" % label)
                    else:
                        # a name never resolves to something that is not registered under that name
                        if not sat(r.pc):
                            rep.undecided("%s: from_id never completes for a string" % label)
                            continue
                        for g, v in from_term(as_term(r.value, r.pc)):
                            q = B.And(r.pc, g)
                            if not sat(q):
                                continue
                            what = "%s: a string resolves to a registered class%s" % (label, " or itself" if allow else "")
                            if v.op == "class" or (allow and v is x) or (v.op == "item" and v.args[0].op == "registry"):
                                rep.ok(what)
                            elif has_top(v) or imprecise(q):
                                rep.undecided(what)
                            else:
                                rep.bad("unknown refused|%s" % label, what, reg, "yields %s when %s" % (show(v)[:200], showg(q)[:200]))


def near(lab, rep):
    """Spellings and values next to the registered ones, lists with one unregistered element."""
    for reg, mod, table, label in REG:
        c = lab.ctx()
        names, ids = set(), set(table)
        for q in lab.I.subclasses_of(lab.q(reg)) + [lab.q(mod + n) for n in table.values()]:
            f, i = c.get1(T("class", q), "fullname"), c.get1(T("class", q), "identifier")
            if is_const(f):
                names.add(str(cval(f)).upper())
            if is_const(i):
                ids.add(cval(i))
        cand = set()
        for n in sorted(names):
            cand |= {n + " ", " " + n, n + "\n", n + "X", "X" + n, n[:-1], n[1:], n.replace("_", "-"), n.replace("-", "_"), n.replace("_", ""),
                     n.replace("-", ""), n.replace("/", ""), n + n, n.split("_")[0], n.split("-")[0]}
        cand |= {str(i) for i in ids} | {""}
        vals = sorted(x for x in cand if x.upper() not in names) + [n.encode() for n in sorted(names)] + [None, 0.5, b"", 10 ** 6, -10 ** 6]
        vals += [x for i in ids for x in (i + 1, i - 1) if x not in ids]
        for v in vals:
            with rep.case("%r in %s" % (v, label)):
                refused(rep, lab, reg, const(v), "unknown refused|%s" % label, "%s: %r is refused" % (label, v))
                c = lab.ctx()
                r = c.run(lab.name(reg), "from_id", const(v), allow_unknown_attributes=TRUEC)
                what = "%s: %r is handed back where unknown values are allowed" % (label, v)
                if sat(r.pc):
                    rep.same(as_term(r.value, r.pc), const(v), r.pc, "unknown kept|%s" % label, what, reg)
                elif any(imprecise(g) for g in c.raised(r).values()):
                    rep.undecided(what)
                else:
                    rep.bad("unknown kept|%s" % label, what, reg, "raises %s" % sorted(c.raised(r)))
        good = sorted(table)[0]
        for bad in (10 ** 6, "no such name"):
            for items in ([good, bad], [bad, good], [bad]):
                with rep.case("list in %s" % label):
                    c = lab.ctx()
                    refused(rep, lab, reg, c.list(*[const(x) for x in items]), "unknown refused|%s" % label,
                            "%s: the list %r is refused" % (label, items), c)
        with rep.case("list of registered ones in %s" % label):
            c = lab.ctx()
            r = c.run(lab.name(reg), "from_id", c.list(*[const(i) for i in sorted(table)]))
            t = as_term(r.value, r.pc)
            if not sat(r.pc) or t.op != "obj":
                rep.undecided("%s: a list of registered identifiers" % label)
            else:
                got, pc = Ctx(lab, r.state).spec("as_tuple", t, pc=r.pc)
                es = list_elems(got) if got.op in ("tuple", "list") else None
                if es is None or len(es) != len(table):
                    rep.undecided("%s: a list of registered identifiers: %s" % (label, show(got)[:100]))
                else:
                    for i, e in zip(sorted(table), es):
                        rep.same(e, lab.name(mod + table[i]), pc, "from_id(list)|%s" % label, "%s: %d in a list resolves to its class" % (label, i), reg)


def refused(rep, lab, reg, arg, key, what, c=None):
    c = c or lab.ctx()
    r = c.run(lab.name(reg), "from_id", arg)
    if sat(r.pc):
        v = as_term(r.value, r.pc)
        if imprecise(r.pc) or has_top(v):
            rep.undecided(what)
        else:
            rep.bad(key, what, reg, "yields %s" % show(v)[:200])
        return
    bad = sorted(n for n, g in c.raised(r).items() if n != "CoseException" and sat(g) and not imprecise(g))
    rep.check(not bad, key, what + " with CoseException", reg, str(bad))


def extra(c, v, x, q):
    """a class registered in addition to the tables, under its own identifier"""
    i = c.get1(v, "identifier")
    return is_const(i) and not sat(B.And(q, B.Not(g_eq(x, i))))


def curves(lab, rep):
    for i, (n, kt, size) in sorted(iana.CURVES.items()):
        if kt is None:
            continue
        with rep.case("curve %s" % n):
            c = lab.ctx()
            t = lab.name(K + "curves." + n)
            where = K + "curves." + n
            rep.same(c.get1(t, "key_type"), lab.name(K + "keytype.Kty" + kt), TRUE, "key type|%s" % n, "%s: key type" % n, where)
            rep.same(c.get1(t, "size"), const(size), TRUE, "size|%s" % n, "%s: coordinate size" % n, where)
            o = c.get1(t, "curve_obj")
            short = {s.rsplit(".", 1)[-1] for s in extsig.ctor_names(o)} if o.op != "ext" else {o.args[0].rsplit(".", 1)[-1]}
            if not short:
                rep.undecided("library curve of %s: %s" % (n, show(o)[:100]))
            else:
                rep.check(short == {CURVE_OBJ[n]}, "curve_obj|%s" % n, "%s: library curve" % n, where, show(o)[:200])


def run(lab, rep, tier):
    lab.I.registry_limit = 10 ** 9     # spell every table out
    registries(lab, rep)
    unknown(lab, rep)
    near(lab, rep)
    curves(lab, rep)
    rep.floor("identifiers", rep.obligations, 300)
