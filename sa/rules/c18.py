"""C18: every algorithm identifier runs the primitive and parameters it is registered with."""
from .common import *      # noqa

RULE = ("hash, curve, padding, mask generation, salt, key length, tag length, block-mode and truncation operands of every "
        "library primitive reached under an algorithm identifier equal the row of the IANA / RFC 8152, 8230, 8812, 9053, 9054 "
        "registration of that identifier, on both the producing and the consuming side")
EXPLAIN = ("For each of the registered algorithm identifiers the public operations of the message, signer and recipient classes "
           "are analysed with the algorithm fixed and everything else arbitrary; operands of the library calls, the condition "
           "under which the call is reached (key length) and the value returned (truncation) are compared with a table written "
           "from the registrations.  AES-CBC-MAC padding is decided for every residue of the input length modulo 16.")
HN = {"sha1": "SHA1", "sha224": "SHA224", "sha256": "SHA256", "sha384": "SHA384", "sha512": "SHA512", "md5": "MD5",
      "sha3_256": "SHA3_256", "sha3_512": "SHA3_512", "sha512_256": "SHA512_256", "shake_128": "SHAKE128", "shake_256": "SHAKE256"}
ECC = {"NIST256p": "P256", "NIST384p": "P384", "NIST521p": "P521"}
SIZES = {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "SHA512_256": 32}


def last(n):
    return n.rsplit(".", 1)[-1]


def hash_of(x):
    while x.op == "call":
        x = x.args[0]
    if x.op != "ext":
        return None
    n = x.args[0]
    b = last(n)
    if n.startswith("hashlib."):
        return HN.get(b, b)
    if ".hashes." in n or n.endswith("hashes." + b):
        return b
    return None


def int_of(x):
    """Integer a term denotes when it is a published constant."""
    if is_const(x):
        return cval(x)
    if x.op == "ext" and x.args[0].endswith(".digest_size"):
        return SIZES.get(last(x.args[0][:-12]))
    if x.op == "attr" and x.args[1] == "digest_size":
        return SIZES.get(hash_of(x.args[0]))
    return None


def fact(rep, t, f, want, pc, key, what, where):
    """Every alternative of an operand denotes the registered value."""
    if t is None:
        rep.undecided(what)
        return
    for g, x in from_term(t):
        q = B.And(pc, g)
        if not sat(q):
            continue
        v = f(x)
        if v is None or imprecise(q):
            if v == want:
                rep.ok(what)
            else:
                rep.undecided("%s: %s" % (what, show(x)[:100]))
        elif v == want or (isinstance(want, tuple) and v in want):
            rep.ok(what)
        else:
            rep.bad(key, "%s: %s, registered: %s" % (what, v, want), where, show(x)[:200])


def ctor_calls(t):
    """[(guard, constructor call term)] a receiver was made with."""
    if t.op == "fresh":
        return ctor_calls(t.args[1])
    if t.op in ("attr", "meth"):
        return ctor_calls(t.args[0])
    if t.op == "gamma":
        return [(B.And(g, h), c) for g, x in t.args[0] for h, c in ctor_calls(x)]
    if t.op == "call":
        if t.args[0].op == "ext":
            return [(TRUE, t)]
        return ctor_calls(t.args[0])
    return []


def kwof(call):
    return dict(call.args[2]) if len(call.args) > 2 and call.args[2] else {}


def run(lab, rep, tier):
    n = signatures(lab, rep) + macs(lab, rep, tier) + aeads(lab, rep) + wraps(lab, rep) + ecdh(lab, rep) + hashes(lab, rep)
    n += lengths(lab, rep)
    rep.floor("primitive calls compared with the registration", n, 120)


# ------------------------------------------------------------------ signatures

def sig_ops(lab, i, kc, cv):
    for cls in ("Sign1Message", "CoseSignature"):
        for meth in ("compute_signature", "verify_signature"):
            if cls == "Sign1Message":
                c, m = msg_ctx(lab, cls, i)
                c.set(m, "key", sig_key(c, kc, cv))
                yield cls, meth, c, m, ()
            else:
                c, p = msg_ctx(lab, "SignMessage")
                s = signer_of(c, "signer", p, i)
                c.set(s, "key", sig_key(c, kc, cv))
                c.set(p, "signers", c.list(s))
                s = single(c.I.getitem(c.st, one(c.get1(p, "signers")), one(const(0)), None)) or s
                yield cls, meth, c, s, (sym("payload", "bytes"),) if False else ()


def signatures(lab, rep):
    n = 0
    for i, nm, par in iana.algs("sig"):
        for kc, cv in sig_keys(lab, i):
            with rep.case("signatures %s" % nm):
                for cls, meth, c, m, args in sig_ops(lab, i, kc, cv):
                    what = "%s.%s[%s%s]" % (cls, meth, nm, "," + cv if cv and par["fam"] == "eddsa" else "")
                    r = c.run(m, meth, *args)
                    evs = sign_events(r) if meth == "compute_signature" else verify_events(r)
                    if not evs:
                        rep.undecided(what + ": no primitive")
                    for e in evs:
                        n += 1
                        sig_event(rep, e, par, cv, nm, what, meth)
    return n


def sig_event(rep, e, par, cv, nm, what, meth):
    w, fam = e.where(), par["fam"]
    key = lambda x: "%s|%s.%s" % (x, nm, meth)
    ctors = ctor_calls(e.callee.args[0])
    if fam == "ecdsa":
        h = e.kw.get("hashfunc")
        for g, ct in ctors:
            k = kwof(ct)
            if ct.args[0].args[0].startswith("ecdsa."):
                fact(rep, k.get("curve"), lambda x: ECC.get(last(x.args[0]), last(x.args[0])) if x.op == "ext" else None,
                     par["curve"], B.And(e.pc, g), key("curve"), what + ": curve", w)
                if e.name.startswith((".sign_digest", ".verify_digest")):
                    d = e.kw.get("digest")
                    fact(rep, d, lambda x: hash_of(x.args[1][0]) if x.op == "call" and x.args[0] is ext("stream.digest") else None,
                         par["hash"], B.And(e.pc, g), key("hash"), what + ": hash", w)
                else:
                    hh = h if h is not None and h is not NONE else k.get("hashfunc", ext("hashlib.sha1"))
                    fact(rep, hh, hash_of, par["hash"], B.And(e.pc, g), key("hash"), what + ": hash", w)
                enc = e.kw.get("sigencode", e.kw.get("sigdecode"))
                if enc is not None:
                    fact(rep, enc, lambda x: last(x.args[0]) if x.op == "ext" else None, ("sigencode_string", "sigdecode_string"),
                         e.pc, key("format"), what + ": signature format", w)
            else:
                rep.undecided(what + ": " + show(ct.args[0])[:80])
    elif fam == "eddsa":
        for g, ct in ctors:
            names = [x for x in ct.args[0].args[0].split(".") if x.startswith(("Ed25519P", "Ed448P"))]
            v = names[0].split("P")[0] if names else None
            if v is None:
                rep.undecided(what + ": key class")
            elif not sat(B.And(e.pc, g)):
                continue
            elif v != cv:
                rep.bad(key("curve"), "%s: key object %s" % (what, v), w)
            else:
                rep.ok(what)
    else:
        q = e.pc
        if e.kw.get("algorithm") is not None and any(x.op == "call" and last(show(x.args[0])) == "Prehashed"
                                                     for _, x in from_term(e.kw["algorithm"])):
            rep.undecided(what + ": prehashed")
            return
        fact(rep, e.kw.get("algorithm"), hash_of, par["hash"], q, key("hash"), what + ": hash", w)
        padding(rep, e.kw.get("padding"), par, q, key, what, w, fam)


def padding(rep, p, par, pc, key, what, w, fam):
    want = {"pss": "PSS", "pkcs1": "PKCS1v15", "oaep": "OAEP"}[fam]
    fact(rep, p, lambda x: last(x.args[0].args[0]) if x.op == "call" and x.args[0].op == "ext" else None, want, pc,
         key("padding"), what + ": padding", w)
    if p is None:
        return
    for g, x in from_term(p):
        if x.op != "call" or x.args[0].op != "ext" or last(x.args[0].args[0]) != want or want == "PKCS1v15":
            continue
        k, q = kwof(x), B.And(pc, g)
        fact(rep, k.get("mgf"), lambda y: hash_of(kwof(y).get("algorithm", NONE)) if y.op == "call" else None, par["hash"], q,
             key("mgf"), what + ": mask generation hash", w)
        if want == "OAEP":
            fact(rep, k.get("algorithm"), hash_of, par["hash"], q, key("hash"), what + ": hash", w)
            lb = k.get("label", NONE)
            fact(rep, lb, lambda y: "empty" if y is NONE or y is const(b"") else "other" if not has_top(y) else None, "empty", q,
                 key("label"), what + ": label", w)
        else:
            def salt(y):
                if (y.op == "ext" and last(y.args[0]) == "DIGEST_LENGTH") or (y.op == "attr" and y.args[1] == "DIGEST_LENGTH"):
                    return SIZES[par["hash"]]
                if y.op == "ext" and last(y.args[0]) in ("MAX_LENGTH", "AUTO"):
                    return last(y.args[0])
                return int_of(y)
            fact(rep, k.get("salt_length"), salt, SIZES[par["hash"]], q, key("salt"), what + ": salt length", w)


# ------------------------------------------------------------------ MAC

def key_guard(rep, c, kt, size, pc, key, what, where):
    if known_len_is(kt, size):
        rep.ok(what)
        return
    t, _ = c.spec("length", kt)
    ok_guard(rep, B.And(pc, B.Not(g_eq(t, const(size)))), key, what + ": key length", where)


def known_len_is(t, n):
    return extsig.known_len(t) == n


def macs(lab, rep, tier):
    n = 0
    for i, nm, par in iana.algs("hmac", "aesmac"):
        kind = iana.ALGS[i][1]
        for cls in ("Mac0Message", "MacMessage"):
            lens = [64] if kind == "hmac" or (cls == "MacMessage" and tier != "thorough") else list(range(48, 65))
            for L in lens:
                for meth in ("compute_tag", "verify_tag"):
                    what = "%s.%s[%s], %d bytes" % (cls, meth, nm, L)
                    with rep.case(what):
                        c, m = msg_ctx(lab, cls, i)
                        extsig.DUMPS_LEN[0] = L
                        k = sym_key(c)
                        c.set(m, "key", k)
                        if cls == "MacMessage":
                            c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
                        r = c.run(m, meth)
                        key = lambda x: "%s|%s.%s" % (x, nm, meth)
                        evs = mac_events(r)
                        for e in evs:
                            n += 1
                            mac_event(rep, c, e, kind, par, key, what)
                        if not evs:
                            rep.undecided(what + ": no primitive")
                        elif meth == "compute_tag" and r.pc != FALSE:
                            tag_value(rep, c, as_term(r.value, r.pc), evs, par, r.pc, key("tag"), what)
                    extsig.DUMPS_LEN[0] = None
    return n


def mac_event(rep, c, e, kind, par, key, what):
    w = e.where()
    for g, ct in ctor_calls(e.args[0]):
        k, q, name = kwof(ct), B.And(e.pc, g), last(ct.args[0].args[0])
        if kind == "hmac":
            if name != "HMAC":
                rep.bad(key("primitive"), "%s: %s is not HMAC" % (what, name), w)
                continue
            fact(rep, k.get("algorithm", k.get("digestmod")), hash_of, par["hash"], q, key("hash"), what + ": hash", w)
        else:
            if name != "Cipher":
                rep.bad(key("primitive"), "%s: %s is not CBC-MAC" % (what, name), w)
                continue
            alg, mode = k.get("algorithm"), k.get("mode")
            fact(rep, alg, lambda x: last(x.args[0].args[0]) if x.op == "call" and x.args[0].op == "ext" else None,
                 ("AES", "AES128", "AES256"), q, key("cipher"), what + ": cipher", w)
            fact(rep, mode, lambda x: last(x.args[0].args[0]) if x.op == "call" and x.args[0].op == "ext" else None,
                 "CBC", q, key("mode"), what + ": mode", w)
            for g2, x in from_term(mode) if mode is not None else ():
                iv = kwof(x).get("initialization_vector") if x.op == "call" else None
                fact(rep, iv, lambda y: cval(y) if is_const(y) else None if has_top(y) else "not zero", b"\0" * 16, B.And(q, g2),
                     key("iv"), what + ": initialisation vector", w)
            for g2, x in from_term(alg) if alg is not None else ():
                kt = kwof(x).get("key") if x.op == "call" else None
                if kt is None:
                    rep.undecided(what + ": key")
                else:
                    key_guard(rep, c, kt, par["key"], B.And(q, g2), key("key-length"), what, w)
            dt = e.args[1]
            L = extsig.DUMPS_LEN[0]
            total = extsig.known_len(dt)
            want = -(-L // 16) * 16
            if total is None:
                rep.undecided(what + ": padding: " + show(dt)[-100:])
            elif total != want:
                rep.bad(key("padding"), "%s: %d bytes authenticated instead of %d" % (what, total, want), w)
            elif total != L:
                tail = dt.args[-1] if dt.op == "cat" else None
                if tail is not None and is_const(tail) and cval(tail) == b"\0" * (total - L) and len(dt.args) == 2:
                    rep.ok(what + ": padding")
                elif has_top(dt) or dt.op != "cat" or not any(is_const(x) for x in dt.args):
                    rep.undecided(what + ": padding")
                else:
                    rep.bad(key("padding"), what + ": padding is not zeros at the end", w, show(dt)[-200:])
            else:
                rep.ok(what + ": padding")


# ------------------------------------------------------------------ content encryption

def aeads(lab, rep):
    n = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        kind = iana.ALGS[i][1]
        for cls in ("Enc0Message", "EncMessage"):
            for meth in ("encrypt", "decrypt"):
                what = "%s.%s[%s]" % (cls, meth, nm)
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, i)
                    c.set(m, "key", sym_key(c))
                    args = []
                    if cls == "EncMessage":
                        rc = rcpt_for(c, "direct")
                        c.set(m, "recipients", c.list(rc))
                        args = [rc] if meth == "decrypt" else []
                    pre = c.fork()
                    r = c.run(m, meth, *args)
                    evs = aead_events(r, "." + meth)
                    if not evs:
                        rep.undecided(what + ": no primitive")
                    for e in evs:
                        n += 1
                        key = lambda x: "%s|%s.%s" % (x, nm, meth)
                        for g, ct in ctor_calls(e.callee.args[0]):
                            k, q = kwof(ct), B.And(e.pc, g)
                            if not sat(q):
                                continue
                            name = last(ct.args[0].args[0])
                            rep.check(name == ("AESGCM" if kind == "gcm" else "AESCCM"), key("primitive"),
                                      "%s: %s" % (what, name), e.where())
                            key_guard(rep, pre, k.get("key", top("key")), par["key"], q, key("key-length"), what, e.where())
                            if kind == "ccm":
                                fact(rep, k.get("tag_length", const(16)), int_of, par["tag"], q, key("tag-length"),
                                     what + ": tag length", e.where())
    return n


# ------------------------------------------------------------------ key transport

def wraps(lab, rep):
    n = 0
    G = lambda i: algterm(lab, i)
    for i, nm, par in iana.algs("aeskw"):
        for cek in (1, 3, 10):
            for side in ("send", "receive"):
                what = "KeyWrap %s %s, content algorithm %d" % (nm, side, cek)
                with rep.case(what):
                    c, m = msg_ctx(lab, "EncMessage", cek)
                    if side == "send":
                        rc = recipient(c, i, "r", sym_key(c, "kek"))
                        c.set(m, "recipients", c.list(rc))
                        r = c.run(m, "encode")
                        evs = extcalls(r, "aes_key_wrap")
                    else:
                        rc = rx_recipient_alg(c, i)
                        r = c.run(rc, "decrypt", G(cek))
                        evs = extcalls(r, "aes_key_unwrap")
                    if not evs:
                        rep.undecided(what + ": no primitive")
                    for e in evs:
                        n += 1
                        key_guard(rep, c, e.kw.get("wrapping_key", top("key")), par["key"], e.pc, "key-length|%s.%s" % (nm, side),
                                  what, e.where())
    for i, nm, par in iana.algs("oaep"):
        for side in ("send", "receive"):
            what = "KeyWrap %s %s" % (nm, side)
            with rep.case(what):
                c, m = msg_ctx(lab, "EncMessage", 1)
                if side == "send":
                    rc = recipient(c, i, "r", c.inst("pycose.keys.RSAKey", "rsa"))
                    c.set(m, "recipients", c.list(rc))
                    r = c.run(m, "encode")
                    evs = extcalls(r, ".encrypt", ctor=("RSAPublicNumbers", "RSAPrivateNumbers"))
                else:
                    rc = rx_recipient_alg(c, i)
                    r = c.run(rc, "decrypt", G(1))
                    evs = extcalls(r, ".decrypt", ctor=("RSAPrivateNumbers",))
                if not evs:
                    rep.undecided(what + ": no primitive")
                for e in evs:
                    n += 1
                    padding(rep, e.kw.get("padding"), par, e.pc, lambda x: "%s|%s.%s" % (x, nm, side), what, e.where(), "oaep")
    return n


def ecdh(lab, rep):
    n = 0
    for i, nm, par in iana.algs("ecdhdirect", "ecdhkw"):
        kind = iana.ALGS[i][1]
        for side in ("send", "receive"):
            what = "%s %s" % (nm, side)
            key = lambda x: "%s|%s.%s" % (x, nm, side)
            with rep.case(what):
                c, m = msg_ctx(lab, "EncMessage", 1)
                if side == "send":
                    rc = recipient(c, i, "r", ec_key(c, "local"), bucket="phdr")
                    H = lab.name("pycose.headers.StaticKey" if par["static"] else "pycose.headers.EphemeralKey")
                    c.set(rc, "local_attrs", c.dict([(lab.name("pycose.headers.StaticKey"), ec_key(c, "peer"))]))
                    if not par["static"]:
                        c.callm(rc, "uhdr_update", c.dict([(H, ec_key(c, "local"))]))
                    c.set(m, "recipients", c.list(rc))
                    r = c.run(m, "encode")
                else:
                    rc = rx_recipient_alg(c, i)
                    c.set(m, "recipients", c.list(rc))
                    r = c.run(m, "decrypt", rc)
                evs = extcalls(r, "HKDF")
                if not evs:
                    rep.undecided(what + ": no key derivation")
                for e in evs:
                    n += 1
                    fact(rep, e.kw.get("algorithm"), hash_of, par["hash"], e.pc, key("hash"), what + ": HKDF hash", e.where())
                    if kind == "ecdhkw":
                        fact(rep, e.kw.get("length"), int_of, iana.ALGS[par["kw"]][2]["key"], e.pc, key("kek-length"),
                             what + ": length of the key-wrapping key", e.where())
                if kind == "ecdhkw":
                    ws = extcalls(r, "aes_key_wrap" if side == "send" else "aes_key_unwrap")
                    if not ws:
                        if r.pc != FALSE and not has_top(as_term(r.value, r.pc)):
                            rep.bad(key("no-wrap"), what + " completes without an AES key wrap")
                        else:
                            rep.undecided(what + ": no key wrap")
                    for e in ws:
                        n += 1
                        for g, x in from_term(e.kw.get("wrapping_key", top("key"))):
                            if x.op == "call" and x.args[0].op in ("attr", "meth") and "HKDF" in extsig.ctor_names(x.args[0]):
                                for g2, ct in ctor_calls(x.args[0]):
                                    fact(rep, kwof(ct).get("length"), int_of, iana.ALGS[par["kw"]][2]["key"], B.And(e.pc, g, g2),
                                         key("kek-length"), what + ": length of the key-wrapping key", e.where())
                            else:
                                key_guard(rep, c, x, iana.ALGS[par["kw"]][2]["key"], B.And(e.pc, g), key("kek-length"), what,
                                          e.where())
    return n


# ------------------------------------------------------------------ hashes and key lengths

def hashes(lab, rep):
    n = 0
    for i, nm, par in iana.algs("hash"):
        with rep.case("hash " + nm):
            c = lab.ctx()
            d = sym("data", "bytes")
            r = c.run(algterm(lab, i), "compute_hash", d)
            n += 1
            what = "%s.compute_hash" % nm
            if r.pc == FALSE:
                rep.undecided(what + ": never completes")
                continue
            for g, x in from_term(as_term(r.value, r.pc)):
                if not sat(B.And(r.pc, g)):
                    continue
                base = x
                while base.op == "slice":
                    base = base.args[0]
                if base.op != "call" or base.args[0] is not ext("stream.digest"):
                    if has_top(x):
                        rep.undecided(what)
                    else:
                        rep.bad("digest|" + nm, what + ": not a library digest", "", show(x)[:200])
                    continue
                ct = base.args[1][0]
                h = hash_of(kwof(ct).get("algorithm", ct))
                ln = extsig.known_len(x)
                if h is None or ln is None:
                    rep.undecided(what + ": " + show(x)[:100])
                    continue
                head = x is base or (x.op == "slice" and x.args[0] is base and x.args[1] in (const(0), NONE))
                good = ln == par["out"] and head and base.args[1][1] is d and (h == par["hash"] or (i == -17 and h == "SHA512_256"))
                rep.check(good, "digest|" + nm, what + ": leftmost %d bytes of %s of the data" % (par["out"], par["hash"]), "",
                          show(x)[:200])
    return n


def lengths(lab, rep):
    n = 0
    for i, nm, par in iana.algs("hmac", "aesmac", "gcm", "ccm", "aeskw"):
        with rep.case("get_key_length " + nm):
            c = lab.ctx()
            r = c.run(algterm(lab, i), "get_key_length")
            n += 1
            fact(rep, as_term(r.value, r.pc), int_of, par["key"], r.pc, "key-length|%s.get_key_length" % nm,
                 "%s.get_key_length()" % nm, "")
    for i, nm, par in iana.algs("ccm"):
        with rep.case("get_tag_length " + nm):
            c = lab.ctx()
            r = c.run(algterm(lab, i), "get_tag_length")
            fact(rep, as_term(r.value, r.pc), int_of, par["tag"], r.pc, "tag-length|%s.get_tag_length" % nm,
                 "%s.get_tag_length()" % nm, "")
    return n
