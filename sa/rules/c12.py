"""C12: what leaves as an encrypted message holds the plaintext and the keys only inside the output of a primitive."""
from .common import *      # noqa

RULE = ("no path of value flow from a payload, a content key, a wrapping key, a derived or agreed secret, random key bytes or the "
        "private part of a key to the bytes returned by an encrypting encode other than through the output of an encryption, "
        "wrapping or authentication primitive")
EXPLAIN = ("Encoding of COSE_Encrypt0, COSE_Encrypt and COSE_Mac messages with every content algorithm and every kind and "
           "combination of recipient structures in an arbitrary state is analysed; the term of the returned bytes is searched "
           "for the terms of secret values outside primitive calls.")
WRAPS = ("aeskw", "oaep", "ecdhkw")


def judge(rep, c, m, x, secrets, what, key, owners):
    if x.pc == FALSE or not sat(x.pc):
        rep.undecided(what + ": never completes")
        return 0
    out = c.snap(x)
    if out.op not in ("list", "call", "gamma"):
        rep.undecided(what + ": output not recognised: " + show(out)[:100])
        return 0
    ls = leaks(out, secrets, x.pc)
    if any(s is None for _, s, _ in ls):
        rep.undecided(what + ": lost value in the output")
    bad = [(s, g) for _, s, g in ls if s is not None]
    for s, g in bad[:3]:
        if imprecise(g):
            rep.undecided(what + ": " + show(s)[:100])
        else:
            rep.bad("leak|" + key, "%s: secret value reaches the output outside any primitive: %s" % (what, show(s)[:120]), "",
                    showg(g)[:200])
    if not bad:
        rep.ok(what)
    return 1


def all_secrets(c, keys):
    out = set()
    for k in keys:
        if k is not None:
            out |= key_secrets(c, k)
    return out


def run(lab, rep, tier):
    n = 0
    for i, nm, par in iana.algs("gcm", "ccm"):
        for how in ({}, {"tag": sym("tag", "bool")}, {"tag": sym("tag", "bool"), "encrypt": TRUEC}):
            what = "Enc0Message.encode(%s)[%s]" % (", ".join("%s=%s" % (k, show(v)) for k, v in how.items()), nm)
            with rep.case(what):
                c, m = msg_ctx(lab, "Enc0Message", i)
                k = sym_key(c)
                c.set(m, "key", k)
                sec = {c.get1(m, "payload")} | key_secrets(c, k)
                n += judge(rep, c, m, c.run(m, "encode", **how), sec, what, "Enc0Message.encode", None)
    rc = [(i, nm, False) for i, nm, _ in iana.algs("aeskw", "oaep", "ecdhdirect", "ecdhkw")]
    rc += [(i, nm, True) for i, nm, par in iana.algs("ecdhdirect", "ecdhkw") if not par["static"]]
    rc.append((-6, "Direct", False))
    for cls, cek in (("EncMessage", 1), ("EncMessage", 32), ("MacMessage", 14)):
        for i, nm, fresh in rc:
            if cek == 32 and fresh:
                continue
            for chosen in ((False, True) if iana.ALGS[i][1] in WRAPS + ("direct",) else (False,)):
                what = "%s.encode[%s] via %s%s%s" % (cls, iana.ALGS[cek][0], nm, ", fresh ephemeral key" if fresh else "",
                                                     ", user payload in the recipient" if chosen else "")
                with rep.case(what):
                    c, m = msg_ctx(lab, cls, cek)
                    if cls == "MacMessage":
                        extsig.DUMPS_LEN[0] = 64
                    r, k = sending(c, i, payload=sym("cek", "bytes") if chosen else None, fresh=fresh)
                    mk = sym_key(c)
                    c.set(m, "key", mk)
                    c.set(m, "recipients", c.list(r))
                    sec = all_secrets(c, [k, mk]) | {sym("cek", "bytes")}
                    if cls == "EncMessage":
                        sec.add(c.get1(m, "payload"))
                    n += judge(rep, c, m, c.run(m, "encode", tag=sym("tag", "bool")), sec, what, "%s.encode.%s" % (cls, RCPT_OF[iana.ALGS[i][1]]), None)
                extsig.DUMPS_LEN[0] = None
    # several recipients and nested recipients
    some = {"aeskw": -3, "oaep": -41, "ecdhkw": -32}
    for a in sorted(some):
        for b in sorted(some):
            for nested in (False, True):
                what = "EncMessage.encode via %s %s %s" % (a, "holding" if nested else "and", b)
                with rep.case(what):
                    c, m = msg_ctx(lab, "EncMessage", 1)
                    r1, k1 = sending(c, some[a], "rcpt1")
                    r2, k2 = sending(c, some[b], "rcpt2", payload=sym("inner", "bytes") if nested else None)
                    mk = sym_key(c)
                    c.set(m, "key", mk)
                    if nested:
                        c.set(r1, "recipients", c.list(r2))
                        c.set(m, "recipients", c.list(r1))
                    else:
                        c.set(m, "recipients", c.list(r1, r2))
                    sec = all_secrets(c, [k1, k2, mk]) | {sym("inner", "bytes"), c.get1(m, "payload")}
                    n += judge(rep, c, m, c.run(m, "encode", tag=sym("tag", "bool")), sec, what, "EncMessage.encode.several", None)
    # a recipient structure on its own
    for i, nm, fresh in rc:
        what = "%s.encode [%s]%s" % (RCPT_OF[iana.ALGS[i][1]], nm, ", fresh ephemeral key" if fresh else "")
        with rep.case(what):
            c = lab.ctx()
            r, k = sending(c, i, payload=sym("cek", "bytes"), fresh=fresh)
            sec = all_secrets(c, [k]) | {sym("cek", "bytes")}
            n += judge(rep, c, r, c.run(r, "encode", target_alg=algterm(lab, 1)), sec, what,
                       "%s.encode" % RCPT_OF[iana.ALGS[i][1]], None)
        what += " without a target algorithm"
        with rep.case(what):
            c = lab.ctx()
            r, k = sending(c, i, payload=sym("cek", "bytes"), fresh=fresh)
            sec = all_secrets(c, [k]) | {sym("cek", "bytes")}
            x = c.run(r, "encode")
            if x.pc == FALSE or not sat(x.pc):
                rep.ok(what + ": nothing is emitted")
            else:
                n += judge(rep, c, r, x, sec, what, "%s.encode" % RCPT_OF[iana.ALGS[i][1]], None)
    n += without(lab, rep)
    rep.floor("encodings searched", n, 100)


def without(lab, rep):
    """A key or an algorithm is missing: whatever is emitted all the same does not hold the payload either."""
    n = 0
    A = lab.name("pycose.headers.Algorithm")
    for cls in ("Enc0Message", "EncMessage"):
        for miss in ("key", "algorithm", "nonce"):
            for kind in ("direct", "ecdhdirect", "aeskw", "oaep", "ecdhkw") if cls == "EncMessage" else (None,):
                for i, nm, par in iana.algs("gcm", "ccm")[:: 1 if kind is None else 6]:
                    what = "%s.encode[%s]%s without %s" % (cls, nm, " via %s" % kind if kind else "", miss)
                    with rep.case(what):
                        c, m = msg_ctx(lab, cls, None if miss == "algorithm" else i)
                        k = None
                        if miss == "algorithm":
                            for b in ("phdr", "uhdr"):
                                c.header(m, b, A, None)
                        if miss == "key":
                            c.set(m, "key", NONE)
                        else:
                            k = sym_key(c)
                            c.set(m, "key", k)
                        if miss == "nonce":
                            for b in ("phdr", "uhdr"):
                                for h in ("IV", "PartialIV"):
                                    c.header(m, b, lab.name("pycose.headers." + h), None)
                        keys = [k]
                        if kind:
                            rc = rcpt_for(c, kind)
                            if miss == "key":
                                c.set(rc, "key", NONE)
                            c.set(m, "recipients", c.list(rc))
                        sec = all_secrets(c, keys) | {c.get1(m, "payload")}
                        x = c.run(m, "encode", tag=sym("tag", "bool"))
                        n += 1
                        if x.pc == FALSE or not sat(x.pc):
                            rep.ok(what + ": nothing is emitted")
                        else:
                            judge(rep, c, m, x, sec, what, cls + ".encode|without " + miss, None)
    return n
