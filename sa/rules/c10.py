"""C10: decoding dispatches on the registered CBOR tag and accepts nothing else."""
from .common import *      # noqa

RULE = ("decode returns an instance of exactly the class registered in RFC 8152 for the tag of the received item, of the class "
        "it was called on; untagged items, other tags, non-arrays and arrays lacking a mandatory element are refused")
EXPLAIN = ("decode of CoseMessage and of each message class is analysed for every registered tag, for an arbitrary other tag, "
           "for untagged items of each CBOR type, for non-array contents and for truncated arrays, the element contents "
           "being arbitrary; the class of the result and the refusal conditions are compared with the specification.")
VIAS = ["CoseMessage"] + MSGCLS
MIN = {"Sign1Message": 4, "SignMessage": 4, "Mac0Message": 4, "MacMessage": 4, "Enc0Message": 3, "EncMessage": 3}


def via_class(lab, via):
    return lab.name("pycose.messages." + via)


def run(lab, rep, tier):
    n = 0
    for via in VIAS:
        V = via_class(lab, via)
        # every registered tag
        for cls in MSGCLS:
            for allow in (None, True, False):
                what = "%s.decode of tag %d%s" % (via, TAGNUM[cls], "" if allow is None else ", allow_unknown=%s" % allow)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    received(c, rx, cls, const(b""), c.dict())
                    kw = {} if allow is None else {"allow_unknown_attributes": const(allow)}
                    with rx:
                        r = c.run(V, "decode", rx.rx, **kw)
                    if via not in ("CoseMessage", cls):
                        refuse(lab, rep, r, "wrong class|" + cls, what + ": another message type is refused")
                        continue
                    if r.pc == FALSE:
                        verdict(rep, B.Or(FALSE, *[e[0] for e in r.raises]), "refused|" + cls, what + ": accepted")
                        continue
                    for m in MSGCLS:
                        t, _ = c.spec("exactly", r.value, lab.name("pycose.messages." + m), pc=r.pc, heap=r.state.heap)
                        rep.same(t, const(m == cls), r.pc, "class|" + cls, what + ": class of the result is %s: %s" % (m, m == cls))
        # any other tag
        for lens in (3, 4, 5):
            what = "%s.decode of an unregistered tag, %d elements" % (via, lens)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                rx = Rx(c)
                tag = sym("tag", "int")
                for t in iana.TAGS:
                    c.st.pc = B.And(c.st.pc, B.Not(g_eq(tag, const(t))))
                rx.tagged(tag, c.list(const(b""), c.dict(), sym("payload", "bytes"), sym("proof", "bytes"), c.list())
                          if lens == 5 else c.list(*[const(b""), c.dict(), sym("payload", "bytes"), sym("x", "bytes")][:lens]))
                with rx:
                    r = c.run(V, "decode", rx.rx)
                refuse(lab, rep, r, "unregistered tag", what)
        for tag in (0, 1, 15, 19, 24, 61, 95, 99, 100, 1616):
            for shape in ("Sign1Message", "EncMessage"):
                what = "%s.decode of tag %d over %s" % (via, tag, shape)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    o = received(c, rx, shape, const(b""), c.dict())
                    c.st.heap[o].fields["tag"] = one(const(tag))
                    with rx:
                        r = c.run(V, "decode", rx.rx)
                    refuse(lab, rep, r, "unregistered tag", what)
        # tags within tags, messages within arrays and byte strings
        for outer in [TAGNUM[x] for x in MSGCLS] + [24, 61, 55799]:
            for cls in MSGCLS:
                what = "%s.decode of tag %d over tag %d" % (via, outer, TAGNUM[cls])
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    o = received(c, rx, cls, const(b""), c.dict())
                    rx.tagged(const(outer), o)
                    with rx:
                        r = c.run(V, "decode", rx.rx)
                    refuse(lab, rep, r, "nested tags", what)
        for cls in MSGCLS:
            for nm in ("array", "map"):
                what = "%s.decode of an untagged %s around tag %d" % (via, nm, TAGNUM[cls])
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    o = received(c, rx, cls, const(b""), c.dict())
                    rx.maps[rx.rx] = c.list(o) if nm == "array" else c.dict([(const(0), o)])
                    with rx:
                        r = c.run(V, "decode", rx.rx)
                    refuse(lab, rep, r, "untagged", what)
        # untagged
        for nm, mkv in (("array", lambda c: c.list(const(b""), c.dict(), sym("payload", "bytes"), sym("proof", "bytes"))),
                        ("array of three", lambda c: c.list(const(b""), c.dict(), sym("payload", "bytes"))),
                        ("map", lambda c: c.dict([(const(1), const(-7))])), ("integer", lambda c: const(18)),
                        ("byte string", lambda c: sym("inner", "bytes")), ("text", lambda c: sym("text", "str")),
                        ("null", lambda c: NONE), ("true", lambda c: const(True))):
            what = "%s.decode of an untagged %s" % (via, nm)
            with rep.case(what):
                n += 1
                c = lab.ctx()
                rx = Rx(c)
                rx.maps[rx.rx] = mkv(c)
                with rx:
                    r = c.run(V, "decode", rx.rx)
                refuse(lab, rep, r, "untagged", what)
        # tagged, not an array
        for cls in MSGCLS if via == "CoseMessage" else (via,):
            for nm, mkv in (("map", lambda c: c.dict([(const(0), const(b"")), (const(1), c.dict()), (const(2), sym("payload", "bytes")),
                                                             (const(3), sym("proof", "bytes"))])),
                            ("byte string", lambda c: sym("inner", "bytes")),
                            ("integer", lambda c: const(4)), ("null", lambda c: NONE), ("text", lambda c: const("abcd"))):
                what = "%s.decode of tag %d over a %s" % (via, TAGNUM[cls], nm)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    rx.tagged(const(TAGNUM[cls]), mkv(c))
                    with rx:
                        r = c.run(V, "decode", rx.rx)
                    refuse(lab, rep, r, "not an array", what)
            for k in range(MIN[cls]):
                what = "%s.decode of tag %d over %d elements" % (via, TAGNUM[cls], k)
                with rep.case(what):
                    n += 1
                    c = lab.ctx()
                    rx = Rx(c)
                    o = received(c, rx, cls, const(b""), c.dict())
                    els = [const(b""), c.dict(), sym("payload", "bytes"), sym("proof", "bytes")][:k]
                    c.st.heap[o].fields["value"] = one(c.list(*els))
                    with rx:
                        r = c.run(V, "decode", rx.rx)
                    refuse(lab, rep, r, "truncated|" + cls, what)
    rep.floor("decode cases", n, 200)


def verdict(rep, g, key, what):
    if imprecise(g):
        rep.undecided(what)
    else:
        rep.bad(key, what, "", showg(g)[:300])


def refuse(lab, rep, r, key, what):
    if not sat(r.pc):
        rep.ok(what)
    elif has_top(lab.I.snapv(r.state, r.value)):
        rep.undecided(what)
    else:
        verdict(rep, r.pc, key, what + ": refused")
