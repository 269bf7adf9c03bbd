"""Shared context builders."""
from ..lab import *          # noqa
from .. import iana
from .. import terms as tm
from ..report import imprecise  # noqa

SIGN_KEYCLS = {"ecdsa": "pycose.keys.EC2Key", "eddsa": "pycose.keys.OKPKey", "pss": "pycose.keys.RSAKey",
               "pkcs1": "pycose.keys.RSAKey"}
CURVE_OF = {"P256": 1, "P384": 2, "P521": 3}


def algterm(lab, i):
    return lab.name("pycose.algorithms." + iana.ALGS[i][0])


def sig_kind(lab, i):
    return iana.ALGS[i][2]["fam"]


def sig_keys(lab, i):
    """Key classes (and curve, if any) a signature algorithm is defined for."""
    fam = iana.ALGS[i][2]["fam"]
    if fam == "eddsa":
        return [("pycose.keys.OKPKey", "Ed25519"), ("pycose.keys.OKPKey", "Ed448")]
    if fam == "ecdsa":
        return [("pycose.keys.EC2Key", iana.ALGS[i][2]["curve"])]
    return [("pycose.keys.RSAKey", None)]


CURVE_PARAM = {"pycose.keys.EC2Key": "pycose.keys.keyparam.EC2KpCurve",
               "pycose.keys.OKPKey": "pycose.keys.keyparam.OKPKpCurve"}


def sig_key(ctx, keycls, curve, name="key"):
    k = ctx.inst(keycls, name)
    if curve:
        ctx.setitem(k, ctx.lab.name(CURVE_PARAM[keycls]), ctx.lab.name("pycose.keys.curves." + curve))
    return k


SIGN = (".sign", ".sign_deterministic", ".sign_digest", ".sign_digest_deterministic", ".sign_number")
VERIFY = (".verify", ".verify_digest")
SIGN_CTORS = {"RSAPrivateNumbers", "from_private_bytes", "from_secret_exponent", "from_string", "derive_private_key",
              "EllipticCurvePrivateNumbers"}
VERIFY_CTORS = {"RSAPublicNumbers", "from_public_bytes", "from_public_point", "from_string",
                "EllipticCurvePublicNumbers", "RSAPrivateNumbers", "from_private_bytes"}


def sign_events(r):
    return extcalls(r, *SIGN, ctor=SIGN_CTORS)


def verify_events(r):
    return extcalls(r, *VERIFY, ctor=VERIFY_CTORS)


def undumps(t):
    """x for cbor2.dumps(x)."""
    if t.op == "call" and t.args[0] is ext("cbor2.dumps") and t.args[1]:
        return t.args[1][0]
    return None


def map_alts(t, f):
    """Apply f to every alternative of a guarded term."""
    if t.op == "gamma":
        xs = [(g, f(x)) for g, x in t.args[0]]
        if any(x is None for _, x in xs):
            return None
        return as_term(tuple(xs))
    return f(t)


def dumped(t):
    """The structure serialised by cbor2.dumps, through guarded alternatives."""
    return map_alts(t, undumps)


def is_lost(t):
    return t is None or has_top(t)


def dict_headers(ctx, m):
    """The header buckets of a message object are always dictionaries."""
    for b in ("phdr", "uhdr"):
        h = ctx.get1(m, b)
        if h.op in ("attr", "sym", "item"):
            TYPES[h] = "dict"
        elif h.op == "gamma":
            for _, x in h.args[0]:
                if x.op in ("attr", "sym", "item"):
                    TYPES[x] = "dict"


def bytes_header(ctx, m):
    """The serialised protected header is always a byte string."""
    for _, x in from_term(ctx.get1(m, "phdr_encoded")):
        if x.op in ("attr", "sym", "item"):
            TYPES[x] = "bytes"


def msg_ctx(lab, cls, algid=None, bucket="phdr", payload="bytes", name="msg"):
    c = lab.ctx()
    return c, msg_in(c, cls, algid, bucket, payload, name)


def msg_in(c, cls, algid=None, bucket="phdr", payload="bytes", name="msg", tag=""):
    """A message of the given class in a context; `tag` tells it from the others there."""
    lab = c.lab
    m = c.inst("pycose.messages." + cls, name + tag)
    dict_headers(c, m)
    if algid is not None:
        c.with_alg(m, algterm(lab, algid), bucket)
    if payload == "bytes":
        c.set(m, "payload", sym("payload" + tag, "bytes"))
    elif payload == "none":
        c.set(m, "payload", NONE)
    if cls != "SignMessage":
        c.set(m, "external_aad", sym("external_aad" + tag, "bytes"))
    return m


def after(c, r):
    """The context after a completed operation, or None if it cannot complete."""
    if r.pc == FALSE or not sat(r.pc):
        return None
    r.state.pc = r.pc
    return Ctx(c.lab, r.state)


def same_kid(c, *keys):
    """Keys that carry the same key identifier."""
    kid = sym("kid", "bytes")
    for k in keys:
        c.set(k, "kid", kid)


def signer_of(ctx, name, parent, algid=None, bucket="phdr"):
    s = ctx.inst("pycose.messages.signer.CoseSignature", name)
    dict_headers(ctx, s)
    ctx.set(s, "external_aad", sym("aad_" + name, "bytes"))
    if algid is not None:
        ctx.with_alg(s, algterm(ctx.lab, algid), bucket)
    return s


def loc(e):
    return e.where()


def mac_events(r):
    """Finalisation of a keyed stream: (event, constructor, data)."""
    out = []
    for e in r.events:
        if e.kind == "call" and e.name in (".finalize", ".digest", ".verify", ".hexdigest") and len(e.args) == 2:
            names = set(extsig.ctor_names(e.args[0]))
            if names & {"HMAC", "Cipher"}:
                out.append(e)
    return out


def expected_tag(c, e, out):
    """RFC 8152 9.1, 9.2: leftmost bytes of the HMAC, or of the last CBC block."""
    if "Cipher" in extsig.ctor_names(e.args[0]):
        full = call_t(ext("stream.output"), (e.args[0], e.args[1]))
        n = extsig.known_len(e.args[1])
        if n is None:
            return None
        t, _ = c.spec("last_block", full, const(n), const(out))
    else:
        full = call_t(ext("stream.digest"), (e.args[0], e.args[1]))
        t, _ = c.spec("take", full, const(out))
    return t


def tag_value(rep, c, got, evs, par, pc, key, what):
    exps = [expected_tag(c, e, par["out"]) for e in evs]
    if None in exps or has_top(got):
        rep.undecided(what + ": tag")
    elif len(exps) == 1:
        rep.same(got, exps[0], pc, key, what + ": tag")
    elif any(not diff(got, x, pc) for x in exps):
        rep.ok(what + ": tag")
    else:
        rep.undecided(what + ": tag")


def aead_events(r, which):
    return extcalls(r, which, ctor=extsig.AEAD)


RCPT = "pycose.messages.recipient."
RCPT_OF = {"direct": "DirectEncryption", "aeskw": "KeyWrap", "oaep": "KeyWrap", "ecdhdirect": "DirectKeyAgreement",
           "ecdhkw": "KeyAgreementWithKeyWrap", "directhkdf": "DirectEncryption"}


def recipient(ctx, algid, name, key=None, bucket="uhdr", nested=None, payload=None):
    """A fresh recipient structure as a user builds it."""
    lab = ctx.lab
    kind = iana.ALGS[algid][1]
    A = lab.name("pycose.headers.Algorithm")
    hd = ctx.dict([(A, algterm(lab, algid))])
    kw = {bucket: hd}
    if payload is not None:
        kw["payload"] = payload
    r = ctx.new(RCPT + RCPT_OF[kind], **kw)
    if key is not None:
        ctx.set(r, "key", key)
    return r


def sym_key(ctx, name="key"):
    return ctx.inst("pycose.keys.SymmetricKey", name)


def ec_key(ctx, name, curve="P256"):
    return sig_key(ctx, "pycose.keys.EC2Key", curve, name)


def rcpt_for(ctx, kind, name="rcpt"):
    """A recipient of each class with the keys it needs on the sending side."""
    lab = ctx.lab
    if kind == "direct":
        return recipient(ctx, -6, name)
    if kind == "aeskw":
        return recipient(ctx, -3, name, sym_key(ctx, "kek_" + name))
    if kind == "oaep":
        return recipient(ctx, -41, name, ctx.inst("pycose.keys.RSAKey", "rsa_" + name))
    i = {"ecdhdirect": -27, "ecdhkw": -32, "ecdhdirect-es": -25, "ecdhkw-es": -29}[kind]
    r = recipient(ctx, i, name, ec_key(ctx, "local_" + name), bucket="phdr")
    ctx.set(r, "local_attrs", ctx.dict([(lab.name("pycose.headers.StaticKey"), ec_key(ctx, "peer_" + name))]))
    return r


def rx_recipient(ctx, kind, name="rcpt"):
    """A received recipient (arbitrary instance) of each class, with the receiver's key set."""
    lab = ctx.lab
    i = {"direct": -6, "aeskw": -3, "oaep": -41, "ecdhdirect": -27, "ecdhkw": -32, "ecdhdirect-es": -25,
         "ecdhkw-es": -29}[kind]
    return rx_recipient_alg(ctx, i, name)


def rx_recipient_alg(ctx, i, name="rcpt", bucket="uhdr", key=True):
    lab = ctx.lab
    kind = iana.ALGS[i][1]
    r = ctx.inst(RCPT + RCPT_OF[kind], name)
    dict_headers(ctx, r)
    ctx.with_alg(r, algterm(lab, i), bucket)
    ctx.set(r, "payload", sym("wrapped_" + name, "bytes"))
    if kind in ("aeskw",):
        ctx.set(r, "key", sym_key(ctx, "kek_" + name))
    elif kind == "oaep":
        ctx.set(r, "key", ctx.inst("pycose.keys.RSAKey", "rsa_" + name))
    elif kind in ("ecdhdirect", "ecdhkw"):
        ctx.set(r, "key", ec_key(ctx, "local_" + name))
        H = lab.name("pycose.headers." + ("StaticKey" if iana.ALGS[i][2]["static"] else "EphemeralKey"))
        ctx.header(r, "phdr", H, None)
        ctx.header(r, "uhdr", H, ec_key(ctx, "peer_" + name))
    return r


# ------------------------------------------------------------- received messages

class Rx:
    """A received byte string and what a correct CBOR decoder makes of it.

    Element values are chosen by the rule; the model of cbor2.loads is keyed on
    the exact byte-string term handed to it, anything else stays opaque."""

    def __init__(self, ctx):
        self.c = ctx
        self.maps = {}
        self.rx = sym("received", "bytes")

    def model(self, I, st, args, kw, node):
        a = args[0] if args else kw.get("s", kw.get("data"))
        t = single(a) if a is not None else None
        if t is None or t not in self.maps:
            return None
        v = self.maps[t]
        return v if isinstance(v, tuple) else one(v)

    def install(self):
        I = self.c.I
        for n in ("cbor2.loads", "cbor2.decoder.loads", "cbor2._decoder.loads"):
            I.ext_models[n] = self.model

    def remove(self):
        for n in ("cbor2.loads", "cbor2.decoder.loads", "cbor2._decoder.loads"):
            self.c.I.ext_models.pop(n, None)

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *a):
        self.remove()

    def tagged(self, tag, value):
        c = self.c
        o = c.I.new_obj(c.st, IObj("ext:cbor2.CBORTag", {"tag": tag if isinstance(tag, tuple) else one(tag),
                                                         "value": value if isinstance(value, tuple) else one(value)}))
        self.maps[self.rx] = o
        return o

    def header(self, name, content):
        """Protected header bytes whose map is `content`."""
        b = sym(name, "bytes")
        self.maps[b] = content
        return b


TAGNUM = {"Sign1Message": 18, "SignMessage": 98, "Mac0Message": 17, "MacMessage": 97, "Enc0Message": 16, "EncMessage": 96}
MSGCLS = sorted(TAGNUM)


def received(c, rx, cls, P, uhdr, last=None, payload=None):
    """Element list of a received message of a class."""
    pl = payload if payload is not None else sym("payload", "bytes")
    if cls in ("Sign1Message", "Mac0Message"):
        els = [P, uhdr, pl, sym("proof", "bytes")]
    elif cls == "Enc0Message":
        els = [P, uhdr, pl]
    elif cls == "SignMessage":
        els = [P, uhdr, pl, last if last is not None else c.list()]
    else:
        r = last if last is not None else c.list(c.list(const(b''), c.dict([(const(1), const(-6))]), const(b'')))
        els = [P, uhdr, pl, r] if cls == "EncMessage" else [P, uhdr, pl, sym("proof", "bytes"), r]
    return rx.tagged(const(TAGNUM[cls]), c.list(*els))


def decode(c, rx, cls, via=None):
    with rx:
        v = c.callm(c.lab.name("pycose.messages." + (via or cls)), "decode", rx.rx)
    t = single(v)
    if t is None:
        raise AnalysisError("decode of a %s yields several objects" % cls)
    return t


def histories(lab, cls, i):
    """Public histories after which the serialised protected header is known independently of how it is stored.

    yields (label, ctx, message, expected) with expected ('bytes', term) or ('map', term)."""
    A, K = lab.name("pycose.headers.Algorithm"), lab.name("pycose.headers.KID")
    alg = algterm(lab, i) if i is not None else None
    kid, kid2 = sym("kid", "bytes"), sym("kid2", "bytes")
    AL = [(A, alg)] if alg is not None else []
    RAW = [(const(1), const(i))] if i is not None else []

    def new(c, ph, uh):
        kw = dict(phdr=c.dict(ph), uhdr=c.dict(uh), payload=sym("payload", "bytes"))
        if cls != "SignMessage":
            kw["external_aad"] = sym("external_aad", "bytes")
        return c.new("pycose.messages." + cls, **kw)

    def ready(c, m):
        """A decoded message gets its plaintext payload and external data set by the user."""
        if cls in ("Enc0Message", "EncMessage"):
            c.set(m, "payload", sym("payload", "bytes"))
        if cls != "SignMessage":
            c.set(m, "external_aad", sym("external_aad", "bytes"))
        return m

    def dm(c, *ent):
        return ("map", c.I.snapshot(c.st, c.dict(list(ent))))

    def rxd(c, ph, uh, const_empty=False):
        rx = Rx(c)
        if const_empty:
            P = const(b"")
        else:
            P = rx.header("phdr_bytes", c.dict(ph))
            c.st.pc = B.And(c.st.pc, g_truthy(P))
        received(c, rx, cls, P, c.dict(uh))
        return ready(c, decode(c, rx, cls)), P

    def hist(label, f):
        c = lab.ctx()
        m, exp = f(c)
        return label, c, m, exp

    def up(c, m, *ent):
        c.callm(m, "phdr_update", c.dict(list(ent)))

    def f_new(c):
        return new(c, AL + [(K, kid)], []), dm(c, *(AL + [(K, kid)]))

    def f_new_u(c):
        return new(c, [(K, kid)], AL), dm(c, (K, kid))

    def f_empty(c):
        return new(c, [], AL), ("bytes", const(b""))

    def f_upd(c):
        m = new(c, [], AL)
        up(c, m, (K, kid))
        return m, dm(c, (K, kid))

    def f_set(c):
        m = new(c, [(K, kid)], [])
        c.do(lambda: c.I.getattr_val(c.st, one(m), "phdr_encoded", None), "phdr_encoded")
        c.set(m, "phdr", c.dict(AL + [(K, kid2)]))
        return m, dm(c, *(AL + [(K, kid2)]))

    def f_live(c):
        m = new(c, AL, [])
        c.do(lambda: c.I.getattr_val(c.st, one(m), "phdr_encoded", None), "phdr_encoded")
        c.setitem(c.get1(m, "phdr"), K, kid2)
        return m, dm(c, *(AL + [(K, kid2)]))

    def f_rx(c):
        m, P = rxd(c, RAW + [(const(4), kid)], [])
        return m, ("bytes", P)

    def f_rx_u(c):
        m, P = rxd(c, [(const(4), kid)], RAW)
        return m, ("bytes", P)

    def f_rx_e(c):
        m, P = rxd(c, [], RAW, True)
        return m, ("bytes", const(b""))

    def f_rx_uu(c):
        m, P = rxd(c, RAW + [(const(4), kid)], [])
        c.callm(m, "uhdr_update", c.dict([(lab.name("pycose.headers.IV"), sym("iv", "bytes"))]))
        c.set(m, "payload", sym("payload", "bytes"))
        return m, ("bytes", P)

    def f_rx_upd(c):
        m, P = rxd(c, RAW + [(const(4), kid)], [])
        up(c, m, (K, kid2))
        return m, dm(c, *(AL + [(K, kid2)]))

    def f_rx_set(c):
        m, P = rxd(c, RAW + [(const(4), kid)], [])
        c.set(m, "phdr", c.dict(AL + [(K, kid2)]))
        return m, dm(c, *(AL + [(K, kid2)]))

    def f_rx_setu(c):
        m, P = rxd(c, RAW + [(const(4), kid)], [])
        c.set(m, "uhdr", c.dict([(lab.name("pycose.headers.IV"), sym("iv", "bytes"))]))
        return m, ("bytes", P)

    def f_rx_clear(c):
        m, P = rxd(c, [(const(4), kid)], RAW)
        c.set(m, "phdr", c.dict([]))
        return m, ("bytes", const(b""))

    def f_two(c):
        m = new(c, AL, [])
        up(c, m, (K, kid))
        c.do(lambda: c.I.getattr_val(c.st, one(m), "phdr_encoded", None), "phdr_encoded")
        up(c, m, (K, kid2))
        return m, dm(c, *(AL + [(K, kid2)]))

    for label, f in (("new", f_new), ("new, algorithm unprotected", f_new_u), ("new, empty", f_empty),
                     ("new, updated", f_upd), ("new, replaced", f_set), ("updated twice", f_two),
                     ("new, edited in place", f_live), ("received", f_rx),
                     ("received, algorithm unprotected", f_rx_u), ("received, zero-length", f_rx_e),
                     ("received, unprotected updated", f_rx_uu), ("received, updated", f_rx_upd),
                     ("received, replaced", f_rx_set), ("received, unprotected replaced", f_rx_setu),
                     ("received, cleared", f_rx_clear)):
        yield label, f


def match_protected(rep, got, exp, pc, key, what, where=""):
    """A serialised protected header against the expectation of a history."""
    kind, t = exp
    if kind == "bytes":
        return rep.same(got, t, pc, key, what, where)
    s = dumped(got)
    if s is None:
        if has_top(got):
            rep.undecided(what + ": " + show(got)[:120])
        else:
            rep.bad(key, what + ": not a serialisation of the current header", where, show(got)[:300])
        return False
    return rep.same(s, t, pc, key, what, where)


def list_elems(u):
    if u.op not in ("list", "tuple"):
        return None
    els = []
    for x in u.args:
        if isinstance(x, Term) and x.op in ("star", "cseg", "splice"):
            return els or None
        els.append(x)
    return els


def structure_fields(rep, data, exps, pc, key, what, where=""):
    """Fields of a serialised Sig/MAC/Enc structure: exps maps index -> expectation."""
    s = dumped(data)
    if s is None:
        if has_top(data):
            rep.undecided(what + ": " + show(data)[:100])
        else:
            rep.bad(key, what + ": operand is not a serialised structure", where, show(data)[:300])
        return 0
    n = 0
    for g, u in from_term(s):
        q = B.And(pc, g)
        if not sat(q):
            continue
        els = list_elems(u)
        if els is None:
            rep.undecided(what + ": " + show(u)[:100])
            continue
        for ix, exp in exps.items():
            n += 1
            if ix >= len(els):
                rep.bad(key, what + ": field %d missing" % ix, where, show(u)[:300])
            else:
                match_protected(rep, els[ix], exp, q, key, "%s: field %d" % (what, ix), where)
    return n


def cbor_tagged(t):
    """(tag, content) of a CBORTag term."""
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith("CBORTag"):
        pos, kw = t.args[1], dict(t.args[2]) if len(t.args) > 2 else {}
        tag = pos[0] if len(pos) > 0 else kw.get("tag")
        val = pos[1] if len(pos) > 1 else kw.get("value")
        return tag, val
    return None


def wire(t):
    """Alternatives [(guard, tag term or None, element terms or None)] of an encoded message."""
    out = []
    for g, x in from_term(t):
        s = undumps(x)
        if s is None:
            out.append((g, None, None, x))
            continue
        for g2, y in from_term(s):
            ct = cbor_tagged(y)
            tag = None
            if ct is not None:
                tag, y = ct
            for g3, z in from_term(y) if y is not None else ():
                out.append((B.And(g, g2, g3), tag, list_elems(z), z))
    return out


def ok_guard(rep, g, key, what, where=""):
    """Condition g must be impossible."""
    if not sat(g) or not imprecise(g) and not sat(tm.congr(g)):
        rep.ok(what)
        return True
    if imprecise(g):
        rep.undecided(what)
    else:
        rep.bad(key, what, where, showg(g)[:300])
    return False


def local_attrs(c, r, items):
    """The local attributes of a recipient are exactly these."""
    h = c.get1(r, "local_attrs")
    if h.op not in ("sym", "attr", "obj", "item"):
        raise AnalysisError("local attributes of %s are not one object" % show(r))
    if h.op != "obj":
        TYPES[h] = "dict"
    c.st.heap[h] = DObj(None, {k: (TRUE, one(v)) for k, v in items})


# ------------------------------------------------------------- sending side

def sending(c, i, name="rcpt", payload=None, fresh=False):
    """A recipient structure in an arbitrary state with everything its algorithm needs for sending:
    (recipient, own key or None)."""
    lab = c.lab
    kind = iana.ALGS[i][1]
    par = iana.ALGS[i][2]
    r = c.inst(RCPT + RCPT_OF[kind], name)
    dict_headers(c, r)
    c.with_alg(r, algterm(lab, i), "uhdr")
    bytes_header(c, r)
    c.set(r, "payload", const(b"") if payload is None else payload)
    key = None
    if kind == "aeskw":
        key = sym_key(c, "kek_" + name)
    elif kind == "oaep":
        key = c.inst("pycose.keys.RSAKey", "rsa_" + name)
    elif kind in ("ecdhdirect", "ecdhkw"):
        key = None if fresh else ec_key(c, "local_" + name)
        H = lab.name("pycose.headers.EphemeralKey")
        local_attrs(c, r, [(lab.name("pycose.headers.StaticKey"), ec_key(c, "peer_" + name))])
        if fresh:
            for b in ("phdr", "uhdr"):
                c.header(r, b, H, None)
        elif not par["static"]:
            c.header(r, "phdr", H, None)
            c.header(r, "uhdr", H, c.inst("pycose.keys.EC2Key", "announced_" + name))
    c.set(r, "key", NONE if key is None else key)
    if kind in ("direct", "aeskw"):
        h = c.get1(r, "phdr")
        c.st.heap[h] = DObj(None, {})
    c.set(r, "recipients", c.list())
    return r, key


def wrap_events(r):
    """(event, wrapped bytes) of every key wrapping."""
    out = [(e, e.kw.get("key_to_wrap", top("wrap"))) for e in extcalls(r, "aes_key_wrap")]
    for e in extcalls(r, ".encrypt"):
        names = set(extsig.ctor_names(e.callee.args[0]))
        if names & {"RSAPublicNumbers", "RSAPrivateNumbers"}:
            out.append((e, e.kw.get("plaintext", e.args[0] if e.args else top("wrap"))))
    return out


# ------------------------------------------------------------- secrets

def short_name(t):
    """Short name of a callee term."""
    if t.op == "ext":
        return t.args[0].rsplit(".", 1)[-1]
    if t.op in ("attr", "meth"):
        return t.args[1]
    return None


CRYPTO = ("cryptography.", "ecdsa.", "hashlib.", "hmac.", "certvalidator.", "oscrypto.")
RANDOM = {"urandom", "token_bytes", "randbytes", "getrandbits"}
MAKES_SECRET = {"derive", "exchange", "aes_key_unwrap", "private_bytes", "private_bytes_raw", "to_string"} | RANDOM
SECRET_ATTR = {"private_value", "dmp1", "dmq1", "iqmp"}
KEY_SECRETS = {"pycose.keys.SymmetricKey": ("k",), "pycose.keys.EC2Key": ("d",), "pycose.keys.OKPKey": ("d",),
               "pycose.keys.RSAKey": ("d", "p", "q", "dp", "dq", "qinv")}


def key_secrets(c, key):
    """Terms holding the secret values of a key object."""
    cls = TYPES.get(key, "")[5:] if key.op != "obj" else None
    out = set()
    for k, names in KEY_SECRETS.items():
        if cls is not None and cls != c.lab.q(k):
            continue
        for nm in names:
            for g, x in from_term(c.get1(key, nm)):
                if x.op not in ("const", "top") and sat(g):
                    out.add(x)
    return out


def leaks(t, secrets, pc):
    """(path, secret term) of each secret that reaches t other than through a primitive; (path, None) for a lost value."""
    out = []
    seen = set()

    def crypto(callee):
        if callee.op == "ext":
            return callee.args[0].startswith(CRYPTO)
        return callee.op in ("attr", "meth") and bool(extsig.ctor_names(callee.args[0]))

    def go(x, g, path):
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Term, tuple)):
                    go(y, g, path)
            return
        if (x.id, g) in seen:
            return
        seen.add((x.id, g))
        if x in secrets:
            out.append((path, x, g))
            return
        if x.op == "top":
            out.append((path, None, g))
            return
        if x.op == "gamma":
            for gg, y in x.args[0]:
                q = B.And(g, gg)
                if sat(q):
                    go(y, q, path)
            return
        if x.op == "attr" and x.args[1] in SECRET_ATTR:
            out.append((path, x, g))
            return
        if x.op == "fresh":
            go(x.args[1], g, path)
            return
        if x.op == "call":
            nm = short_name(x.args[0])
            if nm in MAKES_SECRET:
                out.append((path, x, g))
                return
            if nm in ("len", "isinstance", "type", "bool", "id") or crypto(x.args[0]):
                return
        for a in x.args:
            if isinstance(a, (Term, tuple)):
                go(a, g, path)

    go(t, pc, "")
    return out


def no_payload(lab, rep, cls, i, evf, meths, key):
    """Neither a payload nor detached content: nothing may be authenticated in its place."""
    for meth in meths:
        what = "%s.%s[%s] without any payload" % (cls, meth, iana.ALGS[i][0])
        with rep.case(what):
            c, m = msg_ctx(lab, cls, None if cls == "SignMessage" else i, payload="none")
            o = m
            extsig.DUMPS_LEN[0] = 64 if "Mac" in cls else None
            if "Sign" in cls:
                keycls, curve = sig_keys(lab, i)[0]
                k = sig_key(c, keycls, curve)
                if cls == "SignMessage":
                    o = signer_of(c, "signer1", m, i)
                    c.set(m, "signers", c.list(o))
                c.set(o, "key", k)
                o = m if meth == "encode" else o
            else:
                c.set(m, "key", sym_key(c))
                if cls == "MacMessage":
                    c.set(m, "recipients", c.list(rcpt_for(c, "direct")))
            r = c.run(o, meth)
            bad = [e for e in evf(r) if sat(e.pc)]
            if bad:
                rep.bad(key, what + ": something else is authenticated instead", bad[0].where())
            elif sat(r.pc) and has_top(as_term(r.value, r.pc)):
                rep.undecided(what)
            elif sat(r.pc):
                rep.bad(key, what + ": completes")
            else:
                rep.ok(what)
        extsig.DUMPS_LEN[0] = None
