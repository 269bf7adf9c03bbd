"""Hash-consed terms, guarded value sets and guard atoms."""
from .bdd import BDD, TRUE, FALSE

B = BDD()


class Term:
    __slots__ = ("op", "args", "id", "_hash")

    def __repr__(self):
        return show(self)


_intern = {}


def _k(a):
    if isinstance(a, Term):
        return ("T", a.id)
    if isinstance(a, tuple):
        return ("t",) + tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def T(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _intern.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_intern)
        _intern[key] = t
    return t


def const(v):
    return T("const", type(v).__name__, v)


NONE = const(None)
TRUEC = const(True)
FALSEC = const(False)
EMPTYB = const(b"")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def ext(dotted):
    return T("ext", dotted)


def cls(q):
    return T("class", q)


def sym(name, ty="any"):
    return T("sym", name, ty)


def attr_t(t, name):
    return T("attr", t, name)


def item_t(t, k):
    # x[i:][j] -> x[i+j];  x[:-1][j] -> x[j]
    if t.op == "slice" and k.op == "const" and isinstance(k.args[1], int) and k.args[1] >= 0 and \
            t.args[3].op == "const" and t.args[3].args[1] is None and t.args[2].op == "const":
        lo, hi = t.args[1], t.args[2]
        if hi.args[1] is None and lo.op == "const" and isinstance(lo.args[1], int) and lo.args[1] >= 0:
            return item_t(t.args[0], const(lo.args[1] + k.args[1]))
        if lo.op == "const" and lo.args[1] is None and hi.args[1] == -1:
            return item_t(t.args[0], k)
    return T("item", t, k)


def elem_t(t):
    return T("elem", t)


def call_t(callee, args=(), kw=()):
    return T("call", callee, tuple(args), tuple(kw))


def top(reason="?"):
    return T("top", reason)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 9:
        return "…"
    op, a = t.op, t.args
    d = depth + 1
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "class":
        return a[0].split(".")[-1]
    if op == "func":
        return "<fn %s>" % a[1]
    if op == "ext":
        return a[0]
    if op == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "meth":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "item":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "call":
        parts = [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]
        return "%s(%s)" % (show(a[0], d), ", ".join(parts))
    if op == "gamma":
        return "{" + " | ".join("%s if %s" % (show(x, d), showg(g)) for g, x in a[0]) + "}"
    if op in ("list", "tuple", "set"):
        br = {"list": "[]", "tuple": "()", "set": "{}"}[op]
        return br[0] + ", ".join(show(x, d) for x in a) + br[1]
    if op == "cseg":
        return "(%s when %s)" % (show(a[1], d), showg(a[0]))
    if op == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "obj":
        return "<%s#%d>" % (a[1], a[0])
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------- atoms

ATOMS = []          # var -> key
_atom_ix = {}
TYPES = {}          # Term -> type string
SUBCLASS = [lambda a, b: a == b]   # patched by the interpreter


def atom(kind, *args):
    key = (kind,) + tuple(_k(a) for a in args)
    v = _atom_ix.get(key)
    if v is None:
        v = len(ATOMS)
        _atom_ix[key] = v
        ATOMS.append((kind,) + args)
    return B.literal(v)


def show_atom(v, depth=0):
    a = ATOMS[v]
    k = a[0]
    d = depth + 3
    if k == "isnone":
        return "%s is None" % show(a[1], d)
    if k == "empty":
        return "empty(%s)" % show(a[1], d)
    if k == "eq":
        return "%s == %s" % (show(a[1], d), show(a[2], d))
    if k == "isinst":
        return "isinstance(%s, %s)" % (show(a[1], d), a[2])
    if k == "exists":
        return "exists(%s: %s)" % (show(a[1], d), showg(a[2]))
    if k == "in":
        return "%s in %s" % (show(a[1], d), show(a[2], d))
    if k == "lt":
        return "%s < %s" % (show(a[1], d), show(a[2], d))
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, Term) else str(x) for x in a[1:]))


def showg(g, limit=4):
    if g == TRUE:
        return "true"
    if g == FALSE:
        return "false"
    cs = B.cubes(g, limit + 1)
    out = []
    for c in cs[:limit]:
        out.append(" & ".join(("" if pol else "!") + show_atom(v) for v, pol in c))
    if len(cs) > limit:
        out.append("...")
    return " || ".join(out)


RIGID = ("const", "class", "func", "ext")


def rigid(t):
    return t.op in RIGID or t.op == "tuple" and all(rigid(x) for x in t.args)


def typeof(t):
    """Static type string of a term, or None."""
    ty = TYPES.get(t)
    if ty is not None:
        return ty
    op = t.op
    if op == "const":
        return t.args[0]
    if op == "sym":
        return None if t.args[1] == "any" else t.args[1]
    if op == "elem":
        b = typeof(t.args[0])
        if b and b.startswith("listof:"):
            return b[7:]
        return None
    if op in ("list", "tuple", "set", "dict"):
        return op
    if op == "class":
        return "type"
    if op in ("func", "bound", "ext"):
        return "callable"
    if op == "call":
        c = t.args[0]
        if c.op == "ext":
            return EXT_RET.get(c.args[0])
        if c.op in ("attr", "meth"):
            return METH_RET.get(c.args[1])
        return None
    if op in ("int_be", "len"):
        return "int"
    if op == "attr" and t.args[1] == "curve":        # of a library key just made on that curve
        b = t.args[0].args[1] if t.args[0].op == "fresh" else t.args[0]
        if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0].endswith(".generate_private_key"):
            a = dict(b.args[2] or ()).get("curve", b.args[1][0] if b.args[1] else None)
            if a is not None and a.op == "call" and a.args[0].op == "ext":
                return "ext:" + a.args[0].args[0]
        return None
    if op == "attr" and t.args[1] in NUMBERS:
        b = t.args[0]
        if b.op == "call" and b.args[0].op in ("attr", "meth"):
            b = b.args[0]
        if b.op in ("attr", "meth") and b.args[1] in ("public_numbers", "private_numbers"):
            return "int"
        return None
    if op in ("to_be", "int_to_be", "cat", "rep", "lpad", "rpad", "xor"):
        return "bytes"
    if op == "fresh":
        return typeof(t.args[1])
    if op == "fstr":
        return "str"
    if op == "slice":
        return typeof(t.args[0])
    if op == "bin":
        if t.args[0] == "+":
            a, b = typeof(t.args[1]), typeof(t.args[2])
            return a if a in ("bytes", "str", "int", "list") else b if b in ("bytes", "str", "int", "list") else None
        if t.args[0] == "*":
            a, b = typeof(t.args[1]), typeof(t.args[2])
            for x in (a, b):
                if x in ("bytes", "str", "list"):
                    return x
            return "int"
        return "int"
    if op == "obj":
        k = t.args[1]
        if k in ("list", "tuple", "set", "dict"):
            return k
        return "inst:" + k
    if op == "gamma":
        tys = {typeof(x) for g, x in t.args[0]}
        if len(tys) == 1:
            return tys.pop()
        return None
    return None


NUMBERS = {"x", "y", "n", "e", "d", "p", "q", "dmp1", "dmq1", "iqmp", "private_value"}     # of library key numbers
RSA_NUMBERS = {"n", "e", "d", "p", "q", "dmp1", "dmq1", "iqmp"}
EXT_RET = {
    "cbor2.dumps": "bytes", "os.urandom": "bytes", "secrets.token_bytes": "bytes",
    "hashlib.sha256": "inst:ext", "base64.b64decode": "bytes", "base64.b64encode": "bytes",
    "binascii.hexlify": "bytes", "binascii.unhexlify": "bytes",
    "cryptography.hazmat.primitives.keywrap.aes_key_wrap": "bytes",
    "cryptography.hazmat.primitives.keywrap.aes_key_unwrap": "bytes",
    "cryptography.hazmat.primitives.asymmetric.ec.generate_private_key": "ext:cryptography.hazmat.primitives.asymmetric.ec.EllipticCurvePrivateKey",
    "hmac.compare_digest": "bool", "cryptography.hazmat.primitives.constant_time.bytes_eq": "bool",
}
METH_RET = {
    "to_bytes": "bytes", "hex": "str", "upper": "str", "lower": "str", "bit_length": "int",
    "strip": None, "format": "str",
    "private_bytes": "bytes", "public_bytes": "bytes", "private_bytes_raw": "bytes", "public_bytes_raw": "bytes",
}

FALSY_TYPES_NEVER = ("type", "callable")


NONEMPTY = {"sign": ("sign", "sign_deterministic", "sign_digest", "sign_digest_deterministic"),
            "AEAD": ("encrypt",), "stream": ("digest", "finalize", "tag")}


def lib_root(t):
    """Name of the library constructor at the root of a receiver chain, if that is what it is."""
    while True:
        if t.op == "fresh":
            t = t.args[1]
        elif t.op == "call":
            c = t.args[0]
            if c.op == "ext":
                return c.args[0].rsplit(".", 1)[-1]
            t = c
        elif t.op in ("attr", "meth"):
            t = t.args[0]
        else:
            return None


def lib_nonempty(t):
    """Results of cryptographic primitives are never the empty byte string."""
    c = t.args[0]
    if c.op == "ext":
        return c.args[0].rsplit(".", 1)[-1] in ("aes_key_wrap", "aes_key_wrap_with_padding")
    if c.op not in ("attr", "meth"):
        return False
    m = c.args[1]
    if m in NONEMPTY["sign"]:
        return lib_root(c.args[0]) is not None
    if m in ("private_numbers", "public_numbers", "private_bytes", "public_bytes", "private_bytes_raw", "public_bytes_raw"):
        return True
    if m == "encrypt":
        return lib_root(c.args[0]) in ("AESGCM", "AESCCM", "ChaCha20Poly1305")
    return False


def g_isnone(t):
    if t is NONE:
        return TRUE
    if t.op in ("const", "class", "func", "bound", "ext", "obj", "list", "dict", "tuple", "set", "prop", "inst",
                "meth", "fstr", "len", "int_be", "to_be", "bin", "cond", "module", "cat", "rep"):
        return FALSE
    if t.op == "gamma":
        return B.Or(*[B.And(g, g_isnone(x)) for g, x in t.args[0]])
    if typeof(t) is not None or t.op == "call" and lib_nonempty(t):
        return FALSE
    return atom("isnone", t)


def bits_of(t):
    """the positive library number whose bit length an expression rounds up to bytes"""
    while t.op in ("bin", "un"):
        t = t.args[1] if t.op == "un" or not is_const(t.args[1]) else t.args[2]
    if t.op == "call" and t.args[0].op in ("attr", "meth") and t.args[0].args[1] == "bit_length":
        n = t.args[0].args[0]
        if n.op == "attr" and typeof(n) == "int" and n.args[1] in RSA_NUMBERS:
            return n
    return None


def g_empty(t):
    """t is a non-None falsy value."""
    op = t.op
    if op == "const":
        v = t.args[1]
        return TRUE if (v is not None and not v) else FALSE
    if op in ("class", "func", "bound", "ext", "prop", "meth", "module"):
        return FALSE
    if op == "gamma":
        return B.Or(*[B.And(g, g_empty(x)) for g, x in t.args[0]])
    if op == "len":
        return B.Or(g_empty(t.args[0]), g_isnone(t.args[0]))
    if op in ("list", "tuple", "set"):
        r = TRUE
        for x in t.args:
            if x.op == "cseg":
                r = B.And(r, B.Not(x.args[0]))
            elif x.op == "star":
                r = B.And(r, g_empty(x.args[0]))
            else:
                return FALSE
        return r
    if op == "dict":
        r, gone = TRUE, False
        for x in t.args[1:]:
            if x.op == "cseg":
                gone = gone or x.args[0] == FALSE
                r = B.And(r, B.Not(x.args[0]))
            else:
                return FALSE
        if t.args[0] is NONE:
            return r
        if not gone and t.args[0].op in ("sym", "attr", "dict", "emptydict"):
            return r if t.args[0].op == "emptydict" else B.And(r, B.Or(g_empty(t.args[0]), g_isnone(t.args[0])))
        if t.args[0].op in ("sym", "attr", "dict"):
            rm = [x for x in t.args[1:] if x.op == "cseg" and x.args[0] == FALSE]
            had = B.Or(*[g_in(x.args[1].args[0], t.args[0]) for x in rm])
            return B.And(r, B.Or(g_empty(t.args[0]), B.And(had, atom("empty", T("dict", t.args[0], *rm)))))
    if op == "cat" and any(x.op == "const" and x.args[1] for x in t.args):
        return FALSE
    if op == "cat":
        return B.And(*[g_empty(x) for x in t.args])
    if op == "to_be" and len(t.args) > 1 and is_const(t.args[1]) and type(cval(t.args[1])) is int and cval(t.args[1]) > 0:
        return FALSE
    if op == "to_be" and t.args[0].op == "attr" and typeof(t.args[0]) == "int" and t.args[0].args[1] in RSA_NUMBERS and \
            len(t.args) > 1 and not is_const(t.args[1]):
        return FALSE        # positive numbers, minimal length
    if op in ("bin", "un") and t.args[0] in ("//", "+", ">>", "USub", "*") and bits_of(t) is not None:
        return FALSE
    if op == "map":
        # comprehension image of an iterable: (iter, val, cond)
        return B.Not(g_exists(t.args[0], t.args[2]))
    if op == "call":
        if t.args[0].op == "ext" and t.args[0].args[0] == "cbor2.dumps":
            return FALSE
        if t.args[0].op in ("attr", "meth") and t.args[0].args[1] in ("items", "keys", "values") and not t.args[1]:
            return g_empty(t.args[0].args[0])
        if lib_nonempty(t):
            return FALSE
    ty = typeof(t)
    if ty is not None and (ty in FALSY_TYPES_NEVER or ty.startswith("inst:") or ty.startswith("class:")):
        if not ty.startswith("inst:") or ty == "inst:ext":
            return FALSE
    if op in ("call", "fresh") and LENGTH[0]:
        n = LENGTH[0](t)
        if n is not None:
            return TRUE if n == 0 else FALSE
    return atom("empty", t)


def g_truthy(t):
    return B.And(B.Not(g_isnone(t)), B.Not(g_empty(t)))


LENGTH = [None]     # known length of a term, set by extsig


def g_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "gamma":
        return B.Or(*[B.And(g, g_eq(x, b)) for g, x in a.args[0]])
    if b.op == "gamma":
        return B.Or(*[B.And(g, g_eq(a, x)) for g, x in b.args[0]])
    if rigid(a) and rigid(b):
        if a.op == "const" and b.op == "const":
            try:
                return TRUE if cval(a) == cval(b) else FALSE
            except Exception:
                return FALSE
        return FALSE
    if rigid(a):
        a, b = b, a
    if b is NONE:
        return g_isnone(a)
    if b.op == "const" and not cval(b) and cval(b) is not None:
        ty = typeof(a)
        if ty in ("bytes", "str", "int", "list", "dict", "bool") and type(cval(b)).__name__ != ty and not (
                ty in ("int", "bool") and type(cval(b)).__name__ in ("int", "bool")):
            return FALSE
        return g_empty(a)
    if b.op == "const" and cval(b) is True and typeof(a) in ("bool",):
        return g_truthy(a)
    if b.op in ("list", "tuple", "dict", "set") and not b.args:
        return g_empty(a)
    if a.op == b.op == "tuple" and not any(x.op in ("star", "cseg") for x in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        g = TRUE
        for x, y in zip(a.args, b.args):
            g = B.And(g, g_eq(x, y))
            if g == FALSE:
                break
        return g
    ta, tb = typeof(a), typeof(b)
    if ta and tb and ta != tb and ta in DISJOINT and tb in DISJOINT and {ta, tb} != {"int", "bool"}:
        return FALSE
    if b.op == "class" and ta and (ta in DISJOINT or ta.startswith("inst:")):
        return FALSE
    if b.op == "class" and ta and ta.startswith("class:") and not SUBCLASS[0](b.args[0], ta[6:]):
        return FALSE
    if (a.op == "bin" or b.op == "bin") and typeof(a) == "int" and typeof(b) == "int":
        d = {}
        if linear(a, 1, d) and linear(b, -1, d):
            k = d.pop(None, 0)
            d = {t: x for t, x in d.items() if x}
            if not d:
                return TRUE if k == 0 else FALSE
            if len(d) == 1:
                (t, x), = d.items()
                if k % x:
                    return FALSE
                if t.op != "bin":
                    return g_eq(t, const(-k // x))
            elif len(d) == 2 and k == 0:
                (t, x), (u, y) = d.items()
                if x == -y and t.op != "bin" and u.op != "bin":
                    return g_eq(t, u)
    if a.op == "typeof" and b.op == "ext" and not b.args[0].startswith("builtins."):
        return g_isinst(a.args[0], "ext:" + b.args[0])
    if not rigid(b) and a.id > b.id:
        a, b = b, a
    if a.op == "len" and is_const(b) and isinstance(cval(b), int):
        if cval(b) < 0:
            return FALSE
        n = LENGTH[0](a.args[0]) if LENGTH[0] else None
        if n is not None:
            return TRUE if n == cval(b) else FALSE
    return atom("eq", a, b)


DISJOINT = {"bytes", "str", "int", "bool", "list", "dict", "tuple", "set", "NoneType", "float", "bytearray"}


LIBCURVES = ("SECP", "SECT", "Brainpool")
LIBKEYS = {a + b for a in ("EllipticCurve", "RSA", "Ed25519", "Ed448", "X25519", "X448", "DSA", "DH") for b in ("PrivateKey", "PublicKey")}


def g_isinst(t, k):
    """k: type key string."""
    ty = typeof(t)
    if t.op == "gamma":
        return B.Or(*[B.And(g, g_isinst(x, k)) for g, x in t.args[0]])
    if k == "NoneType":
        return g_isnone(t)
    if t.op == "copyof":
        return g_isinst(t.args[0], k)
    if ty is not None:
        if ty == "NoneType":
            return TRUE if k == "NoneType" else FALSE
        if ty in DISJOINT or ty in ("callable",):
            if ty == k or (ty == "bool" and k == "int") or (k == "object"):
                return TRUE
            if k == "frozenset" and ty == "set":
                return TRUE
            return FALSE
        if ty == "type" or ty.startswith("class:"):
            return TRUE if k in ("type", "object") else FALSE
        if ty.startswith("inst:") and ty != "inst:ext":
            q = ty[5:]
            if k in DISJOINT:
                return FALSE
            if SUBCLASS[0](q, k):
                return TRUE
            if SUBCLASS[0](k, q):
                return atom("isinst", t, k)
            return FALSE
        if ty.startswith("listof:"):
            return TRUE if k == "list" else FALSE
        if ty.startswith("ext:") and k.startswith("ext:"):
            a, b = (x.rsplit(".", 1)[-1].replace("WithSerialization", "") for x in (ty, k))
            if a == b:
                return TRUE
            if a in LIBKEYS and b in LIBKEYS or a.startswith("SECP") and b.startswith("SECP"):
                return FALSE
    if k == "object":
        return TRUE
    if k == "NoneType":
        return g_isnone(t)
    return atom("isinst", t, k)


def g_in(x, coll):
    return atom("in", x, coll)


def linear(t, k, out):
    """Add k*t to a linear form {term: coefficient} with constant under None; False if not linear."""
    if t.op == "const":
        if not isinstance(t.args[1], int):
            return False
        out[None] = out.get(None, 0) + k * t.args[1]
        return True
    if t.op == "bin" and t.args[0] in ("+", "-"):
        return linear(t.args[1], k, out) and linear(t.args[2], k if t.args[0] == "+" else -k, out)
    if t.op == "bin" and t.args[0] == "*" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        return linear(t.args[2], k * cval(t.args[1]), out)
    if t.op == "bin" and t.args[0] == "*" and is_const(t.args[2]) and isinstance(cval(t.args[2]), int):
        return linear(t.args[1], k * cval(t.args[2]), out)
    if typeof(t) != "int":
        return False
    out[t] = out.get(t, 0) + k
    return True


def lin_lt(a, b):
    """a < b over integers by its linear normal form, where that is a simple comparison."""
    d = {}
    if not (linear(a, 1, d) and linear(b, -1, d)):
        return None
    c = d.pop(None, 0)
    d = {t: k for t, k in d.items() if k}
    if not d:
        return TRUE if c < 0 else FALSE
    pos = [t for t, k in d.items() if k == 1]
    neg = [t for t, k in d.items() if k == -1]
    if len(pos) + len(neg) != len(d) or len(pos) > 1 or len(neg) > 1:
        return None
    if pos and not neg:
        return g_lt(pos[0], const(-c)) if pos[0] is not a else None
    if neg and not pos:
        return g_lt(const(c), neg[0]) if neg[0] is not b else None
    if c == 0:
        return g_lt(pos[0], neg[0]) if pos[0] is not a else None
    if c == -1 and (neg[0], pos[0]) != (a, b):
        return B.Not(g_lt(neg[0], pos[0]))
    return None


def g_lt(a, b):
    if is_const(a) and is_const(b):
        try:
            return TRUE if cval(a) < cval(b) else FALSE
        except Exception:
            return FALSE
    if a is b:
        return FALSE
    if (a.op == "bin" or b.op == "bin") and typeof(a) == "int" and typeof(b) == "int":
        r = lin_lt(a, b)
        if r is not None:
            return r
    # normalise comparisons of len() against 0/1
    if a.op == "len" and is_const(b) and isinstance(cval(b), int):
        if cval(b) <= 0:
            return FALSE
        if cval(b) == 1:
            return g_empty(a)
    if b.op == "len" and is_const(a) and isinstance(cval(a), int):
        if cval(a) < 0:
            return TRUE
        if cval(a) == 0:
            return B.Not(g_empty(b))
    if is_const(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool):
        return atom("lt", a, b)
    if is_const(a) and isinstance(cval(a), int) and not isinstance(cval(a), bool):
        # c < x   ==  not (x < c+1) for integers
        return B.Not(g_lt(b, const(cval(a) + 1)))
    return atom("lt", a, b)


def depends(x, subs, memo=None):
    """Does term/guard x mention any of the terms in subs (set of Term)?"""
    if memo is None:
        memo = {}
    if isinstance(x, Term):
        if x in subs:
            return True
        r = memo.get(x.id)
        if r is None:
            memo[x.id] = False
            r = any(depends(a, subs, memo) for a in x.args if isinstance(a, (Term, tuple)))
            if not r and x.op == "gamma":
                r = any(dep_guard(g, subs, memo) for g, _ in x.args[0])
            if not r and x.op == "cseg":
                r = dep_guard(x.args[0], subs, memo)
            if not r and x.op == "map":
                r = dep_guard(x.args[2], subs, memo)
            memo[x.id] = r
        return r
    if isinstance(x, tuple):
        return any(depends(a, subs, memo) for a in x if isinstance(a, (Term, tuple)))
    return False


def dep_guard(g, subs, memo=None):
    if memo is None:
        memo = {}
    for v in B.support(g):
        a = ATOMS[v]
        for x in a[1:]:
            if isinstance(x, Term) and depends(x, subs, memo):
                return True
        if a[0] == "exists" and dep_guard(a[2], subs, memo):
            return True
    return False


def g_exists(it, g):
    """Some element of iterable `it` satisfies guard g (which may mention elem(it))."""
    if g == FALSE:
        return FALSE
    e = elem_t(it)
    k = T("key", it)
    ne = B.Not(B.Or(g_empty(it), g_isnone(it)))
    if not dep_guard(g, {e, k}):
        return B.And(ne, g)
    return atom("exists", it, g)


# ---------------------------------------------------------------- feasibility

_ax_memo = {}
_sat_memo = {}


def _pyty(c):
    if c.op == "const":
        return c.args[0]
    if c.op == "class":
        return "type"
    return "callable"


def axioms(support):
    key = support
    r = _ax_memo.get(key)
    if r is not None:
        return r
    by = {}
    ax = TRUE
    for v in sorted(support):
        a = ATOMS[v]
        k = a[0]
        if k in ("isnone", "empty", "isinst", "hasattr", "eq"):
            by.setdefault(a[1], []).append((k, v, a))
        if k == "eq" and not rigid(a[2]):
            by.setdefault(a[2], []).append(("eqsym", v, a))
        if k == "lt" and is_const(a[2]):
            by.setdefault(a[1], []).append(("ltc", v, a))
        if k == "lt" and is_const(a[1]):
            by.setdefault(a[2], []).append(("gtc", v, a))
        if k in ("in",):
            by.setdefault(a[2], []).append(("member", v, a))
            by.setdefault(a[1], []).append(("memb_x", v, a))
        if k == "exists":
            by.setdefault(a[1], []).append(("ex", v, a))
    L = B.literal
    ax = TRUE
    for x, facts in by.items():
        n = len(facts)
        for i in range(n):
            for j in range(i + 1, n):
                c = _pair(facts[i], facts[j])
                if c is not None:
                    ax = B.And(ax, c)
    _ax_memo[key] = ax
    return ax


def _pair(p, q):
    (k1, v1, a1), (k2, v2, a2) = p, q
    L = B.literal
    N = B.Not

    def excl():
        return N(B.And(L(v1), L(v2)))

    ks = {k1, k2}
    if ks == {"isnone", "empty"}:
        return excl()
    if "isnone" in ks and ks & {"member", "ex", "hasattr", "isinst"}:
        return excl()
    if "empty" in ks and ks & {"member", "ex"}:
        return excl()
    if ks == {"isnone", "eq"}:
        e = a1 if k1 == "eq" else a2
        if rigid(e[2]):
            return excl()
        return None
    if ks == {"empty", "eq"}:
        e = a1 if k1 == "eq" else a2
        if rigid(e[2]):
            return excl()
        return None
    if k1 == k2 == "eq":
        if rigid(a1[2]) and rigid(a2[2]) and g_eq(a1[2], a2[2]) == FALSE:
            return excl()
        return None
    if ks == {"eq", "isinst"}:
        e, s = (a1, a2) if k1 == "eq" else (a2, a1)
        if rigid(e[2]):
            ok = g_isinst(e[2], s[2])
            ve, vs = (v1, v2) if k1 == "eq" else (v2, v1)
            if ok == TRUE:
                return B.Or(N(L(ve)), L(vs))
            if ok == FALSE:
                return N(B.And(L(ve), L(vs)))
        return None
    if ks == {"eq", "ltc"} or ks == {"eq", "gtc"}:
        e, s = (a1, a2) if k1 == "eq" else (a2, a1)
        ve, vs = (v1, v2) if k1 == "eq" else (v2, v1)
        if is_const(e[2]):
            try:
                val = cval(e[2]) < cval(s[2]) if "ltc" in ks else cval(s[1]) < cval(e[2])
                return B.Or(N(L(ve)), L(vs) if val else N(L(vs)))
            except TypeError:
                return None
        return None
    if k1 == k2 == "ltc":
        c1, c2 = cval(a1[2]), cval(a2[2])
        try:
            if c1 < c2:
                return B.Or(N(L(v1)), L(v2))
            if c2 < c1:
                return B.Or(N(L(v2)), L(v1))
        except TypeError:
            pass
        return None
    if k1 == k2 == "isinst":
        t1, t2 = a1[2], a2[2]
        if SUBCLASS[0](t1, t2) or (t1, t2) == ("bool", "int"):
            return B.Or(N(L(v1)), L(v2))
        if SUBCLASS[0](t2, t1) or (t2, t1) == ("bool", "int"):
            return B.Or(N(L(v2)), L(v1))
        if t1.startswith("ext:") or t2.startswith("ext:"):
            if t1 in DISJOINT or t2 in DISJOINT:
                return excl()
            n1, n2 = t1.rsplit(".", 1)[-1], t2.rsplit(".", 1)[-1]
            if n1 != n2 and (n1.startswith(LIBCURVES) and n2.startswith(LIBCURVES) or n1 in LIBKEYS and n2 in LIBKEYS):
                return excl()
            return None
        return excl()
    if ks == {"isinst", "hasattr"}:
        s, h = (a1, a2) if k1 == "isinst" else (a2, a1)
        if s[2] in DISJOINT and h[2] in ("identifier", "fullname", "value_parser", "__name__"):
            return excl()
        return None
    return None


def sat(f):
    if f == FALSE:
        return False
    if f == TRUE:
        return True
    r = _sat_memo.get(f)
    if r is None:
        s = B.support(f)
        if len(s) > 160:
            r = True
        else:
            r = B.And(f, axioms(s)) != FALSE
        _sat_memo[f] = r
    return r


def implies(f, g):
    return not sat(B.And(f, B.Not(g)))


# ---------------------------------------------------------------- values

def one(t):
    return ((TRUE, t),)


def vconst(v):
    return one(const(v))


def vbool(g):
    """bool value from guard"""
    if g == TRUE:
        return one(TRUEC)
    if g == FALSE:
        return one(FALSEC)
    return ((g, TRUEC), (B.Not(g), FALSEC))


MAXALT = 40


def norm(alts, pc=TRUE):
    """Merge alternatives with equal terms, drop infeasible ones."""
    acc = {}
    order = []
    for g, t in alts:
        if g == FALSE:
            continue
        if t in acc:
            acc[t] = B.Or(acc[t], g)
        else:
            acc[t] = g
            order.append(t)
    if len(order) > 1:
        order = [t for t in order if sat(B.And(pc, acc[t]))]
    if len(order) == 1:
        return one(order[0])
    return tuple((B.restrict(acc[t], pc) if pc not in (TRUE, FALSE) else acc[t], t) for t in order)


def single(v):
    return v[0][1] if len(v) == 1 else None


def as_term(v, pc=TRUE):
    """Embed a guarded value set as one term."""
    v = norm(v, pc)
    if len(v) == 1:
        return v[0][1]
    if not v:
        return top("novalue")
    flat = []
    for g, t in v:
        if t.op == "gamma":
            for g2, t2 in t.args[0]:
                flat.append((B.And(g, g2), t2))
        else:
            flat.append((g, t))
    flat = norm(flat, pc)
    if len(flat) == 1:
        return flat[0][1]
    return T("gamma", tuple(sorted(flat, key=lambda x: x[1].id)))


def from_term(t):
    if t.op == "gamma":
        return tuple(t.args[0])
    return one(t)


def subst(t, mapping, memo=None):
    """Substitute terms inside a term (also inside guards)."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, mapping, memo) if isinstance(x, (Term, tuple)) else x for x in t)
    if not isinstance(t, Term):
        return t
    if t in mapping:
        return mapping[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "gamma":
        r = as_term(tuple((subst_guard(g, mapping, memo), subst(x, mapping, memo)) for g, x in t.args[0]))
    elif t.op == "cseg":
        r = T("cseg", subst_guard(t.args[0], mapping, memo), subst(t.args[1], mapping, memo))
    elif t.op == "map":
        r = T("map", subst(t.args[0], mapping, memo), subst(t.args[1], mapping, memo),
              subst_guard(t.args[2], mapping, memo))
    elif t.op in ("const", "sym", "ext", "class", "func", "obj"):
        r = t
    else:
        r = T(t.op, *[subst(a, mapping, memo) if isinstance(a, (Term, tuple)) else a for a in t.args])
    memo[t] = r
    return r


def rebuild_atom(a, mapping, memo):
    k = a[0]
    args = [subst(x, mapping, memo) if isinstance(x, Term) else x for x in a[1:]]
    if k == "isnone":
        return g_isnone(args[0])
    if k == "empty":
        return g_empty(args[0])
    if k == "eq":
        return g_eq(args[0], args[1])
    if k == "isinst":
        return g_isinst(args[0], args[1])
    if k == "lt":
        return g_lt(args[0], args[1])
    if k == "exists":
        return g_exists(args[0], subst_guard(a[2], mapping, memo))
    return atom(k, *args)


def subst_guard(g, mapping, memo=None):
    if memo is None:
        memo = {}
    if g <= 1:
        return g
    mp = {}
    for v in B.support(g):
        a = ATOMS[v]
        if any(isinstance(x, Term) and depends(x, set(mapping)) for x in a[1:]) or (
                a[0] == "exists" and dep_guard(a[2], set(mapping))):
            mp[v] = rebuild_atom(a, mapping, memo)
    if not mp:
        return g
    return B.compose_vars(g, mp)


def congr(g):
    """The guard with everything that holds of a term also said of the terms it is equal to."""
    if g <= 1:
        return g
    for v in B.support(g):
        a = ATOMS[v]
        if a[0] != "eq" or rigid(a[1]) or rigid(a[2]) or a[1].op == "gamma" or a[2].op == "gamma":
            continue
        lit = B.literal(v)
        yes = B.And(g, lit)
        if yes == FALSE:
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if not mentions(y, lambda t: t is x):
                yes = B.And(yes, subst_guard(B.restrict(yes, lit), {x: y}))
        g = B.Or(B.And(g, B.Not(lit)), yes)
        if g == FALSE:
            break
    return g


# ---------------------------------------------------------------- comparison

def has_top(t, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return any(has_top(x, memo) for x in t if isinstance(x, (Term, tuple)))
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = False
    r = t.op in ("top", "phi", "novalue") or any(has_top(a, memo) for a in t.args if isinstance(a, (Term, tuple)))
    memo[t.id] = r
    return r


def mentions(t, pred, memo=None):
    """Sub-terms of t satisfying pred."""
    out = []
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, (Term, tuple)):
                    go(y)
            return
        if x.id in seen:
            return
        seen.add(x.id)
        if pred(x):
            out.append(x)
        for a in x.args:
            if isinstance(a, (Term, tuple)):
                go(a)

    go(t)
    return out


def flatten_list(t, pc):
    """Yield (guard, [elements]) alternatives of a list term with conditional segments."""
    alts = [(pc, [])]
    for x in t.args:
        if x.op == "cseg":
            new = []
            for g, acc in alts:
                g1 = B.And(g, x.args[0])
                g0 = B.And(g, B.Not(x.args[0]))
                if sat(g1):
                    new.append((g1, acc + [x.args[1]]))
                if sat(g0):
                    new.append((g0, acc))
            alts = new
        else:
            alts = [(g, acc + [x]) for g, acc in alts]
        if len(alts) > 256:
            return None
    return alts


def diff(a, b, pc=TRUE, out=None, path=""):
    """Compare two terms under pc.  Returns list of (guard, path, a, b) mismatches."""
    if out is None:
        out = []
    if a is b or len(out) > 8 or not sat(pc):
        return out
    if a.op == "gamma":
        for g, x in a.args[0]:
            diff(x, b, B.And(pc, g), out, path)
        return out
    if b.op == "gamma":
        for g, x in b.args[0]:
            diff(a, x, B.And(pc, g), out, path)
        return out
    if a.op == b.op == "item" or a.op == b.op == "attr" or a.op == b.op == "elem":
        if all((x is y) or (isinstance(x, Term) and isinstance(y, Term) and not diff(x, y, pc)) for x, y in zip(a.args, b.args)):
            return out
    if a.op == b.op and a.op in ("list", "tuple", "set"):
        if any(x.op == "cseg" for x in a.args + b.args):
            fa, fb = flatten_list(a, pc), flatten_list(b, pc)
            if fa is None or fb is None:
                out.append((pc, path, top("big"), b))
                return out
            for ga, xa in fa:
                for gb, xb in fb:
                    g = B.And(ga, gb)
                    if sat(g):
                        diff(T(a.op, *xa), T(b.op, *xb), g, out, path)
            return out
        if len(a.args) != len(b.args):
            out.append((pc, path, a, b))
            return out
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            diff(x, y, pc, out, "%s[%d]" % (path, i))
        return out
    if a.op == b.op and a.op == "call":
        if a.args[0] is b.args[0] or not diff(a.args[0], b.args[0], pc):
            if len(a.args[1]) == len(b.args[1]) and [k for k, _ in a.args[2]] == [k for k, _ in b.args[2]]:
                for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                    diff(x, y, pc, out, "%s(arg%d)" % (path, i))
                for (k, x), (_, y) in zip(a.args[2], b.args[2]):
                    diff(x, y, pc, out, "%s(%s)" % (path, k))
                return out
    if a.op == b.op and len(a.args) == len(b.args) and a.op in ("bin", "slice", "cat", "rep", "lpad", "xor", "int_be", "to_be", "star", "len", "map"):
        ok = True
        tmp = []
        if a.op == "int_be":
            pc = B.And(pc, B.Not(B.And(g_empty(a.args[0]), g_empty(b.args[0]))))
        if a.op == "bin" and a.args[0] in ("^", "|", "&") and a.args[0] == b.args[0] or a.op == "xor":
            k = 1 if a.op == "bin" else 0
            if diff(a.args[k], b.args[k], pc) and not diff(a.args[k], b.args[k + 1], pc) and \
                    not diff(a.args[k + 1], b.args[k], pc):
                return out
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                diff(x, y, pc, tmp, path + "/" + a.op)
            elif x != y:
                ok = False
        if ok:
            out.extend(tmp)
            return out
    for x, y in ((a, b), (b, a)):
        if x.op == "int_be" and y.op == "const" and y.args[1] == 0 and y.args[0] == "int":
            pc = B.And(pc, B.Not(g_eq(x.args[0], EMPTYB)))
            if not sat(pc):
                return out
    # equality implied by the guard (e.g. under "x == b''" the value b'' equals x)
    e = g_eq(a, b)
    if e != FALSE:
        pc = B.And(pc, B.Not(e))
        if not sat(pc):
            return out
    out.append((pc, path, a, b))
    return out
