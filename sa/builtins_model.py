"""Models of builtins, container methods and a few library calls for the interpreter."""
import ast
import builtins as _bi
import collections.abc as _abc
import itertools
import math

from . import terms as tm
from . import extsig
from .terms import *          # noqa
from .bdd import TRUE, FALSE

MIXINS = '''
def get(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return default

def __contains__(self, key):
    try:
        self[key]
    except KeyError:
        return False
    else:
        return True

def pop(self, key, *default):
    try:
        value = self[key]
    except KeyError:
        if default:
            return default[0]
        raise
    else:
        del self[key]
        return value

def setdefault(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        self[key] = default
    return default

def update(self, other=(), **kw):
    if isinstance(other, dict):
        for key in other:
            self[key] = other[key]
    else:
        for key, value in other:
            self[key] = value
    for key, value in kw.items():
        self[key] = value

def items(self):
    return [(k, self[k]) for k in self]

def keys(self):
    return [k for k in self]

def values(self):
    return [self[k] for k in self]
'''


def install(Interp):
    from . import engine as en
    LObj, DObj, IObj = en.LObj, en.DObj, en.IObj

    def lst(self, st, segs, kind="list"):
        return one(self.new_obj(st, LObj(kind, tuple(segs))))

    def bconst(v):
        return vconst(v)

    # ------------------------------------------------------------ helpers

    def mixin(self, st, recv, name, args, kw, node):
        tab = getattr(self, "_mixins", None)
        if tab is None:
            tab = self._mixins = {}
            st.heap.setdefault(T("module", "_mixins"), IObj("module", {}))
            for fn in ast.parse(MIXINS).body:
                fr = en.Frame(None, "_mixins")
                fr.cur = st
                self.frames.append(fr)
                tab[fn.name] = single(self.make_func(fn, st, fr))
                self.frames.pop()
        if name not in tab:
            return self.opaque_call(st, T("meth", recv, name), args, kw, node)
        return self.call_func(st, tab[name], [one(recv)] + list(args), kw, node)

    MAPPING = set(dir(_abc.MutableMapping))

    def hasattr_g(self, st, t, name):
        if t.op == "gamma":
            return B.Or(*[B.And(g, hasattr_g(self, st, x, name)) for g, x in t.args[0]])
        if t.op == "class":
            if self.class_lookup(st, t.args[0], name) is not None or name in ("__name__", "__qualname__", "__module__", "__doc__"):
                return TRUE
            return tm.atom("hasattr", t, name) if self.has_ext_base(t.args[0]) else FALSE
        if t.op == "module":
            o = st.heap.get(t)
            return TRUE if o is not None and name in o.fields else FALSE
        if t.op == "const":
            return TRUE if hasattr(cval(t), name) else FALSE
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            if self.class_lookup(st, o.cls, name) is not None:
                return TRUE
            if name in o.fields:
                u = [g for g, x in o.fields[name] if x.op == "undef"]
                return B.Not(B.Or(*u)) if u else TRUE
            if (o.lazy and self.declared(o.cls, name)) or name in MAPPING or [b for b in self.has_ext_base(o.cls) or () if "Mapping" not in b]:
                return tm.atom("hasattr", t, name)
            return FALSE
        if isinstance(o, LObj):
            return TRUE if name in dir(getattr(_bi, o.kind if o.kind != "frozenset" else "set")) else FALSE
        if isinstance(o, DObj):
            return TRUE if name in dir(dict) else FALSE
        ty = typeof(t)
        if ty in BT:
            return TRUE if name in dir(getattr(_bi, ty)) else FALSE
        if ty == "type" and name == "__name__":
            return TRUE
        if ty and ty.startswith("ext:") and ty.rsplit(".", 1)[-1] in tm.LIBKEYS and \
                name in ("private_bytes", "private_numbers", "public_key", "exchange", "sign"):
            return TRUE if ty.endswith("PrivateKey") else FALSE
        if ty and ty.startswith("class:") and self.class_lookup(st, ty[6:], name) is not None:
            return TRUE
        if t.op in ("func", "bound"):
            return TRUE if name in ("__name__", "__call__", "__doc__") else FALSE
        return tm.atom("hasattr", t, name)

    BT = ("bytes", "str", "int", "bool", "list", "dict", "tuple", "set", "float", "bytearray")

    def isinst_multi(self, st, t, k):
        o = self.ostate(st, k)
        if isinstance(o, LObj):
            g = FALSE
            for s in o.segs:
                if s[0] == "e":
                    for g2, x in s[1]:
                        g = B.Or(g, B.And(g2, isinst_multi(self, st, t, x)))
            return g
        key = self.type_key(k)
        if key is None:
            if k.op == "typeof":
                return tm.atom("isinst_of", t, k)
            return tm.atom("isinst_dyn", t, k)
        if key == "ext:collections.abc.Mapping" or key == "ext:collections.abc.MutableMapping":
            ob = self.ostate(st, t)
            if isinstance(ob, DObj):
                return TRUE
        return self.isinst(st, t, key)

    def issub(self, st, t, k):
        o = self.ostate(st, k)
        if isinstance(o, LObj):
            return B.Or(*[B.And(g2, issub(self, st, t, x)) for s in o.segs if s[0] == "e" for g2, x in s[1]])
        key = self.type_key(k)
        if t.op == "gamma":
            return B.Or(*[B.And(g, issub(self, st, x, k)) for g, x in t.args[0]])
        if t.op == "class" and key is not None:
            return TRUE if self.subclass(t.args[0], key) else FALSE
        if t.op == "ext" and key is not None:
            a = self.type_key(t)
            if a.startswith("ext:") and key.startswith("ext:"):
                return TRUE if self.subclass(a, key) else tm.atom("subclass", t, k) if not a.startswith("ext:builtins.") else FALSE
            return TRUE if (a == key or (a, key) == ("bool", "int") or key == "object") else FALSE
        ty = typeof(t)
        if ty and ty.startswith("class:") and key is not None:
            if self.subclass(ty[6:], key):
                return TRUE
            if not self.subclass(key, ty[6:]):
                # classes related through multiple inheritance only
                if not any(self.subclass(c, key) for c in self.subclasses_of(ty[6:])):
                    return FALSE
        if t.op == "typeof" and key is not None:
            return self.isinst(st, t.args[0], key)
        return tm.atom("subclass", t, k)

    def length(self, st, t):
        if t.op == "gamma":
            return as_term(tuple((g, length(self, st, x)) for g, x in t.args[0]))
        if t.op == "dictview":
            return length(self, st, t.args[0])
        if t.op == "iter" or t.op == "splat":
            return length(self, st, t.args[0])
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            m = self.class_lookup(st, o.cls, "__len__")
            if m is not None:
                return as_term(self.call_term(st, single(m[0]), [one(t)], {}, None), st.pc)
        if isinstance(o, LObj):
            n, conds = 0, []
            for s in o.segs:
                if s[0] == "e":
                    n += 1
                elif s[0] == "c":
                    conds.append(s[1])
                else:
                    sn = self.snapshot(st, t)
                    return T("len", sn)
            if len(conds) > 6:
                return T("len", self.snapshot(st, t))
            alts = {n: TRUE}
            for g in conds:
                new = {}
                for c, p in alts.items():
                    new[c + 1] = B.Or(new.get(c + 1, FALSE), B.And(p, g))
                    new[c] = B.Or(new.get(c, FALSE), B.And(p, B.Not(g)))
                alts = {c: p for c, p in new.items() if p != FALSE}
            return as_term(tuple((p, const(c)) for c, p in sorted(alts.items())), st.pc)
        if isinstance(o, DObj):
            if o.base is None and all(p == TRUE for p, _ in o.ent.values()):
                return const(len(o.ent))
            return T("len", self.snapshot(st, t))
        if is_const(t):
            try:
                return const(len(cval(t)))
            except TypeError:
                return T("len", t)
        n = extsig.known_len(t)
        if n is not None:
            return const(n)
        if t.op == "to_be" and len(t.args) > 1:
            return t.args[1]
        if t.op == "fresh" and t.args[1].op == "call" and t.args[1].args[0] is ext("os.urandom") and t.args[1].args[1]:
            return t.args[1].args[1][0]
        return T("len", self.snapshot(st, t))

    def elements_guard(self, st, v, f):
        """OR over the elements of iterable value v of f(element value)."""
        g = FALSE
        for s in self.spine_val(st, v, None):
            if s[0] == "e":
                g = B.Or(g, f(s[1]))
            elif s[0] == "c":
                g = B.Or(g, B.And(s[1], f(s[2])))
            else:
                g = B.Or(g, star_guard(self, st, s[1], f))
        return g

    def star_guard(self, st, it, f):
        if it.op == "gamma":
            return B.Or(*[B.And(g, star_guard(self, st, x, f)) for g, x in it.args[0]])
        if it.op in ("list", "tuple", "set"):
            g = FALSE
            for s in self.segs_of_struct(it):
                if s[0] == "e":
                    g = B.Or(g, f(s[1]))
                elif s[0] == "c":
                    g = B.Or(g, B.And(s[1], f(s[2])))
                else:
                    g = B.Or(g, star_guard(self, st, s[1], f))
            return g
        s2 = st.copy()
        v, base, cond = self.star_elem(s2, it)
        st.heap = s2.heap
        return g_exists(base, B.And(cond, f(v)))

    def map_over(self, st, itv, fn, node, flt=False):
        acc = self.new_obj(st, LObj("list", ()))
        fr = self.frames[-1]
        box = {}

        def bind(s, v):
            s.env["__it__"] = v

        def body(s):
            v = s.env["__it__"]
            if flt:
                r = self.truth(self.call_val(s, fn, [v], {}, node) if single(fn) is not NONE else v, s)
                p0 = B.And(s.pc, B.Not(r))
                sk = None
                if sat(p0):
                    sk = s.copy()
                    sk.pc = p0
                s.pc = B.And(s.pc, r)
                if sat(s.pc):
                    s.heap[acc] = LObj("list", s.heap[acc].segs + (("e", v),))
                else:
                    s = None
                return self.merge_states([s, sk])
            r = self.call_val(s, fn, [v], {}, node)
            if s.pc == FALSE:
                return None
            s.heap[acc] = LObj("list", s.heap[acc].segs + (("e", r),))
            return s

        r = self.iterate(st, itv, bind, body, fr, node, [])
        if r is None:
            st.pc = FALSE
            return one(top("dead"))
        if r is not st:
            st.pc, st.env, st.heap = r.pc, r.env, r.heap
        st.env.pop("__it__", None)
        return one(acc)

    def str_of(self, st, v, node, which):
        out = []
        for g, t in v:
            if t.op == "const" and not isinstance(cval(t), float):
                out.append((g, const(repr(cval(t)) if which == "repr" else str(cval(t)))))
                continue
            o = self.ostate(st, t)
            if isinstance(o, IObj) and o.cls in self.classes:
                r = None
                for nm in (("__repr__",) if which == "repr" else ("__str__", "__repr__")):
                    r = self.class_lookup(st, o.cls, nm)
                    if r is not None:
                        break
                if r is not None and len(v) == 1:
                    return self.call_term(st, single(r[0]), [one(t)], {}, node)
            if which == "str" and typeof(t) == "str":
                out.append((g, t))
                continue
            ft = T("fstr", T("fmt", self.snapshot(st, t)))
            self.emit(st, "format", which, node, args=[ft], result=ft)
            out.append((g, ft))
        return norm(out, st.pc)

    def to_int(self, st, args, kw, node):
        x = args[0]
        out = []
        base = args[1] if len(args) > 1 else kw.get("base")
        bt = as_term(base, st.pc) if base is not None else None
        for g, t in x:
            if is_const(t) and (bt is None or is_const(bt)):
                try:
                    out.append((g, const(int(cval(t), cval(bt)) if bt is not None else int(cval(t)))))
                    continue
                except Exception:
                    self.raise_builtin(st, g, "ValueError", "int()", node)
                    continue
            if bt is not None and is_const(bt) and cval(bt) == 16 and t.op in ("hex", "hexb"):
                out.append((g, T("int_be", t.args[0])))
                continue
            if typeof(t) == "int" and bt is None:
                out.append((g, t))
                continue
            r = T("call", ext("builtins.int"), (self.snapshot(st, t),) + ((bt,) if bt is not None else ()), ())
            TYPES[r] = "int"
            self.may_raise(st, r, node, "ValueError")
            out.append((g, r))
        return norm(out, st.pc) or one(top("int"))

    def from_bytes(self, st, args, kw, node):
        x = args[0]
        bo = as_term(args[1] if len(args) > 1 else kw.get("byteorder", vconst("big")), st.pc)
        sg = kw.get("signed")
        if bo is const("big") and (sg is None or single(sg) is FALSEC):
            out = []
            for g, t in x:
                if is_const(t) and isinstance(cval(t), bytes):
                    out.append((g, const(int.from_bytes(cval(t), "big"))))
                elif t.op == "lpad":
                    out.append((g, T("int_be", t.args[0])))
                else:
                    out.append((g, T("int_be", self.snapshot(st, t))))
            return norm(out, st.pc)
        r = T("call", ext("builtins.int.from_bytes"), (self.snapv(st, x), bo), ())
        TYPES[r] = "int"
        return one(r)

    def deep(self, st, t, rec):
        o = st.heap.get(t)
        if o is None:
            o = self.ostate(st, t) if t.op in ("list", "dict", "tuple", "set") else None
        if isinstance(o, LObj):
            segs = []
            for s in o.segs:
                if rec and s[0] == "e":
                    segs.append(("e", tuple((g, deep(self, st, x, rec)) for g, x in s[1])))
                elif rec and s[0] == "c":
                    segs.append(("c", s[1], tuple((g, deep(self, st, x, rec)) for g, x in s[2])))
                else:
                    segs.append(s)
            return self.new_obj(st, LObj(o.kind, segs))
        if isinstance(o, DObj):
            ent = {k: (p, tuple((g, deep(self, st, x, rec) if rec else x) for g, x in v)) for k, (p, v) in o.ent.items()}
            return self.new_obj(st, DObj(o.base, ent))
        if isinstance(o, IObj) and o.cls in self.classes:
            f = {n: (tuple((g, deep(self, st, x, rec)) for g, x in v) if rec else v) for n, v in o.fields.items()}
            if o.lazy:
                return T("copyof", t) if not f else t
            return self.new_obj(st, IObj(o.cls, f, o.lazy))
        ty = typeof(t)
        if rigid(t) or ty in ("bytes", "str", "int", "bool"):
            return t
        if ty in ("dict", "list", "set") or (ty or "").startswith("listof:"):
            c = self.copy_container(st, t)
            return c
        return t if t.op in ("top", "call", "fresh", "bin") else T("copyof", t)

    # ------------------------------------------------------------ builtin functions

    def call_ext(self, st, t, args, kw, node):
        name = t.args[0]
        m = self.ext_models.get(name)
        if m is not None:
            r = m(self, st, args, kw, node)
            if r is not None:
                return r
        # 'star' argument vectors are only supported by opaque calls
        if name.startswith("builtins."):
            n = name[9:]
            if "." in n:
                cn, mn = n.split(".", 1)
                if n == "int.from_bytes":
                    return from_bytes(self, st, args, kw, node)
                if n == "dict.fromkeys":
                    d = self.new_obj(st, DObj(None, {}))
                    val = args[1] if len(args) > 1 else one(NONE)
                    for s in self.spine_val(st, args[0], node):
                        if s[0] == "e":
                            self.setitem(st, one(d), s[1], val, node)
                        else:
                            st.heap[d] = DObj(T("dictfrom", s[1] if s[0] == "s" else as_term(s[2])), {})
                    return one(d)
                if n == "bytes.fromhex" or n == "bytearray.fromhex":
                    x = as_term(args[0], st.pc)
                    if x.op in ("hex", "hexb"):
                        return one(x.args[0])
                    if is_const(x):
                        try:
                            return vconst(bytes.fromhex(cval(x)))
                        except Exception:
                            pass
                    r = T("call", t, (x,), ())
                    TYPES[r] = "bytes"
                    self.may_raise(st, r, node, "ValueError")
                    return one(r)
                if n == "object.__init__":
                    return one(NONE)
                if n == "object.__new__":
                    c = single(args[0]) if args else None
                    if c is not None and c.op == "class":
                        return one(self.new_obj(st, IObj(c.args[0], {})))
                if mn in ("__setattr__",) and cn == "object" and len(args) == 3:
                    nm = single(args[1])
                    if nm is not None and is_const(nm):
                        for g, o in args[0]:
                            self.emit(st, "setattr", cval(nm), node, args=[as_term(args[2], st.pc)], recv=o)
                            self.set_field(st, o, cval(nm), args[2])
                        return one(NONE)
                if args and cn in ("dict", "list", "set", "str", "bytes", "int"):
                    return self.over(st, args[0], lambda s, x: self.b_method(s, x, mn, args[1:], kw, node))
                return self.opaque_call(st, t, args, kw, node)
            c = getattr(_bi, n, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                at = [self.snapv(st, a) for a in args]
                r = T("call", t, tuple(at), ())
                self.emit(st, "excnew", n, node, args=at)
                return one(r)
            f = BUILTINS.get(n)
            if f is not None:
                r = f(self, st, args, kw, node)
                if r is not None:
                    return r
            return self.opaque_call(st, t, args, kw, node)
        f = EXTFUN.get(name)
        if f is not None:
            r = f(self, st, args, kw, node)
            if r is not None:
                return r
        return self.opaque_call(st, t, args, kw, node, fresh=name in en.FRESH or name.endswith("PrivateKey.generate"))

    def b_len(self, st, args, kw, node):
        out = []
        for g, t in args[0]:
            if t is NONE:
                self.raise_builtin(st, g, "TypeError", "object of type 'NoneType' has no len()", node)
                continue
            r = length(self, st, t)
            out += [(B.And(g, g2), x) for g2, x in from_term(r)]
        return norm(out, st.pc) or one(top("len"))

    def b_isinstance(self, st, args, kw, node):
        g = FALSE
        for g1, x in args[0]:
            for g2, k in args[1]:
                g = B.Or(g, B.And(g1, g2, isinst_multi(self, st, x, k)))
        return vbool(g)

    def b_issubclass(self, st, args, kw, node):
        g = FALSE
        for g1, x in args[0]:
            for g2, k in args[1]:
                g = B.Or(g, B.And(g1, g2, issub(self, st, x, k)))
        return vbool(g)

    def b_hasattr(self, st, args, kw, node):
        n = single(args[1])
        if n is None or not is_const(n):
            return None
        return vbool(B.Or(*[B.And(g, hasattr_g(self, st, x, cval(n))) for g, x in args[0]]))

    def b_getattr(self, st, args, kw, node):
        def byname(s, n):
            if not is_const(n):
                if len(args) > 2:
                    return one(T("call", ext("builtins.getattr"), (self.snapv(s, args[0]), n, self.snapv(s, args[2])), ()))
                return one(T("getattr", self.snapv(s, args[0]), n))

            def f(s2, x):
                if len(args) < 3:
                    return self.getattr_val(s2, one(x), cval(n), node)
                g = hasattr_g(self, s2, x, cval(n))
                if g == TRUE:
                    return self.getattr_val(s2, one(x), cval(n), node)
                if g == FALSE:
                    return args[2]
                s3 = s2.copy()
                s3.pc = B.And(s2.pc, g)
                outs = []
                if sat(s3.pc):
                    outs.append((s3, self.getattr_val(s3, one(x), cval(n), node)))
                s4 = s2.copy()
                s4.pc = B.And(s2.pc, B.Not(g))
                outs.append((s4, args[2]))
                return self.join_into(s2, outs)

            return self.over(s, args[0], f)

        return self.over(st, args[1], byname)

    def b_setattr(self, st, args, kw, node):
        def byname(s, n):
            if not is_const(n):
                self.emit(s, "unsupported", "setattr-dynamic", node)
                return one(NONE)
            self.setattr_val(s, args[0], cval(n), args[2], node)
            return one(NONE)

        return self.over(st, args[1], byname)

    def b_type(self, st, args, kw, node):
        if len(args) != 1:
            return None
        out = []
        for g, t in args[0]:
            o = self.ostate(st, t)
            if isinstance(o, IObj) and o.cls in self.classes and t.op == "obj" and not o.lazy:
                out.append((g, cls(o.cls)))
            elif isinstance(o, LObj):
                out.append((g, ext("builtins." + o.kind)))
            elif isinstance(o, DObj):
                out.append((g, ext("builtins.dict")))
            elif is_const(t):
                out.append((g, ext("builtins." + type(cval(t)).__name__)))
            elif typeof(t) in BT:
                out.append((g, ext("builtins." + typeof(t))))
            elif t.op == "class":
                out.append((g, ext("builtins.type")))
            elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].startswith("cryptography.") and \
                    t.args[0].args[0].rsplit(".", 1)[-1][0].isupper():
                out.append((g, t.args[0]))          # an instance of the library class called
            else:
                out.append((g, T("typeof", t)))
        return norm(out, st.pc)

    def b_dict(self, st, args, kw, node):
        d = self.new_obj(st, DObj(None, {}))
        if args:
            self.dict_update(st, d, args[0], node)
        for k, v in kw.items():
            if k == "**":
                self.dict_update(st, d, v, node)
            else:
                o = st.heap[d]
                ent = dict(o.ent)
                ent[const(k)] = (TRUE, v)
                st.heap[d] = DObj(o.base, ent)
        return one(d)

    def mk_seq(kind):
        def f(self, st, args, kw, node):
            if not args:
                return lst(self, st, (), kind)
            for g, t in args[0]:
                if t is NONE:
                    self.raise_builtin(st, g, "TypeError", "'NoneType' object is not iterable", node)
            if st.pc == FALSE:
                return one(top("dead"))
            v = norm([(g, t) for g, t in args[0] if t is not NONE], st.pc)
            if not v:
                return one(top("iter"))
            segs = self.spine_val(st, v, node)
            if kind in ("set", "frozenset"):
                seen, out = set(), []
                for s in segs:
                    if s[0] == "e":
                        x = single(s[1])
                        if x is not None and x in seen:
                            continue
                        if x is not None:
                            seen.add(x)
                    out.append(s)
                segs = out
            return lst(self, st, segs, kind)
        return f

    def b_bytes(self, st, args, kw, node):
        if not args:
            return vconst(b"")
        out = []
        for g, t in args[0]:
            ty = typeof(t)
            o = self.ostate(st, t)
            if ty == "bytes":
                out.append((g, t))
            elif is_const(t) and isinstance(cval(t), int) and 0 <= cval(t) <= 4096:
                out.append((g, const(bytes(cval(t)))))
            elif ty == "int":
                out.append((g, T("rep", const(b"\0"), t)))
            elif isinstance(o, LObj):
                sn = self.snapshot(st, t)
                vals = [s[1] for s in o.segs if s[0] == "e"]
                if len(vals) == len(o.segs) and all(single(v) is not None and is_const(single(v)) for v in vals):
                    try:
                        out.append((g, const(bytes(cval(single(v)) for v in vals))))
                        continue
                    except Exception:
                        pass
                ct = cat_of(st, o)
                if ct is not None:
                    out.append((g, ct))
                    continue
                xs = xor_of(sn, B.And(st.pc, g))
                if xs is not None:
                    out += [(B.And(g, g2), x) for g2, x in xs]
                else:
                    out.append((g, top("bytes")))
            elif t is NONE:
                self.raise_builtin(st, g, "TypeError", "cannot convert 'NoneType' object to bytes", node)
            else:
                r = T("call", ext("builtins.bytes"), (self.snapshot(st, t),), ())
                TYPES[r] = "bytes"
                out.append((g, r))
        return norm(out, st.pc) or one(top("bytes"))

    def cat_of(st, o):
        """bytes(list) whose elements are known integers and whole byte strings"""
        out = []
        for x in o.segs:
            if x[0] == "e":
                t = single(x[1])
                if t is None or not is_const(t) or not isinstance(cval(t), int) or not 0 <= cval(t) < 256:
                    return None
                out.append(const(bytes([cval(t)])))
            elif x[0] == "s" and typeof(x[1]) == "bytes":
                out.append(x[1])
            else:
                return None
        return extsig.bcat(out)

    def b_bytearray(self, st, args, kw, node):
        """Modelled as a list of its bytes."""
        if not args:
            return lst(self, st, [])
        v = b_bytes(self, st, args, kw, node)
        t = single(v)
        if t is None:
            t = as_term(v, st.pc)
        if is_const(t) and isinstance(cval(t), bytes):
            return lst(self, st, [("e", vconst(x)) for x in cval(t)])
        return lst(self, st, [("s", t)])

    def xor_of(sn, pc):
        """bytes(a ^ b for a, b in zip(x, y)) -> xor(x, y), by alternative"""
        if len(sn.args) != 1 or sn.args[0].op != "star":
            return None
        m = sn.args[0].args[0]
        if m.op == "map" and m.args[2] == TRUE and m.args[1].op == "gamma":
            out = []
            for g, body in m.args[1].args[0]:
                if sat(B.And(pc, g)):
                    r = xor_of(T("list", T("star", T("map", m.args[0], body, TRUE))), B.And(pc, g))
                    if r is None:
                        return None
                    out += [(B.And(g, g2), x) for g2, x in r]
            return out
        if m.op != "map" or m.args[2] != TRUE or m.args[1].op != "bin" or m.args[1].args[0] != "^":
            return None
        a, b = m.args[1].args[1], m.args[1].args[2]
        n = None
        if m.args[0].op == "range" and len(m.args[0].args) == 1:
            # indexed by range(n): both operands have to reach n, one has to have exactly that length
            n = m.args[0].args[0]
            ix = lambda t: t.op == "item" and t.args[1].op == "elem" and t.args[1].args[0] is m.args[0]
            if not (ix(a) and ix(b)):
                return None
        elif a.op != "elem" or b.op != "elem":
            return None

        def plain(t):
            while t.op in ("list", "tuple") and len(t.args) == 1 and t.args[0].op == "star":
                t = t.args[0].args[0]
            return t

        def alts(t, g):
            out = []
            for g2, x in from_term(plain(t)):
                q = B.And(g, g2)
                if sat(B.And(pc, q)):
                    x = plain(x)
                    if x.op == "gamma":
                        out += alts(x, q)
                    elif x.op == "lpad":
                        for g3, y in from_term(x.args[0]):
                            for g4, n in from_term(x.args[1]):
                                if sat(B.And(pc, q, g3, g4)):
                                    out.append((B.And(q, g3, g4), T("lpad", y, n)))
                    else:
                        out.append((q, x))
            return out

        res = []
        for g1, x in alts(a.args[0], TRUE):
            for g2, y in alts(b.args[0], g1):
                if not sat(B.And(pc, g2)):
                    continue
                r = None
                for p, q in ((x, y), (y, x)):
                    z = None
                    if q.op == "lpad" and q.args[1] is T("len", p):
                        z = q.args[0]
                    elif q.op == "to_be" and q.args[1] is T("len", p) and q.args[0].op == "int_be":
                        z = q.args[0].args[0]
                    if z is not None:
                        r = T("to_be", T("bin", "^", *sorted((T("int_be", p), T("int_be", z)), key=lambda w: w.id)), T("len", p))
                        break
                    if z is not None and n is not None and n is not T("len", p) and n is not q.args[1]:
                        return None
                if r is None:
                    if n is not None and not (n is T("len", x) and n is T("len", y)):
                        return None
                    r = T("xor", *sorted((x, y), key=lambda w: w.id))
                TYPES[r] = "bytes"
                res.append((g2, r))
        return res or None

    def b_range(self, st, args, kw, node):
        ts = [as_term(a, st.pc) for a in args]
        return one(T("range", *ts))

    def b_enumerate(self, st, args, kw, node):
        start = as_term(args[1], st.pc) if len(args) > 1 else as_term(kw["start"], st.pc) if "start" in kw else const(0)

        def f(s, t):
            segs = self.spine(s, t, node)
            if all(x[0] == "e" for x in segs) and is_const(start):
                out = []
                for i, x in enumerate(segs):
                    tt = self.new_obj(s, LObj("tuple", (("e", vconst(i + cval(start))), ("e", x[1]))))
                    out.append(("e", one(tt)))
                return lst(self, s, out)
            if len(segs) == 1 and segs[0][0] == "s":
                return one(T("enumerate", segs[0][1]))
            return one(T("enumerate", self.snapshot(s, t)))

        return self.over(st, args[0], f)

    def b_zip(self, st, args, kw, node):
        sps = [self.spine_val(st, a, node) for a in args]
        if sps and all(all(x[0] == "e" for x in sp) for sp in sps):
            out = []
            for row in zip(*sps):
                tt = self.new_obj(st, LObj("tuple", tuple(("e", x[1]) for x in row)))
                out.append(("e", one(tt)))
            return lst(self, st, out)
        return one(T("zip", *[sp[0][1] if len(sp) == 1 and sp[0][0] == "s" else self.snapv(st, a) for sp, a in zip(sps, args)]))

    def b_map(self, st, args, kw, node):
        if len(args) == 2:
            return map_over(self, st, args[1], args[0], node)
        return None

    def b_filter(self, st, args, kw, node):
        return map_over(self, st, args[1], args[0], node, flt=True)

    def b_any(self, st, args, kw, node):
        return vbool(elements_guard(self, st, args[0], lambda v: self.truth(v, st)))

    def b_all(self, st, args, kw, node):
        return vbool(B.Not(elements_guard(self, st, args[0], lambda v: B.Not(self.truth(v, st)))))

    def b_sorted(self, st, args, kw, node):
        segs = self.spine_val(st, args[0], node)
        if all(x[0] == "e" and single(x[1]) is not None and is_const(single(x[1])) for x in segs) and not kw:
            try:
                return lst(self, st, [("e", vconst(v)) for v in sorted(cval(single(x[1])) for x in segs)])
            except TypeError:
                pass
        if len(segs) <= 1 and all(x[0] != "s" for x in segs):
            return lst(self, st, segs)
        rev = kw.get("reverse", one(FALSEC))
        rev = single(rev)
        if 2 <= len(segs) <= 24 and all(x[0] == "e" for x in segs) and rev is not None and is_const(rev) and \
                not set(kw) - {"key", "reverse"}:
            # a stable sort of known elements: every position is one of them, under the order of their keys
            kf = kw.get("key")
            ks = []
            for _, v in segs:
                if kf is not None and single(kf) is not NONE:
                    v = self.call_val(st, kf, [v], {}, node)
                    if st.pc == FALSE:
                        return lst(self, st, segs)
                ks.append(as_term(v, st.pc))
            down = bool(cval(rev))
            if all(is_const(k) for k in ks):
                try:
                    order = sorted(range(len(ks)), key=lambda i: cval(ks[i]), reverse=down)
                except TypeError:
                    self.raise_builtin(st, TRUE, "TypeError", "'<' not supported between keys", node, True)
                    return lst(self, st, segs)
                return lst(self, st, [segs[i] for i in order])
            if len(segs) > 4:
                t = self.new_obj(st, LObj("list", tuple(segs)))
                return lst(self, st, [("s", T("sorted", self.snapshot(st, t), top("key")))])
            before = lambda i, j: g_lt(ks[j], ks[i]) if down else g_lt(ks[i], ks[j])   # strictly
            n = len(segs)
            swap = {(i, j): before(j, i) for i in range(n) for j in range(i + 1, n)}
            pos = [[] for _ in range(n)]
            for perm in itertools.permutations(range(n)):
                g = TRUE
                for a in range(n):
                    for b in range(a + 1, n):
                        i, j = perm[a], perm[b]
                        g = B.And(g, B.Not(swap[i, j]) if i < j else swap[j, i])
                if not sat(B.And(st.pc, g)):
                    continue
                for at, i in enumerate(perm):
                    for q, t in segs[i][1]:
                        pos[at].append((B.And(g, q), t))
            if all(pos):
                return lst(self, st, [("e", norm(tuple(x), st.pc)) for x in pos])
        t = self.new_obj(st, LObj("list", tuple(segs)))
        return lst(self, st, [("s", T("sorted", self.snapshot(st, t), *[top("key") for _ in kw]))])

    def b_reversed(self, st, args, kw, node):
        segs = self.spine_val(st, args[0], node)
        out = [x if x[0] != "s" else ("s", T("reversed", x[1])) for x in reversed(segs)]
        return lst(self, st, out)

    def b_minmax(fn):
        def f(self, st, args, kw, node):
            vals = [as_term(a, st.pc) for a in args]
            if len(args) == 1:
                segs = self.spine_val(st, args[0], node)
                if all(x[0] == "e" for x in segs):
                    vals = [as_term(x[1], st.pc) for x in segs]
            if vals and all(is_const(v) for v in vals) and not kw and len(vals) > 1:
                try:
                    return vconst(fn(*[cval(v) for v in vals]))
                except TypeError:
                    pass
            r = T("call", ext("builtins." + fn.__name__), tuple(self.snapshot(st, v) for v in vals), ())
            return one(r)
        return f

    def b_sum(self, st, args, kw, node):
        segs = self.spine_val(st, args[0], node)
        if all(x[0] == "e" for x in segs):
            acc = args[1] if len(args) > 1 else vconst(0)
            for x in segs:
                acc = self.binop(st, "Add", acc, x[1], node)
            return acc
        return one(T("call", ext("builtins.sum"), (self.snapv(st, args[0]),), ()))

    def b_abs(self, st, args, kw, node):
        t = as_term(args[0], st.pc)
        if is_const(t):
            return vconst(abs(cval(t)))
        return one(T("call", ext("builtins.abs"), (t,), ()))

    def b_iter(self, st, args, kw, node):
        return self.over(st, args[0], lambda s, t: one(T("iter", t)))

    def b_next(self, st, args, kw, node):
        def f(s, t):
            segs = self.spine(s, t, node)
            if segs and segs[0][0] == "e":
                return segs[0][1]
            alts, miss = [], TRUE
            for x in segs:
                if x[0] == "e":
                    alts += [(B.And(miss, g), y) for g, y in x[1]]
                    miss = FALSE
                    break
                if x[0] == "c":
                    alts += [(B.And(miss, x[1], g), y) for g, y in x[2]]
                    miss = B.And(miss, B.Not(x[1]))
                else:
                    ne = self.star_nonempty(x[1])
                    it = x[1]
                    first = T("first", it)
                    if it.op == "map" and not tm.depends(it.args[1], {elem_t(it.args[0])}):
                        first = it.args[1]
                    alts.append((B.And(miss, ne), first))
                    miss = B.And(miss, B.Not(ne))
            if len(args) > 1:
                alts += [(B.And(miss, g), y) for g, y in args[1]]
            elif sat(B.And(s.pc, miss)):
                self.raise_builtin(s, miss, "StopIteration", "next", node)
            return norm(alts, s.pc) or one(top("next"))

        return self.over(st, args[0], f)

    def b_str(self, st, args, kw, node):
        if not args:
            return vconst("")
        if len(args) > 1 or kw:
            return None
        return str_of(self, st, args[0], node, "str")

    def b_repr(self, st, args, kw, node):
        return str_of(self, st, args[0], node, "repr")

    def b_bool(self, st, args, kw, node):
        return vbool(self.truth(args[0], st)) if args else vconst(False)

    def b_int(self, st, args, kw, node):
        if not args:
            return vconst(0)
        return to_int(self, st, args, kw, node)

    def b_callable(self, st, args, kw, node):
        g = FALSE
        for p, t in args[0]:
            if t.op in ("func", "bound", "class", "ext", "cm", "sm", "partial"):
                g = B.Or(g, p)
            elif t.op in ("const", "list", "dict") or isinstance(self.ostate(st, t), (LObj, DObj)) or typeof(t) in BT:
                pass
            else:
                g = B.Or(g, B.And(p, tm.atom("callable", t)))
        return vbool(g)

    def b_super(self, st, args, kw, node):
        return None

    def b_property(self, st, args, kw, node):
        a = list(args) + [None] * 3
        fg = single(a[0]) if a[0] else single(kw["fget"]) if "fget" in kw else None
        fs = single(a[1]) if a[1] else single(kw["fset"]) if "fset" in kw else None
        fd = single(a[2]) if a[2] else single(kw["fdel"]) if "fdel" in kw else None
        fg = None if fg is NONE else fg
        fs = None if fs is NONE else fs
        fd = None if fd is NONE else fd
        return one(self.new_prop(fg, fs, fd))

    def b_cm(tag):
        def f(self, st, args, kw, node):
            return one(T(tag, single(args[0])))
        return f

    def b_id(self, st, args, kw, node):
        return one(T("call", ext("builtins.id"), (as_term(args[0], st.pc),), ()))

    def b_hash(self, st, args, kw, node):
        return one(T("call", ext("builtins.hash"), (self.snapv(st, args[0]),), ()))

    def b_divmod(self, st, args, kw, node):
        a = self.binop(st, "FloorDiv", args[0], args[1], node)
        b = self.binop(st, "Mod", args[0], args[1], node)
        return lst(self, st, [("e", a), ("e", b)], "tuple")

    def b_format(self, st, args, kw, node):
        return str_of(self, st, args[0], node, "str")

    def b_object(self, st, args, kw, node):
        self.alloc += 1
        return one(T("sentinel", self.alloc))

    BUILTINS = {
        "len": b_len, "isinstance": b_isinstance, "issubclass": b_issubclass, "hasattr": b_hasattr,
        "getattr": b_getattr, "setattr": b_setattr, "type": b_type, "dict": b_dict, "list": mk_seq("list"),
        "tuple": mk_seq("tuple"), "set": mk_seq("set"), "frozenset": mk_seq("set"), "bytes": b_bytes,
        "bytearray": b_bytearray, "memoryview": b_bytes, "range": b_range, "enumerate": b_enumerate, "zip": b_zip,
        "map": b_map, "filter": b_filter, "any": b_any, "all": b_all, "sorted": b_sorted, "reversed": b_reversed,
        "min": b_minmax(min), "max": b_minmax(max), "sum": b_sum, "abs": b_abs, "iter": b_iter, "next": b_next,
        "str": b_str, "repr": b_repr, "ascii": b_repr, "bool": b_bool, "int": b_int, "callable": b_callable,
        "property": b_property, "classmethod": b_cm("cm"), "staticmethod": b_cm("sm"), "id": b_id, "hash": b_hash,
        "divmod": b_divmod, "format": b_format, "object": b_object,
    }

    # ------------------------------------------------------------ library functions

    def x_attrib(self, st, args, kw, node):
        items = []
        for k, v in kw.items():
            x = as_term(v, st.pc)
            if k == "default" and x.op == "attrfactory":
                items.append(("factory", x.args[0]))
            else:
                items.append((k, x))
        if args:
            items.append(("default", as_term(args[0], st.pc)))
        return one(T("attrib", tuple(tuple(i) for i in items)))

    def x_factory(self, st, args, kw, node):
        return one(T("attrfactory", as_term(args[0], st.pc)))

    def x_opaque_noevent(self, st, args, kw, node):
        return one(T("typing", node.lineno if node is not None else 0))

    def x_cast(self, st, args, kw, node):
        return args[1]

    def x_copy(self, st, args, kw, node):
        return norm([(g, deep(self, st, t, False)) for g, t in args[0]], st.pc)

    def x_deepcopy(self, st, args, kw, node):
        return norm([(g, deep(self, st, t, True)) for g, t in args[0]], st.pc)

    def x_partial(self, st, args, kw, node):
        return one(T("partial", as_term(args[0], st.pc), tuple(as_term(a, st.pc) for a in args[1:]),
                     tuple((k, as_term(v, st.pc)) for k, v in sorted(kw.items()))))

    def x_hexlify(self, st, args, kw, node):
        out = []
        for g, t in args[0]:
            if is_const(t) and isinstance(cval(t), bytes):
                out.append((g, const(cval(t).hex().encode())))
            else:
                r = T("hexb", self.snapshot(st, t))
                TYPES[r] = "bytes"
                out.append((g, r))
        return norm(out, st.pc)

    def x_unhexlify(self, st, args, kw, node):
        x = as_term(args[0], st.pc)
        if x.op in ("hex", "hexb"):
            return one(x.args[0])
        if is_const(x):
            try:
                import binascii
                return vconst(binascii.unhexlify(cval(x)))
            except Exception:
                pass
        return None

    def x_cmp(self, st, args, kw, node):
        if len(args) != 2:
            return None
        a, b = self.snapv(st, args[0]), self.snapv(st, args[1])
        self.emit(st, "call", "compare_digest", node, args=[a, b], argvals=args, kwvals=kw)
        return vbool(g_eq(a, b))

    def x_ceil(self, st, args, kw, node):
        x = as_term(args[0], st.pc)
        if is_const(x):
            return vconst(math.ceil(cval(x)))
        return None

    def x_chain(self, st, args, kw, node):
        segs = []
        for a in args:
            segs += self.spine_val(st, a, node)
        return lst(self, st, segs)

    def x_ident(self, st, args, kw, node):
        return args[0]

    def x_suppress(self, st, args, kw, node):
        return one(T("call", ext("contextlib.suppress"), tuple(as_term(a, st.pc) for a in args), ()))

    EXTFUN = {
        "attr.ib": x_attrib, "attr.attrib": x_attrib, "attr.field": x_attrib, "dataclasses.field": x_attrib,
        "attr.Factory": x_factory, "typing.TypeVar": x_opaque_noevent, "typing.NewType": x_opaque_noevent,
        "typing.cast": x_cast, "copy.copy": x_copy, "copy.deepcopy": x_deepcopy, "functools.partial": x_partial,
        "binascii.hexlify": x_hexlify, "binascii.b2a_hex": x_hexlify, "binascii.unhexlify": x_unhexlify,
        "binascii.a2b_hex": x_unhexlify, "hmac.compare_digest": x_cmp, "secrets.compare_digest": x_cmp,
        "cryptography.hazmat.primitives.constant_time.bytes_eq": x_cmp, "math.ceil": x_ceil,
        "itertools.chain": x_chain, "types.MappingProxyType": x_ident, "collections.OrderedDict": b_dict,
        "contextlib.suppress": x_suppress,
    }

    # ------------------------------------------------------------ methods

    DICTM = {"get", "items", "keys", "values", "update", "setdefault", "popitem", "fromkeys"}
    SETM = {"add", "discard", "union", "intersection", "isdisjoint", "issubset", "issuperset", "difference",
            "symmetric_difference"}
    LISTM = {"append", "extend", "insert", "sort", "reverse", "index", "count"}

    def b_method(self, st, recv, name, args, kw, node):
        if recv.op == "gamma":
            return self.over(st, from_term(recv), lambda s, t: self.b_method(s, t, name, args, kw, node))
        if recv.op == "dictview":
            tt = lst(self, st, self.spine(st, recv, node), "set")
            return self.b_method(st, single(tt), name, args, kw, node)
        if recv.op == "super":
            return one(NONE)
        o = self.ostate(st, recv)
        if isinstance(o, IObj) and o.cls in self.classes:
            if name == "__init__":
                return one(NONE)
            if name == "__setattr__":
                n = single(args[0])
                if n is not None and is_const(n):
                    self.emit(st, "setattr", cval(n), node, args=[as_term(args[1], st.pc)], recv=recv)
                    self.set_field(st, recv, cval(n), args[1])
                    return one(NONE)
            if name in ("__repr__", "__str__"):
                return one(T("fstr", const("<"), T("fmt", const(o.cls.split(".")[-1])), const(">")))
            if name == "__eq__":
                return vbool(self.cmp_term(st, "Is", recv, single(args[0]) or as_term(args[0]), node))
            return mixin(self, st, recv, name, args, kw, node)
        if recv is NONE:
            self.raise_builtin(st, TRUE, "AttributeError", "'NoneType' object has no attribute '%s'" % name, node)
            return one(top("attrerr"))
        if is_const(recv):
            return const_method(self, st, recv, name, args, kw, node)
        if o is None:
            if name in DICTM:
                o = self.ostate(st, recv, "dict")
            elif name in SETM:
                o = self.ostate(st, recv, "set")
            elif name in LISTM or name == "remove":
                o = self.ostate(st, recv, "list")
            elif name == "pop":
                k = single(args[0]) if args else const(-1)
                o = self.ostate(st, recv, "list" if (len(args) < 2 and k is not None and is_const(k) and isinstance(cval(k), int)) else "dict")
            elif name == "clear":
                k = self.field_kind(recv)
                if k is not None:
                    o = self.ostate(st, recv, k)
            elif name == "copy":
                return one(T("copyof", recv))
        if isinstance(o, DObj):
            return dict_method(self, st, recv, o, name, args, kw, node)
        if isinstance(o, LObj):
            return list_method(self, st, recv, o, name, args, kw, node)
        return scalar_method(self, st, recv, name, args, kw, node)

    def const_method(self, st, recv, name, args, kw, node):
        cargs = [as_term(a, st.pc) for a in args]
        ckw = {k: as_term(v, st.pc) for k, v in kw.items()}
        if name == "format":
            at = [self.snapv(st, a) for a in args] + [self.snapv(st, v) for v in kw.values()]
            t = T("fstr", recv, *[T("fmt", a) for a in at])
            self.emit(st, "format", "format", node, args=[t], result=t)
            return one(t)
        if name == "join":
            segs = self.spine_val(st, args[0], node)
            if all(s[0] == "e" for s in segs):
                acc = None
                for s in segs:
                    if acc is None:
                        acc = s[1]
                    else:
                        if cval(recv):
                            acc = self.binop(st, "Add", acc, one(recv), node)
                        acc = self.binop(st, "Add", acc, s[1], node)
                return acc if acc is not None else one(recv if not cval(recv) else const(type(cval(recv))()))
        if name in en.PURE_CONST_METHODS and all(is_const(a) for a in cargs) and all(is_const(a) for a in ckw.values()):
            try:
                return vconst(getattr(cval(recv), name)(*[cval(a) for a in cargs], **{k: cval(v) for k, v in ckw.items()}))
            except Exception as e:
                self.raise_builtin(st, TRUE, type(e).__name__, str(e), node)
                return one(top("constmeth"))
        return scalar_method(self, st, recv, name, args, kw, node)

    def scalar_method(self, st, recv, name, args, kw, node):
        ty = typeof(recv)
        r = None
        if name == "to_bytes":
            n = as_term(args[0] if args else kw.get("length", vconst(1)), st.pc)
            bo = as_term(args[1] if len(args) > 1 else kw.get("byteorder", vconst("big")), st.pc)
            sg = kw.get("signed")
            if bo is const("big") and (sg is None or single(sg) is FALSEC):
                rs = self.snapshot(st, recv)
                out = []
                for g, k in from_term(n):
                    r = T("to_be", rs, k)
                    TYPES[r] = "bytes"
                    out.append((g, r))
                self.may_raise(st, as_term(tuple(out), st.pc), node, "OverflowError")
                return tuple(out)
        if name == "hex" and not args:
            r = T("hex", self.snapshot(st, recv))
            TYPES[r] = "str"
            return one(r)
        if name == "decode" and recv.op == "hexb":
            r = T("hex", recv.args[0])
            TYPES[r] = "str"
            return one(r)
        if name == "rjust" and ty == "bytes" and len(args) == 2 and single(args[1]) is const(b"\0"):
            r = T("lpad", self.snapshot(st, recv), as_term(args[0], st.pc))
            TYPES[r] = "bytes"
            return one(r)
        if name == "ljust" and ty == "bytes" and len(args) == 2:
            n, fill = as_term(args[0], st.pc), as_term(args[1], st.pc)
            k = extsig.known_len(recv)
            if k is not None and is_const(n) and is_const(fill):
                return one(extsig.bcat([recv, const(cval(fill) * max(0, cval(n) - k))]))
            return one(T("rpad", recv, n, fill))
        if name == "format" and ty == "str":
            t = T("fstr", recv, *[T("fmt", self.snapv(st, a)) for a in list(args) + list(kw.values())])
            self.emit(st, "format", "format", node, args=[t], result=t)
            return one(t)
        v = self.opaque_call(st, T("meth", recv, name), args, kw, node)
        t = single(v)
        if t is not None and t.op == "call":
            if ty in ("str", "bytes") and name in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "ljust", "rjust", "zfill"):
                TYPES[t] = ty
            elif ty == "str" and name == "encode":
                TYPES[t] = "bytes"
            elif ty == "bytes" and name == "decode":
                TYPES[t] = "str"
            elif name in ("startswith", "endswith", "isdigit", "isalpha"):
                TYPES[t] = "bool"
            elif name in ("find", "index", "count"):
                TYPES[t] = "int"
        return v

    def dict_method(self, st, t, o, name, args, kw, node):
        if name == "get":
            dflt = args[1] if len(args) > 1 else kw.get("default", one(NONE))
            return self.over(st, args[0], lambda s, k: self.dict_lookup(s, t, self.ostate(s, t, "dict"), k, node, dflt))
        if name in ("items", "keys", "values"):
            return one(T("dictview", t, name))
        if name == "copy":
            return one(self.new_obj(st, DObj(o.base, dict(o.ent))))
        if name == "update":
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)
            for a in args:
                self.dict_update(st, t, a, node)
            for k, v in kw.items():
                if k == "**":
                    self.dict_update(st, t, v, node)
                else:
                    o2 = self.ostate(st, t, "dict")
                    ent = dict(o2.ent)
                    ent[const(k)] = (TRUE, v)
                    st.heap[t] = DObj(o2.base, ent)
            return one(NONE)
        if name == "clear":
            self.emit(st, "mutate", name, node, recv=t)
            st.heap[t] = DObj(None, {})
            return one(NONE)
        if name == "pop":
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)

            def f(s, k):
                o2 = self.ostate(s, t, "dict")
                v = self.dict_lookup(s, t, o2, k, node, args[1] if len(args) > 1 else None)
                if s.pc != FALSE:
                    self.dict_remove(s, t, self.ostate(s, t, "dict"), k, TRUE, node, False)
                return v
            return self.over(st, args[0], f)
        if name == "setdefault":
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)
            dflt = args[1] if len(args) > 1 else one(NONE)

            def f(s, k):
                o2 = self.ostate(s, t, "dict")
                p = self.dict_contains(s, t, o2, k)
                v = self.dict_lookup(s, t, o2, k, node, dflt)
                if p != TRUE:
                    self.setitem_term(s, t, k, v, node)
                return v
            return self.over(st, args[0], f)
        if name == "__contains__":
            g = FALSE
            for p, k in args[0]:
                g = B.Or(g, B.And(p, self.dict_contains(st, t, o, k)))
            return vbool(g)
        if name == "__getitem__":
            return self.getitem(st, one(t), args[0], node)
        if name == "__setitem__":
            self.setitem(st, one(t), args[0], args[1], node)
            return one(NONE)
        if name == "__iter__":
            return one(T("iter", t))
        if name == "__len__":
            return one(length(self, st, t))
        if name == "popitem":
            st.heap[t] = DObj(T("popped", self.snapshot(st, t)), {})
            return one(top("popitem"))
        return self.opaque_call(st, T("meth", t, name), args, kw, node)

    def dict_update(self, st, t, val, node):
        val = norm(val, st.pc)

        def f(s, x):
            o = self.ostate(s, t, "dict")
            if x.op == "dictview" and x.args[1] == "items":
                x = x.args[0]
            ox = self.ostate(s, x)
            if ox is None and x.op in ("item", "attr", "sym", "call", "copyof", "elem", "gamma"):
                ox = self.ostate(s, x, "dict")
            if x is NONE:
                self.raise_builtin(s, TRUE, "TypeError", "'NoneType' object is not iterable", node)
                return one(NONE)
            if isinstance(ox, IObj) and ox.cls in self.classes:
                return mixin_into(self, s, t, x, node)
            if isinstance(ox, LObj):
                for sg in ox.segs:
                    if sg[0] == "e":
                        kv = []
                        pair = single(sg[1])
                        if pair is None:
                            s.heap[t] = DObj(T("dictfrom", self.snapshot(s, x)), {})
                            return one(NONE)
                        k = self.getitem_term(s, pair, const(0), node)
                        v = self.getitem_term(s, pair, const(1), node)
                        self.mute += 1
                        self.setitem(s, one(t), k, v, node)
                        self.mute -= 1
                    else:
                        oo = self.ostate(s, t, "dict")
                        src = T("dictfrom", sg[1] if sg[0] == "s" else as_term(sg[2]))
                        merge_base(self, s, t, oo, src)
                return one(NONE)
            if not isinstance(ox, DObj):
                merge_base(self, s, t, o, T("dictfrom", self.snapshot(s, x)))
                return one(NONE)
            if ox.base is not None and ox.base.op != "emptydict":
                merge_base(self, s, t, o, ox.base)
                o = self.ostate(s, t, "dict")
            ent = dict(o.ent)
            for k, (p, v) in ox.ent.items():
                if p == FALSE:
                    # key known absent in the source: the target keeps its own
                    continue
                if p == TRUE:
                    ent[k] = (TRUE, v)
                else:
                    if k in ent:
                        p0, v0 = ent[k]
                    elif o.base is not None and o.base.op != "emptydict":
                        p0, v0 = self.dict_contains(s, t, o, k), self.dict_lookup(s, t, o, k, node, one(T("undef")))
                    else:
                        p0, v0 = FALSE, ()
                    ent[k] = (B.Or(p, p0), norm([(B.And(p, g), y) for g, y in v] + [(B.And(B.Not(p), p0, g), y) for g, y in v0], s.pc))
            s.heap[t] = DObj(o.base, ent)
            return one(NONE)

        self.over(st, val, f)

    def mixin_into(self, st, t, x, node):
        for s in self.spine(st, x, node):
            if s[0] == "e":
                k = s[1]
                v = self.getitem(st, one(x), k, node)
                self.setitem(st, one(t), k, v, node)
                continue
            o = self.ostate(st, t, "dict")
            k = single(s[2]) if s[0] == "c" else None
            if k is not None and rigid(k) and (o.base is None or o.base.op == "emptydict" or k in o.ent):
                # present under a condition
                s2 = st.copy()
                s2.pc = B.And(st.pc, s[1])
                self.mute += 1
                v = self.getitem(s2, one(x), one(k), node)
                self.mute -= 1
                p0, v0 = o.ent.get(k, (FALSE, ()))
                ent = dict(o.ent)
                ent[k] = (B.Or(s[1], p0), norm([(B.And(s[1], g), y) for g, y in v] +
                                               [(B.And(B.Not(s[1]), p0, g), y) for g, y in v0], st.pc))
                st.heap[t] = DObj(o.base, ent)
                continue
            merge_base(self, st, t, o, T("dictfrom", s[1] if s[0] == "s" else as_term(s[2])))
        return one(NONE)

    def merge_base(self, st, t, o, src):
        if (o.base is None or o.base.op == "emptydict") and not o.ent:
            st.heap[t] = DObj(src, {})
            return
        snap = self.snapshot(st, t)
        if snap is t and not (o.base is t):
            snap = T("dict", o.base if o.base is not None else NONE)
        st.heap[t] = DObj(T("dictmerge", snap, src), {})

    def list_extend(self, st, t, val, node):
        self.emit(st, "mutate", "extend", node, args=[self.snapv(st, val)], recv=t)
        o = self.ostate(st, t, "list")
        for g, x in val:
            if x is NONE:
                self.raise_builtin(st, g, "TypeError", "'NoneType' object is not iterable", node)
        if st.pc == FALSE:
            return
        v = norm([(g, x) for g, x in val if x is not NONE], st.pc)
        if v:
            segs = self.spine_val(st, v, node)
            st.heap[t] = LObj(o.kind, tuple(o.segs) + tuple(segs))

    def list_method(self, st, t, o, name, args, kw, node):
        if name in ("append", "add"):
            self.emit(st, "mutate", name, node, args=[self.snapv(st, args[0])], recv=t)
            if o.kind == "set" and any(s[0] == "e" and s[1] == args[0] for s in o.segs):
                return one(NONE)
            st.heap[t] = LObj(o.kind, tuple(o.segs) + (("e", args[0]),))
            return one(NONE)
        if name == "extend":
            self.list_extend(st, t, args[0], node)
            return one(NONE)
        if name == "update":
            self.list_extend(st, t, args[0], node)
            return one(NONE)
        if name == "insert":
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)
            k = single(args[0])
            if k is not None and is_const(k):
                i = cval(k)
                segs = list(o.segs)
                if i == 0:
                    st.heap[t] = LObj(o.kind, (("e", args[1]),) + tuple(segs))
                    return one(NONE)
                if i > 0 and len(segs) >= i and all(s[0] == "e" for s in segs[:i]) or all(s[0] == "e" for s in segs):
                    segs.insert(i, ("e", args[1]))
                    st.heap[t] = LObj(o.kind, segs)
                    return one(NONE)
                if i > 0 and len(segs) == 1 and segs[0][0] == "s":
                    pass
            st.heap[t] = LObj(o.kind, (("s", T("listins", self.snapshot(st, t), as_term(args[0], st.pc), self.snapv(st, args[1]))),))
            return one(NONE)
        if name == "pop":
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)
            k = as_term(args[0], st.pc) if args else const(-1)
            if is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                segs = list(o.segs)
                if i >= 0 and len(segs) > i and all(s[0] == "e" for s in segs[:i + 1]):
                    v = segs.pop(i)[1]
                    st.heap[t] = LObj(o.kind, segs)
                    return v
                if i < 0 and len(segs) >= -i and all(s[0] == "e" for s in segs[i:]):
                    v = segs.pop(i)[1]
                    st.heap[t] = LObj(o.kind, segs)
                    return v
                if not segs:
                    self.raise_builtin(st, TRUE, "IndexError", "pop from empty list", node)
                    return one(top("pop"))
                if all(s[0] in ("e", "c") for s in segs) and i in (0, -1):
                    # first (last) present element; rest under adjusted guards
                    seq = segs if i == 0 else list(reversed(segs))
                    alts, none_yet, out = [], TRUE, []
                    for s in seq:
                        pg = TRUE if s[0] == "e" else s[1]
                        val = s[-1]
                        alts += [(B.And(none_yet, pg, g), x) for g, x in val]
                        keep = B.And(pg, B.Not(none_yet))
                        if keep == TRUE:
                            out.append(("e", val))
                        elif sat(keep):
                            out.append(("c", keep, val))
                        none_yet = B.And(none_yet, B.Not(pg))
                    if sat(B.And(st.pc, none_yet)):
                        self.raise_builtin(st, none_yet, "IndexError", "pop from empty list", node)
                    st.heap[t] = LObj(o.kind, out if i == 0 else list(reversed(out)))
                    return norm(alts, st.pc) or one(top("pop"))
                if len(segs) == 1 and segs[0][0] == "s":
                    src = segs[0][1]
                    it = item_t(src, k)
                    self.may_raise(st, it, node, "IndexError")
                    if i == 0:
                        if src.op == "slice" and is_const(src.args[1]) and src.args[2] is NONE:
                            rest = T("slice", src.args[0], const(cval(src.args[1]) + 1), NONE, NONE)
                        else:
                            rest = T("slice", src, const(1), NONE, NONE)
                        st.heap[t] = LObj(o.kind, (("s", rest),))
                    elif i == -1:
                        st.heap[t] = LObj(o.kind, (("s", T("slice", src, NONE, const(-1), NONE)),))
                    else:
                        st.heap[t] = LObj(o.kind, (("s", T("listdel", src, k)),))
                    return one(self.typed_item(src, it))
            it = item_t(self.snapshot(st, t), k)
            st.heap[t] = LObj(o.kind, (("s", T("listdel", self.snapshot(st, t), k)),))
            return one(it)
        if name in ("remove", "discard"):
            self.emit(st, "mutate", name, node, args=[self.snapv(st, a) for a in args], recv=t)
            segs = []
            found = FALSE
            for s in o.segs:
                if s[0] == "s":
                    st.heap[t] = LObj(o.kind, (("s", T("listrem", self.snapshot(st, t), as_term(args[0], st.pc))),))
                    return one(NONE)
                pg = TRUE if s[0] == "e" else s[1]
                e = B.And(self.compare(st, "Eq", s[-1], args[0], node), B.Not(found) if o.kind == "list" else TRUE)
                keep = B.And(pg, B.Not(e))
                found = B.Or(found, B.And(pg, e))
                if keep == TRUE:
                    segs.append(s)
                elif sat(keep):
                    segs.append(("c", keep, s[-1]))
            st.heap[t] = LObj(o.kind, segs)
            if name == "remove" and sat(B.And(st.pc, B.Not(found))):
                self.raise_builtin(st, B.Not(found), "ValueError" if o.kind == "list" else "KeyError", "remove", node)
            return one(NONE)
        if name == "clear":
            self.emit(st, "mutate", name, node, recv=t)
            st.heap[t] = LObj(o.kind, ())
            return one(NONE)
        if name == "copy":
            return one(self.new_obj(st, LObj(o.kind, o.segs)))
        if name == "sort":
            self.emit(st, "mutate", name, node, recv=t)
            r = single(b_sorted(self, st, [one(t)], kw, node))
            st.heap[t] = st.heap[r]
            return one(NONE)
        if name == "reverse":
            self.emit(st, "mutate", name, node, recv=t)
            st.heap[t] = LObj(o.kind, [x if x[0] != "s" else ("s", T("reversed", x[1])) for x in reversed(o.segs)])
            return one(NONE)
        if name in ("intersection", "union", "difference"):
            r = one(t)
            for a in args:
                r = self.over(st, r, lambda s, x: self.over(s, a, lambda s2, y: self.setop(s2, name, x, y, node)))
            return r
        if name in ("isdisjoint", "issubset", "issuperset"):
            def member(coll):
                def f(v):
                    g = FALSE
                    for p, x in v:
                        for p2, y in coll:
                            g = B.Or(g, B.And(p, p2, self.contains(st, x, y, node)))
                    return g
                return f
            if name == "isdisjoint":
                return vbool(B.Not(elements_guard(self, st, one(t), member(args[0]))))
            if name == "issubset":
                f = member(args[0])
                return vbool(B.Not(elements_guard(self, st, one(t), lambda v: B.Not(f(v)))))
            f = member(one(t))
            return vbool(B.Not(elements_guard(self, st, args[0], lambda v: B.Not(f(v)))))
        if name == "__contains__":
            return vbool(B.Or(*[B.And(p, self.contains(st, k, t, node)) for p, k in args[0]]))
        if name == "__getitem__":
            return self.getitem(st, one(t), args[0], node)
        if name == "__iter__":
            return one(T("iter", t))
        if name == "__len__":
            return one(length(self, st, t))
        if name == "index" and all(s[0] == "e" for s in o.segs):
            alts, miss = [], TRUE
            for i, s in enumerate(o.segs):
                e = self.compare(st, "Eq", s[1], args[0], node)
                alts.append((B.And(miss, e), const(i)))
                miss = B.And(miss, B.Not(e))
            if sat(B.And(st.pc, miss)):
                self.raise_builtin(st, miss, "ValueError", "index", node)
            return norm(alts, st.pc) or one(top("index"))
        return self.opaque_call(st, T("meth", self.snapshot(st, t), name), args, kw, node)

    Interp.call_ext = call_ext
    Interp.b_method = b_method
    Interp.dict_update = dict_update
    Interp.list_extend = list_extend
    Interp.hasattr_g = hasattr_g
    Interp.length = length
    Interp.issub = issub
