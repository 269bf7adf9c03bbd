"""Interprocedural gated value-flow analysis of the pycose sources.

One forward pass over the syntax tree per entry point.  Every merge point joins
the incoming states; values are guarded sets of hash-consed terms, guards are
BDDs over branch predicates.  Nothing of the analysed code is imported or run.
"""
import ast
import collections.abc
import builtins as _bi
import os

from . import terms as tm
from . import extsig
from .desugar import desugar
from .terms import *          # noqa
from .bdd import TRUE, FALSE

MAXDEPTH = 70
RECLIMIT = 4


DIGEST_SIZE = {"MD5": 16, "SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "SHA512_224": 28, "SHA512_256": 32,
               "SHA3_224": 28, "SHA3_256": 32, "SHA3_384": 48, "SHA3_512": 64}


class AnalysisError(Exception):
    pass


# ------------------------------------------------------------------ heap

class LObj:
    __slots__ = ("kind", "segs")

    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = tuple(segs)


class DObj:
    __slots__ = ("base", "ent")
    kind = "dict"

    def __init__(self, base, ent):
        self.base = base
        self.ent = ent


class IObj:
    __slots__ = ("cls", "fields", "lazy")
    kind = "inst"

    def __init__(self, cls, fields, lazy=False):
        self.cls = cls
        self.fields = fields
        self.lazy = lazy


class State:
    __slots__ = ("pc", "env", "heap")

    def __init__(self, pc, env, heap):
        self.pc = pc
        self.env = env
        self.heap = heap

    def copy(self):
        return State(self.pc, dict(self.env), dict(self.heap))


class FuncInfo:
    __slots__ = ("node", "module", "qual", "defaults", "kwdefaults", "closure", "owner", "name", "uid", "isgen")


class ClassInfo:
    __slots__ = ("qual", "name", "module", "bases", "mro", "node", "extbases", "attrs_fields", "uid")


class Frame:
    __slots__ = ("func", "returns", "cur", "node", "loops", "module", "owner", "selfterm", "yields", "callnode",
                 "nonlocals")

    def __init__(self, func, module):
        self.func = func
        self.module = module
        self.returns = []
        self.cur = None
        self.node = None
        self.loops = []
        self.owner = None
        self.selfterm = None
        self.yields = None
        self.callnode = None
        self.nonlocals = set()


class Event:
    __slots__ = ("kind", "name", "callee", "args", "kw", "argvals", "kwvals", "pc", "node", "stack", "loops", "result",
                 "module", "heap", "depth", "recv", "seq")

    def arg(self, *names_or_pos):
        for n in names_or_pos:
            if isinstance(n, int):
                if n < len(self.args):
                    return self.args[n]
            elif n in self.kw:
                return self.kw[n]
        return None

    @property
    def loc(self):
        return "%s:%s" % (self.module, getattr(self.node, "lineno", "?"))

    def where(self):
        return "%s in %s" % (self.loc, self.stack[-1] if self.stack else "<module>")


class Collector:
    def __init__(self, frame, is_try=False):
        self.frame = frame
        self.entries = []      # (pc, env, heap, exc term, node, module, stack)
        self.is_try = is_try


class Result:
    def __init__(self, value, pc, state, raises, events):
        self.value = value
        self.pc = pc
        self.state = state
        self.raises = raises
        self.events = events


PURE_CONST_METHODS = {"upper", "lower", "encode", "decode", "hex", "strip", "startswith", "endswith", "replace", "join",
                      "split", "to_bytes", "bit_length", "format", "title", "capitalize", "ljust", "rjust", "zfill",
                      "lstrip", "rstrip"}

MUTATORS = {"append", "extend", "insert", "remove", "clear", "update", "setdefault", "add", "discard", "sort",
            "reverse", "pop", "popitem"}

FRESH = {"os.urandom", "secrets.token_bytes", "random.randbytes",
         "cryptography.hazmat.primitives.asymmetric.ec.generate_private_key",
         "cryptography.hazmat.primitives.asymmetric.rsa.generate_private_key"}
FRESH_METHODS = {"generate"}

BUILTIN_TYPES = {"bytes", "str", "int", "list", "dict", "bool", "tuple", "set", "float", "bytearray", "object",
                 "type", "frozenset", "memoryview", "NoneType"}


def exc_builtin(name):
    c = getattr(_bi, name, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


class Interp:
    def __init__(self, root, pkg="pycose"):
        self.root = root
        self.pkg = pkg
        self.funcs = {}
        self.props = {}
        self.classes = {}
        self.modules = {}
        self.sources = {}
        self.uid = 0
        self.alloc = 0
        self.frames = []
        self.declared_names = {}
        self.handlers = []
        self.listeners = []
        self.ext_models = {}
        self.meth_models = {}
        self.mute = 0
        self.stat_funcs = set()
        self.stat_calls = set()
        self.seq = 0
        self.active = []
        self.internal_errors = []
        self.opaque_funcs = set()
        tm.SUBCLASS[0] = self.subclass
        self.st = State(TRUE, {}, {})
        self.load_all()

    # -------------------------------------------------------------- loading

    def load_all(self):
        base = os.path.join(self.root, self.pkg)
        names = []
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    names.append((rel, os.path.join(dp, f)))
        for n, p in names:
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            try:
                self.sources[n] = (p, desugar(ast.parse(src, p)))
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (p, e))
        col = Collector(None)
        self.handlers.append(col)
        for n, _ in names:
            self.load_module(n)
        self.handlers.pop()
        self.load_raises = col.entries
        if self.st.pc == FALSE:
            raise AnalysisError("module initialisation always raises: %s" % [show(e[3]) for e in col.entries])

    def load_module(self, name):
        if name in self.modules:
            return T("module", name)
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return T("module", name)
        mt = T("module", name)
        self.modules[name] = mt
        path, tree = self.sources[name]
        self.st.heap[mt] = IObj("module", {"__name__": vconst(name), "__file__": vconst(path)})
        fr = Frame(None, name)
        self.frames.append(fr)
        saved = self.st.env
        self.st.env = {}
        st = self.st
        # module-level statements assign into the module object
        fr.cur = st
        st2 = self.exec_block(tree.body, st, fr)
        if st2 is None:
            st.pc = FALSE
        elif st2 is not st:
            st.pc, st.env, st.heap = st2.pc, st2.env, st2.heap
        self.frames.pop()
        self.sync_module(st, name)
        st.env = saved
        if "." in name:
            p, c = name.rsplit(".", 1)
            self.set_field(st, T("module", p), c, one(mt))
        return mt

    def sync_module(self, st, name):
        mt = T("module", name)
        o = st.heap[mt]
        f = dict(o.fields)
        f.update(st.env)
        st.heap[mt] = IObj("module", f)

    # ---------------------------------------------------------------- classes

    def subclass(self, a, b):
        if a == b or b == "object":
            return True
        ci = self.classes.get(a)
        if ci is None:
            if a.startswith("ext:builtins.") and b.startswith("ext:builtins."):
                ca, cb = exc_builtin(a[13:]), exc_builtin(b[13:])
                if ca and cb:
                    return issubclass(ca, cb)
            return False
        for m in ci.mro:
            if m == b:
                return True
            if m.startswith("ext:") and b.startswith("ext:") and m != a and self.subclass(m, b):
                return True
        return False

    def subclasses_of(self, q):
        return [c for c in self.classes if self.subclass(c, q)]

    def c3(self, qual, bases):
        seqs = []
        for b in bases:
            if b in self.classes:
                seqs.append(list(self.classes[b].mro))
            else:
                seqs.append([b])
        seqs.append(list(bases))
        res = [qual]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def type_key(self, t):
        """class term / ext term -> type key used in isinst atoms."""
        if t.op == "class":
            return t.args[0]
        if t.op == "ext":
            n = t.args[0]
            if n.startswith("builtins.") and n[9:] in BUILTIN_TYPES:
                return n[9:]
            return "ext:" + n
        if t.op == "meth":
            return None
        return None

    def new_obj(self, st, state, kind=None):
        self.alloc += 1
        t = T("obj", self.alloc, kind or (state.cls if isinstance(state, IObj) else state.kind))
        st.heap[t] = state
        return t

    # ---------------------------------------------------------------- heap access

    def ostate(self, st, t, hint=None):
        o = st.heap.get(t)
        if o is not None:
            return o
        if t.op == "dict":
            base = t.args[0]
            ent = {}
            for x in t.args[1:]:
                g = TRUE
                if x.op == "cseg":
                    g, x = x.args
                ent[x.args[0]] = (g, from_term(x.args[1]))
            return DObj(None if base is NONE else base, ent)
        ty = typeof(t)
        if ty is None and hint:
            ty = hint
        if ty is None:
            return None
        if ty == "dict":
            return DObj(t, {})
        if ty in ("list", "set", "tuple", "frozenset") or ty.startswith("listof:"):
            if t.op in ("list", "tuple", "set"):
                return LObj(t.op, self.segs_of_struct(t))
            k = "list" if ty.startswith("listof:") else ty
            return LObj(k, (("s", t),))
        if ty.startswith("inst:"):
            q = ty[5:]
            if q in self.classes:
                return IObj(q, {}, True)
        return None

    def segs_of_struct(self, t):
        segs = []
        for x in t.args:
            if x.op == "cseg":
                segs.append(("c", x.args[0], one(x.args[1])))
            elif x.op == "star":
                segs.append(("s", x.args[0]))
            else:
                segs.append(("e", from_term(x)))
        return segs

    def set_field(self, st, t, name, val):
        o = self.ostate(st, t)
        if o is None or not isinstance(o, IObj):
            o = IObj(typeof(t)[5:] if (typeof(t) or "").startswith("inst:") else "?", {}, True)
        f = dict(o.fields)
        f[name] = val
        st.heap[t] = IObj(o.cls, f, o.lazy)

    def snapshot(self, st, t, depth=0, seen=()):
        if depth > 12 or t in seen:
            return t
        if t.op == "gamma":
            return as_term(tuple((g, self.snapshot(st, x, depth + 1, seen)) for g, x in t.args[0]), st.pc)
        o = st.heap.get(t)
        if o is None:
            return t
        seen = seen + (t,)
        if isinstance(o, LObj):
            if len(o.segs) == 1 and o.segs[0][0] == "s" and o.segs[0][1] is t:
                return t
            items = []
            for s in o.segs:
                if s[0] == "e":
                    items.append(self.snapv(st, s[1], depth + 1, seen))
                elif s[0] == "c":
                    g = B.restrict(s[1], st.pc) if st.pc > 1 else s[1]
                    if implies(st.pc, s[1]):
                        items.append(self.snapv(st, s[2], depth + 1, seen))
                    elif sat(B.And(st.pc, s[1])):
                        items.append(T("cseg", g, self.snapv(st, s[2], depth + 1, seen)))
                else:
                    if len(o.segs) == 1 and o.kind != "set" and s[1].op not in ("map", "splat") and o.kind == "list":
                        items.append(T("star", self.snapshot(st, s[1], depth + 1, seen)))
                    else:
                        items.append(T("star", self.snapshot(st, s[1], depth + 1, seen)))
            if o.kind == "set":
                items.sort(key=lambda x: x.id)
            return T(o.kind if o.kind != "frozenset" else "set", *items)
        if isinstance(o, DObj):
            if not o.ent and o.base is t:
                return t
            kvs = []
            for k, (g, v) in o.ent.items():
                kv = T("kv", self.snapshot(st, k, depth + 1, seen), self.snapv(st, v, depth + 1, seen) if g != FALSE else NONE)
                if g == FALSE or not sat(B.And(st.pc, g)):
                    if o.base is not None:
                        kvs.append(T("cseg", FALSE, kv))
                    continue
                kvs.append(kv if implies(st.pc, g) else T("cseg", B.restrict(g, st.pc), kv))
            kvs.sort(key=lambda x: x.id)
            base = NONE if o.base is None else o.base
            if o.base is not None and not kvs:
                return T("dictcopy", base) if base is not t else t
            return T("dict", base, *kvs)
        return t

    def snapv(self, st, v, depth=0, seen=()):
        return as_term(tuple((g, self.snapshot(st, t, depth, seen)) for g, t in v), st.pc)

    # ---------------------------------------------------------------- merging

    def merge_vals(self, pairs, pc):
        """pairs: [(guard, Val)] with disjoint guards."""
        first = pairs[0][1]
        if all(v == first for _, v in pairs):
            return norm(first, pc) if len(first) > 1 else first
        alts = []
        for g, v in pairs:
            for g2, t in v:
                alts.append((B.And(g, g2), t))
        r = norm(alts, pc)
        if len(r) > MAXALT:
            return one(T("gamma", tuple(sorted(r, key=lambda x: x[1].id))))
        return r

    def merge_states(self, states):
        states = [s for s in states if s is not None and s.pc != FALSE and sat(s.pc)]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        pc = B.Or(*[s.pc for s in states])
        rel = [B.restrict(s.pc, pc) for s in states]
        env = {}
        names = {}
        for s in states:
            for n in s.env:
                names[n] = 1
        undef = one(T("undef"))
        for n in names:
            vals = [s.env.get(n, undef) for s in states]
            v0 = vals[0]
            if all(v is v0 or v == v0 for v in vals):
                env[n] = v0
            else:
                env[n] = self.merge_vals(list(zip(rel, vals)), pc)
        heap = dict(states[0].heap)
        keys = set()
        h0 = states[0].heap
        for s in states[1:]:
            if s.heap is h0:
                continue
            for k, o in s.heap.items():
                if h0.get(k) is not o:
                    keys.add(k)
            if len(s.heap) != len(h0) or any(k not in s.heap for k in h0):
                for k in h0:
                    if k not in s.heap:
                        keys.add(k)
        for k in sorted(keys, key=lambda t: t.id):
            objs = []
            for s, r in zip(states, rel):
                o = s.heap.get(k)
                if o is None:
                    o = self.default_state(s, k, states)
                if o is not None:
                    objs.append((r, o))
            heap[k] = self.merge_objs(objs, pc, k)
        return State(pc, env, heap)

    def default_state(self, st, k, states):
        """What k is in a state that did not touch it: for an object of no known type, of the kind other states took it for."""
        if k.op == "obj":
            return None
        o = self.ostate(st, k)
        if o is None:
            o = next((x.heap[k] for x in states if k in x.heap), None)
            if isinstance(o, DObj):
                return self.ostate(st, k, "dict")
            if isinstance(o, LObj):
                return self.ostate(st, k, o.kind)
            if isinstance(o, IObj):
                return IObj(o.cls, {}, True) if o.lazy else None
        return o

    def merge_objs(self, objs, pc, key):
        o0 = objs[0][1]
        if all(o is o0 for _, o in objs):
            return o0
        if all(isinstance(o, IObj) for _, o in objs):
            names = {}
            for _, o in objs:
                for n in o.fields:
                    names[n] = 1
            f = {}
            lazy = any(o.lazy for _, o in objs)
            for n in names:
                vals = []
                for g, o in objs:
                    v = o.fields.get(n)
                    if v is None:
                        v = one(attr_t(key, n)) if lazy and self.declared(o.cls, n) else one(T("undef"))
                    vals.append((g, v))
                f[n] = self.merge_vals(vals, pc)
            return IObj(o0.cls, f, lazy)
        if all(isinstance(o, DObj) for _, o in objs):
            ent = {}
            keys = {}
            for _, o in objs:
                for k in o.ent:
                    keys[k] = 1
            bases = [o.base for _, o in objs]
            if all(b is bases[0] for b in bases):
                base = bases[0]
            else:
                base = as_term(tuple((g, o.base if o.base is not None else T("emptydict")) for g, o in objs), pc)
            for k in keys:
                pres = FALSE
                vals = []
                for g, o in objs:
                    if k in o.ent:
                        p, v = o.ent[k]
                        pres = B.Or(pres, B.And(g, p))
                        if p != FALSE:
                            vals.append((B.And(g, p), v))
                    elif o.base is not None:
                        p = g_in(k, o.base)
                        pres = B.Or(pres, B.And(g, p))
                        vals.append((B.And(g, p), one(item_t(o.base, k))))
                pres = B.restrict(pres, pc)
                if pres == FALSE and base is None:
                    continue
                ent[k] = (pres, self.merge_vals(vals, B.And(pc, pres)) if vals else ())
            return DObj(base, ent)
        if all(isinstance(o, LObj) for _, o in objs):
            n = 0
            lists = [o.segs for _, o in objs]
            while all(len(l) > n for l in lists) and all(l[n] == lists[0][n] for l in lists):
                n += 1
            if all(len(l) == len(lists[0]) for l in lists) and all(all(s[0] == "e" for s in l) for l in lists) and \
                    o0.kind in ("list", "tuple"):
                segs = []
                for i in range(len(lists[0])):
                    segs.append(("e", self.merge_vals([(g, o.segs[i][1]) for g, o in objs], pc)))
                return LObj(o0.kind, segs)
            segs = list(lists[0][:n])
            # a star segment under a guard cannot be represented: use a gamma star
            rests = [(g, o.segs[n:]) for g, o in objs]
            if any(s[0] == "s" for _, r in rests for s in r):
                alts = tuple((g, T("list", *self.struct_items(r))) for g, r in rests)
                segs.append(("s", as_term(alts, pc)))
                return LObj(o0.kind, segs)
            # common suffix positions with differing guards
            for g, r in rests:
                for s in r:
                    if s[0] == "e":
                        segs.append(("c", g, s[1]))
                    else:
                        segs.append(("c", B.And(g, s[1]), s[2]))
            # merge identical conditional values of a set
            if o0.kind in ("set", "frozenset"):
                acc = {}
                for s in segs:
                    if s[0] == "c":
                        acc[s[2]] = B.Or(acc.get(s[2], FALSE), s[1])
                    elif s[0] == "e":
                        acc[s[1]] = TRUE
                if not any(s[0] == "s" for s in segs):
                    segs = [("e", v) if implies(pc, g) else ("c", g, v) for v, g in acc.items()]
            return LObj(o0.kind, segs)
        return o0

    def struct_items(self, segs):
        out = []
        for s in segs:
            if s[0] == "e":
                out.append(as_term(s[1]))
            elif s[0] == "c":
                out.append(T("cseg", s[1], as_term(s[2])))
            else:
                out.append(T("star", s[1]))
        return out

    # ---------------------------------------------------------------- events / raising

    def stack_names(self):
        return [f.func.qual if f.func else f.module for f in self.frames]

    def emit(self, st, kind, name, node, callee=None, args=(), kw=None, argvals=None, kwvals=None, result=None,
             recv=None):
        if self.mute or not self.listeners:
            return
        e = Event()
        self.seq += 1
        e.seq = self.seq
        e.kind = kind
        e.name = name
        e.callee = callee
        e.args = list(args)
        e.kw = dict(kw or {})
        e.argvals = argvals
        e.kwvals = kwvals
        e.pc = st.pc
        e.node = node
        fr = self.frames[-1] if self.frames else None
        e.module = fr.module if fr else "?"
        e.stack = self.stack_names()
        e.loops = [l for f in self.frames for l in f.loops]
        e.result = result
        e.recv = recv
        e.heap = st.heap
        for l in self.listeners:
            l(e, st)

    def do_raise(self, st, g, exc, node):
        """Raise exc under guard g; st continues under !g."""
        p = B.And(st.pc, g)
        if not sat(p):
            return
        fr = self.frames[-1] if self.frames else None
        col = self.handlers[-1] if self.handlers else None
        s2 = State(p, st.env, st.heap)
        self.emit(s2, "raise", self.exc_name(exc), node, args=[exc])
        if col is not None:
            env = col.frame.cur.env if (col.frame is not None and col.frame.cur is not None) else {}
            if col.frame is fr and fr is not None:
                env = st.env
            col.entries.append((p, dict(env), dict(st.heap), exc, node, fr.module if fr else "?", self.stack_names(),
                                [l for f in self.frames for l in f.loops]))
        st.pc = B.And(st.pc, B.Not(g))
        if not sat(st.pc):
            st.pc = FALSE

    def exc_name(self, exc):
        if exc.op == "call" and exc.args[0].op == "ext":
            return exc.args[0].args[0].replace("builtins.", "")
        if exc.op == "ext":
            return exc.args[0].replace("builtins.", "")
        if exc.op == "class":
            return exc.args[0].split(".")[-1]
        if exc.op == "obj":
            return exc.args[1].split(".")[-1]
        if exc.op == "exck":
            return exc.args[1]
        if exc.op == "exc":
            return "?"
        return "?"

    def exc_key(self, exc):
        if exc.op == "call" and exc.args[0].op == "ext":
            return "ext:" + exc.args[0].args[0]
        if exc.op == "ext":
            return "ext:" + exc.args[0]
        if exc.op == "class":
            return exc.args[0]
        if exc.op == "obj":
            return exc.args[1]
        if exc.op == "exck":
            return "ext:builtins." + exc.args[1]
        return None

    def raise_builtin(self, st, g, name, msg, node, internal=False):
        exc = T("call", ext("builtins." + name), (const(msg),), ())
        if internal and sat(B.And(st.pc, g)) and not self.mute:
            fr = self.frames[-1] if self.frames else None
            self.internal_errors.append((name, msg, fr.module if fr else "?", getattr(node, "lineno", 0),
                                         self.stack_names(), B.And(st.pc, g)))
        self.do_raise(st, g, exc, node)

    def in_try(self):
        return bool(self.handlers) and any(h.is_try for h in self.handlers)

    def may_raise(self, st, t, node, kind=None):
        if not self.in_try():
            return
        if kind == "KeyError" and t.op == "item" and not has_top(t):
            a = B.Not(g_in(t.args[1], t.args[0]))
        else:
            a = tm.atom("raises", t, kind or "any")
        exc = T("exck", t, kind) if kind else T("exc", t)
        m = self.mute
        self.mute += 1
        self.do_raise(st, a, exc, node)
        self.mute = m

    # ---------------------------------------------------------------- statements

    def exec_block(self, body, st, fr):
        for s in body:
            if st is None or st.pc == FALSE:
                return None
            st = self.exec_stmt(s, st, fr)
        if st is not None and st.pc == FALSE:
            return None
        return st

    def exec_stmt(self, s, st, fr):
        B.tick()
        fr.cur = st
        fr.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported(st, s)
            return st
        r = m(s, st, fr)
        if r is not None and r.pc == FALSE:
            return None
        return r

    def unsupported(self, st, node):
        self.emit(st, "unsupported", type(node).__name__, node)
        return one(top("unsupported:" + type(node).__name__))

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.name.split(".")[0] == self.pkg:
                self.import_repo(a.name, st)
                if a.asname:
                    st.env[a.asname] = one(T("module", a.name))
                else:
                    st.env[self.pkg] = one(T("module", self.pkg))
            else:
                st.env[a.asname or a.name.split(".")[0]] = one(ext(a.name if a.asname else a.name.split(".")[0]))
        return st

    def import_repo(self, name, st):
        if name not in self.modules:
            if name not in self.sources:
                return False
            # loading inside another module's execution: share heap, restore env
            fr = self.frames[-1]
            save = self.st
            self.st = State(st.pc, {}, st.heap)
            self.load_module(name)
            st.heap = self.st.heap
            st.pc = self.st.pc
            self.st = save
            fr.cur = st
        return True

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            parts = fr.module.split(".")
            is_pkg = self.sources[fr.module][0].endswith("__init__.py")
            cut = s.level - (1 if is_pkg else 0)
            base = parts[:len(parts) - cut] if cut else parts
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            nm = a.asname or a.name
            if mod.split(".")[0] == self.pkg:
                if not self.import_repo(mod, st):
                    self.raise_builtin(st, TRUE, "ModuleNotFoundError", mod, s, True)
                    return st
                mt = T("module", mod)
                if a.name == "*":
                    for k, v in st.heap[mt].fields.items():
                        if not k.startswith("_"):
                            st.env[k] = v
                    continue
                o = st.heap.get(mt)
                if o is not None and a.name in o.fields:
                    st.env[nm] = o.fields[a.name]
                elif self.import_repo(mod + "." + a.name, st):
                    st.env[nm] = one(T("module", mod + "." + a.name))
                else:
                    # partially initialised module (circular import) or missing name
                    cur = [f for f in self.frames if f.module == mod and f.func is None]
                    if cur and cur[-1].cur is not None and a.name in cur[-1].cur.env:
                        st.env[nm] = cur[-1].cur.env[a.name]
                    else:
                        self.raise_builtin(st, TRUE, "ImportError", "cannot import %s from %s" % (a.name, mod), s, True)
                        return st
            else:
                st.env[nm] = one(FALSEC) if (mod, a.name) == ("typing", "TYPE_CHECKING") else one(ext(mod + "." + a.name))
        return st

    def s_FunctionDef(self, s, st, fr):
        v = self.make_func(s, st, fr)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, s, st, fr)
        self.assign_name(s.name, v, st, fr)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, st, fr, name=None):
        fi = FuncInfo()
        self.uid += 1
        fi.uid = self.uid
        fi.node = node
        fi.module = fr.module
        fi.name = name or getattr(node, "name", "<lambda>")
        fi.owner = fr.owner
        prefix = fr.func.qual if fr.func is not None else (fr.owner if fr.owner else fr.module)
        fi.qual = prefix + "." + fi.name
        a = node.args
        fi.defaults = [self.ev(d, st) for d in a.defaults]
        fi.kwdefaults = [self.ev(d, st) if d is not None else None for d in a.kw_defaults]
        fi.closure = None
        if fr.func is not None:
            clo = dict(fr.func.closure or {})
            clo.update(st.env)
            fi.closure = clo
        fi.isgen = not isinstance(node, ast.Lambda) and _is_gen(node)
        # deterministic identity: same definition in same context shares the term
        t = T("func", fi.uid, fi.qual)
        self.funcs[t] = fi
        return one(t)

    def apply_decorator(self, d, v, s, st, fr):
        # property-like handled structurally
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            pv = self.ev(d.value, st)
            p = single(pv)
            if p is not None and p.op == "prop":
                fg, fs, fd = self.props[p]
                f = single(v)
                new = {"setter": (fg, f, fd), "getter": (f, fs, fd), "deleter": (fg, fs, f)}[d.attr]
                return one(self.new_prop(*new))
        dv = self.ev(d, st)
        dt = single(dv)
        if dt is not None and dt.op == "ext":
            n = dt.args[0]
            if n in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                return one(self.new_prop(single(v), None, None))
            if n == "builtins.classmethod":
                return one(T("cm", single(v)))
            if n == "builtins.staticmethod":
                return one(T("sm", single(v)))
            if n in ("abc.abstractmethod", "functools.lru_cache", "functools.cache", "typing.no_type_check",
                     "typing.final", "typing.overload"):
                return v
            if n in ("attr.s", "attr.attrs", "attr.define", "attr.frozen", "dataclasses.dataclass", "attrs.define"):
                return self.make_attrs(v, st)
            self.emit(st, "unsupported", "decorator:" + n, d)
            return v
        if dt is not None and dt.op == "call" and dt.args[0].op == "ext":
            n = dt.args[0].args[0]
            if n in ("attr.s", "attr.attrs", "attr.define", "attr.frozen", "dataclasses.dataclass", "attrs.define"):
                return self.make_attrs(v, st)
            if n.startswith("functools."):
                return v
            self.emit(st, "unsupported", "decorator:" + n, d)
            return v
        return self.call_val(st, dv, [v], {}, d)

    def new_prop(self, fg, fs, fd):
        self.uid += 1
        t = T("prop", self.uid)
        self.props[t] = (fg, fs, fd)
        return t

    def make_attrs(self, v, st):
        c = single(v)
        if c is None or c.op != "class":
            return v
        ci = self.classes[c.args[0]]
        fields = []
        o = st.heap[c]
        for stt in ci.node.body:
            if isinstance(stt, ast.AnnAssign) and isinstance(stt.target, ast.Name):
                nm = stt.target.id
                val = o.fields.get(nm)
                fields.append((nm, val))
            elif isinstance(stt, ast.Assign) and len(stt.targets) == 1 and isinstance(stt.targets[0], ast.Name):
                val = o.fields.get(stt.targets[0].id)
                x = single(val) if val else None
                if x is not None and x.op == "attrib":
                    fields.append((stt.targets[0].id, val))
        ci.attrs_fields = fields
        return v

    def s_ClassDef(self, s, st, fr):
        bases = []
        for b in s.bases:
            bv = single(self.ev(b, st))
            if bv is None:
                bases.append("ext:?")
            elif bv.op == "class":
                bases.append(bv.args[0])
            elif bv.op == "ext":
                bases.append("ext:" + bv.args[0])
            else:
                bases.append("ext:?")
        for k in s.keywords:
            self.ev(k.value, st)
        qual = (fr.owner or fr.module) + "." + s.name if fr.func is None else fr.func.qual + "." + s.name
        ci = ClassInfo()
        ci.qual = qual
        ci.name = s.name
        ci.module = fr.module
        ci.bases = bases
        ci.node = s
        ci.attrs_fields = None
        self.classes[qual] = ci
        ci.mro = self.c3(qual, bases)
        ct = cls(qual)
        # run the class body
        fr2 = Frame(fr.func, fr.module)
        fr2.owner = qual
        fr2.func = None
        saved_env = st.env
        st_env = dict(saved_env) if fr.func is not None else {}
        st.env = {}
        fr2.cur = st
        self.frames.append(fr2)
        self.class_outer = getattr(self, "class_outer", [])
        self.class_outer.append(saved_env)
        st2 = self.exec_block(s.body, st, fr2)
        self.class_outer.pop()
        self.frames.pop()
        if st2 is None:
            st.pc = FALSE
            return st
        ns = st2.env
        if st2 is not st:
            st.pc, st.heap = st2.pc, st2.heap
        st.env = saved_env
        st.heap[ct] = IObj("type", dict(ns))
        # __init_subclass__ / __set_name__ are not used by the code base
        v = one(ct)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, s, st, fr)
        self.assign_name(s.name, v, st, fr)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st) if s.value is not None else one(NONE)
        if st.pc != FALSE:
            fr.returns.append((st, v, s))
            self.emit(st, "return", fr.func.qual if fr.func else "", s, args=[as_term(v, st.pc)])
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.env.get("__active_exc__")
            exc = single(cur) if cur else None
            if exc is None:
                exc = as_term(cur) if cur else T("exc", top("reraise"))
            self.do_raise(st, TRUE, exc, s)
            return None
        v = self.ev(s.exc, st)
        if s.cause is not None:
            self.ev(s.cause, st)
        pc0 = st.pc
        for g, t in v:
            if t.op == "class":
                # instantiate
                t2 = t
            else:
                t2 = t
            self.do_raise(st, g, t2, s)
        return None

    def s_Assert(self, s, st, fr):
        g = self.truth(self.ev(s.test, st), st)
        msg = s.msg
        bad = B.And(st.pc, B.Not(g))
        if sat(bad):
            if msg is not None:
                st2 = st.copy()
                st2.pc = bad
                self.ev(msg, st2)
            self.emit(State(bad, st.env, st.heap), "assert", "", s)
            self.do_raise(st, B.Not(g), T("call", ext("builtins.AssertionError"), (), ()), s)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    self.slice_assign(st, o, t.slice, None, s)
                    continue
                k = self.ev(t.slice, st)
                self.delitem(st, o, k, s)
            elif isinstance(t, ast.Attribute):
                self.emit(st, "unsupported", "delattr", s)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st)
        if st.pc == FALSE:
            return None
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return st
        v = self.ev(s.value, st)
        if st.pc == FALSE:
            return None
        self.assign(s.target, v, st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr, t)
        elif isinstance(t, ast.Attribute):
            cur = self.ev(t, st)
        else:
            cur = self.ev(t, st)
        rhs = self.ev(s.value, st)
        # in-place list extension
        ct = single(cur)
        if isinstance(s.op, ast.Add) and ct is not None and isinstance(self.ostate(st, ct), LObj) and \
                self.ostate(st, ct).kind == "list":
            self.list_extend(st, ct, rhs, s)
            return st
        if isinstance(s.op, ast.BitOr) and ct is not None and isinstance(self.ostate(st, ct), (DObj, LObj)):
            self.b_method(st, ct, "update", [rhs], {}, s)
            return st
        v = self.binop(st, type(s.op).__name__, cur, rhs, s)
        self.assign(t, v, st, fr, s)
        return st

    def s_Global(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        self.emit(st, "unsupported", "nonlocal", s)
        return st

    def assign_name(self, name, v, st, fr):
        if name in fr.nonlocals:
            self.set_field(st, T("module", fr.module), name, v)
            return
        st.env[name] = v

    def assign(self, target, v, st, fr, node):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, v, st, fr)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st)
            self.setattr_val(st, o, target.attr, v, node)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, st)
            if isinstance(target.slice, ast.Slice):
                self.slice_assign(st, o, target.slice, v, node)
                return
            k = self.ev(target.slice, st)
            self.setitem(st, o, k, v, node)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, st, fr, node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, fr, node)
        else:
            self.unsupported(st, node)

    def slice_assign(self, st, o, sl, v, node):
        """x[a:b] = v, or with v None del x[a:b]."""
        b = [as_term(self.ev(x, st), st.pc) if x is not None else NONE for x in (sl.lower, sl.upper, sl.step)]
        src = None
        if v is not None:
            t = single(v)
            vo = self.ostate(st, t) if t is not None else None
            if isinstance(vo, LObj):
                src = vo.segs

        def f(s, t):
            ob = self.ostate(s, t, "list")
            self.emit(s, "mutate", "__setitem__" if v is not None else "__delitem__", node, recv=t)
            sx = slice(*[cval(x) if is_const(x) else 0 for x in b]) if all(is_const(x) for x in b) else None
            if isinstance(ob, LObj) and sx is not None and sx.step is None and (v is None or src is not None):
                segs = list(ob.segs)
                whole = sx.start in (None, 0) and sx.stop is None
                pre = [x for x in (sx.start, sx.stop) if x is not None]
                n = next((i for i, x in enumerate(segs) if x[0] != "e"), len(segs))
                # offsets from the front that stay within the known prefix
                if whole or n == len(segs) or (pre and sx.stop is not None and all(0 <= x <= n for x in pre)):
                    segs[sx] = [] if v is None else list(src)
                    s.heap[t] = LObj(ob.kind, segs)
                    return one(NONE)
            s.heap[t] = LObj("list", (("s", top("slice-assign")),))
            return one(NONE)

        self.over(st, o, f)

    def unpack(self, elts, v, st, fr, node):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        t = single(v)
        if t is None:
            # position-wise over alternatives
            if star:
                t = as_term(v, st.pc)
            else:
                for i, e in enumerate(elts):
                    alts = []
                    for g, x in v:
                        iv = self.index_term(st, x, i, node)
                        alts += [(B.And(g, g2), y) for g2, y in iv]
                    self.assign(e, norm(alts, st.pc), st, fr, node)
                return
        o = self.ostate(st, t)
        if isinstance(o, LObj) and all(s[0] == "e" for s in o.segs):
            vals = [s[1] for s in o.segs]
            if not star:
                if len(vals) != len(elts):
                    self.raise_builtin(st, TRUE, "ValueError", "unpack", node)
                    return
                for e, x in zip(elts, vals):
                    self.assign(e, x, st, fr, node)
                return
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                self.raise_builtin(st, TRUE, "ValueError", "unpack", node)
                return
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x, st, fr, node)
            mid = vals[i:len(vals) - after]
            self.assign(elts[i], one(self.new_obj(st, LObj("list", [("e", x) for x in mid]))), st, fr, node)
            for e, x in zip(elts[i + 1:], vals[len(vals) - after:]):
                self.assign(e, x, st, fr, node)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e, one(T("slice", t, const(i), NONE, NONE)), st, fr, node)
            else:
                self.assign(e, self.index_term(st, t, i, node), st, fr, node)

    def index_term(self, st, t, i, node):
        return self.getitem_term(st, t, const(i), node)

    def s_If(self, s, st, fr):
        # `if TYPE_CHECKING` and constant tests resolve here as well
        g = self.truth(self.ev(s.test, st), st)
        if st.pc == FALSE:
            return None
        p1 = B.And(st.pc, g)
        p0 = B.And(st.pc, B.Not(g))
        self.emit(st, "branch", "if", s, args=[], kw={}, recv=g)
        s1 = s0 = None
        sat1, sat0 = sat(p1), sat(p0)
        if sat1 and sat0:
            a = st.copy()
            a.pc = p1
            s1 = self.exec_block(s.body, a, fr)
            b = st.copy()
            b.pc = p0
            s0 = self.exec_block(s.orelse, b, fr)
            return self.merge_states([s1, s0])
        if sat1:
            return self.exec_block(s.body, st, fr)
        if sat0:
            return self.exec_block(s.orelse, st, fr)
        return None

    def s_With(self, s, st, fr):
        sup = False
        for it in s.items:
            v = self.ev(it.context_expr, st)
            t = single(v)
            if t is not None and t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "contextlib.suppress":
                sup = t.args[1]
            if it.optional_vars is not None:
                if t is not None and isinstance(self.ostate(st, t), IObj):
                    v = self.call_method(st, v, "__enter__", [], {}, s)
                elif t is not None and t.op in ("call", "ext"):
                    v = one(t)
                self.assign(it.optional_vars, v, st, fr, s)
        if sup is not False:
            tr = ast.Try(body=s.body, handlers=[], orelse=[], finalbody=[])
            return self.do_try(tr, st, fr, [(list(sup), None, [])])
        return self.exec_block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        hs = []
        for h in s.handlers:
            if h.type is None:
                types = [ext("builtins.BaseException")]
            else:
                tv = single(self.ev(h.type, st))
                types = []
                if tv is not None:
                    o = self.ostate(st, tv)
                    if isinstance(o, LObj):
                        types = [single(x[1]) for x in o.segs if x[0] == "e"]
                    else:
                        types = [tv]
            hs.append((types, h.name, h.body))
        return self.do_try(s, st, fr, hs)

    def do_try(self, s, st, fr, hs):
        col = Collector(fr, is_try=bool(hs))
        self.handlers.append(col)
        nret = len(fr.returns)
        base = st.copy()
        out = self.exec_block(s.body, st, fr)
        self.handlers.pop()
        entries = col.entries
        res = []
        # exceptional paths
        pend = []     # states per handler
        unhandled = []
        buckets = [[] for _ in hs]
        for (pc, env, heap, exc, node, mod, stk, lps) in entries:
            rest = pc
            for i, (types, name, body) in enumerate(hs):
                g = FALSE
                for ty in types:
                    if ty is None:
                        continue
                    g = B.Or(g, self.exc_match(exc, ty))
                p = B.And(rest, g)
                if sat(p):
                    buckets[i].append((p, env, heap, exc, node))
                    rest = B.And(rest, B.Not(g))
                if not sat(rest):
                    rest = FALSE
                    break
            if sat(rest):
                unhandled.append((rest, env, heap, exc, node, mod, stk, lps))
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        res.append(out)
        for i, (types, name, body) in enumerate(hs):
            if not buckets[i]:
                continue
            sts = [State(p, dict(env), dict(heap)) for p, env, heap, exc, node in buckets[i]]
            # raise points are not disjoint between an outer path and itself; make them so
            hst = self.merge_overlapping(sts)
            if hst is None:
                continue
            excv = norm([(B.restrict(p, hst.pc), exc) for p, env, heap, exc, node in buckets[i]], hst.pc)
            prev = hst.env.get("__active_exc__")
            hst.env["__active_exc__"] = excv
            if name:
                hst.env[name] = excv
            self.emit(hst, "handler", "+".join(show(t) for t in types if t is not None), s.handlers[i] if i < len(getattr(s, "handlers", [])) else s)
            r = self.exec_block(body, hst, fr)
            if r is not None:
                r.env.pop("__active_exc__", None)
                if prev is not None:
                    r.env["__active_exc__"] = prev
                if name:
                    r.env.pop(name, None)
            res.append(r)
        outer = self.handlers[-1] if self.handlers else None
        if s.finalbody:
            m = self.merge_states(res)
            if m is not None:
                m = self.exec_block(s.finalbody, m, fr)
            # returns inside the try also run the final body
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for rst, rv, rn in rets:
                f2 = self.exec_block(s.finalbody, rst, fr)
                if f2 is not None:
                    fr.returns.append((f2, rv, rn))
            for (pc, env, heap, exc, node, mod, stk, lps) in unhandled:
                us = State(pc, dict(env), dict(heap))
                us = self.exec_block(s.finalbody, us, fr)
                if us is not None and outer is not None:
                    self.rethrow(outer, fr, us, exc, node, mod, stk, lps)
            return m
        for (pc, env, heap, exc, node, mod, stk, lps) in unhandled:
            if outer is not None:
                self.rethrow(outer, fr, State(pc, env, heap), exc, node, mod, stk, lps)
        return self.merge_states(res)

    def rethrow(self, outer, fr, us, exc, node, mod, stk, lps):
        env = us.env if outer.frame is fr else (outer.frame.cur.env if outer.frame is not None and outer.frame.cur is not None else {})
        outer.entries.append((us.pc, dict(env), us.heap, exc, node, mod, stk, lps))

    def merge_overlapping(self, sts):
        acc = None
        seen = FALSE
        lst = []
        for s in sts:
            p = B.And(s.pc, B.Not(seen))
            if sat(p):
                s.pc = p
                lst.append(s)
            seen = B.Or(seen, s.pc)
        return self.merge_states(lst)

    def exc_match(self, exc, ty):
        k = self.type_key(ty)
        if ty.op == "ext" and ty.args[0] in ("builtins.Exception", "builtins.BaseException"):
            return TRUE
        if exc.op == "gamma":
            return B.Or(*[B.And(g, self.exc_match(x, ty)) for g, x in exc.args[0]])
        if exc.op == "exc":
            return tm.atom("raises", exc.args[0], show(ty))
        ek = self.exc_key(exc)
        if ek is None:
            return tm.atom("raises", exc, show(ty))
        if ek == k:
            return TRUE
        if ty.op == "ext" and not k.startswith("ext:"):
            k = "ext:" + ty.args[0]
        return TRUE if self.subclass(ek, k) else FALSE

    # ---------------------------------------------------------------- loops

    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st)
        if st.pc == FALSE:
            return None
        brk = []
        fr_l = fr

        def bind(st2, v):
            self.assign(s.target, v, st2, fr, s)

        def body(st2):
            return self.exec_block(s.body, st2, fr)

        out = self.iterate(st, itv, bind, body, fr, s, brk)
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        return self.merge_states([out] + brk)

    def s_While(self, s, st, fr):
        # constant-false / constant-true conditions
        g0 = self.truth(self.ev(s.test, st.copy()), st)
        if not sat(B.And(st.pc, g0)):
            self.ev(s.test, st)
            return self.exec_block(s.orelse, st, fr) if s.orelse else st
        if self.while_terminates(s, st, fr):
            outs = []
            cur = st
            stk = self._loopstack(fr)
            for _ in range(64):
                g = self.truth(self.ev(s.test, cur), cur)
                if not sat(B.And(cur.pc, g)):
                    break
                stk.append(([], []))
                r = self.exec_block(s.body, cur, fr)
                b, c = stk.pop()
                outs += b
                cur = self.merge_states([r] + c)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, cur, fr)
            return self.merge_states([cur] + outs)
        key = T("while", s.lineno, fr.module)
        pre = st.copy()
        # pass 1: find what changes
        probe = st.copy()
        mod_env, mod_heap, _ = self.probe_changes(probe, lambda p: self.exec_block(s.body, p, fr), fr, s)
        body_st = st.copy()
        for n in mod_env:
            if n in body_st.env:
                body_st.env[n] = one(T("phi", key, n, as_term(pre.env[n], pre.pc)))
        for (t, f) in mod_heap:
            self.havoc(body_st, t, f, key)
        cg = self.truth(self.ev(s.test, body_st), body_st)
        inner = body_st.copy()
        inner.pc = B.And(inner.pc, cg)
        self.loop_ctx(fr, key)
        brkcol = []
        fr_break = self._loopstack(fr)
        fr_break.append((brkcol, []))
        r = self.exec_block(s.body, inner, fr)
        brk, cont = fr_break.pop()
        fr.loops.pop()
        r = self.merge_states([r] + cont)
        out = st
        for n in mod_env:
            if n in pre.env:
                post = as_term(r.env[n], r.pc) if r is not None and n in r.env else top("while")
                out.env[n] = one(T("whilefix", key, const(n), as_term(pre.env[n], pre.pc), post))
            else:
                out.env[n] = one(top("while-new"))
        for (t, f) in mod_heap:
            self.havoc(out, t, f, key)
        for b in brk:
            for n in mod_env:
                pass
        if s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        return self.merge_overlapping([x for x in [out] if x is not None])

    def while_terminates(self, s, st, fr):
        """The loop condition is decided by constants in every round (constant propagation)."""
        self.mute += 1
        col = Collector(fr, is_try=self.in_try())
        self.handlers.append(col)
        nret, ie = len(fr.returns), len(self.internal_errors)
        alloc, cur0 = self.alloc, fr.cur
        cur = st.copy()
        ok = False
        stk = self._loopstack(fr)
        for _ in range(64):
            g = self.truth(self.ev(s.test, cur), cur)
            if cur.pc == FALSE or not sat(B.And(cur.pc, g)):
                ok = True
                break
            if sat(B.And(cur.pc, B.Not(g))):
                break
            stk.append(([], []))
            r = self.exec_block(s.body, cur, fr)
            b, c = stk.pop()
            cur = self.merge_states([r] + c)
            if cur is None or cur.pc == FALSE:
                ok = True
                break
        self.handlers.pop()
        del fr.returns[nret:]
        del self.internal_errors[ie:]
        fr.cur = cur0
        self.mute -= 1
        return ok

    def _loopstack(self, fr):
        if not hasattr(self, "_lstk"):
            self._lstk = {}
        return self._lstk.setdefault(id(fr), [])

    def loop_ctx(self, fr, it):
        fr.loops.append(it)

    def s_Break(self, s, st, fr):
        stk = self._loopstack(fr)
        if stk:
            stk[-1][0].append(st)
        return None

    def s_Continue(self, s, st, fr):
        stk = self._loopstack(fr)
        if stk:
            stk[-1][1].append(st)
        return None

    def havoc(self, st, t, f, key):
        o = self.ostate(st, t)
        if isinstance(o, IObj):
            if f is not None:
                v = o.fields.get(f)
                fd = dict(o.fields)
                fd[f] = one(T("phi", key, t, f))
                st.heap[t] = IObj(o.cls, fd, o.lazy)
        elif isinstance(o, LObj):
            st.heap[t] = LObj(o.kind, (("s", T("phi", key, t)),))
        elif isinstance(o, DObj):
            if f is not None:
                ent = dict(o.ent)
                ent[f] = (TRUE, one(T("phi", key, t, f)))
                st.heap[t] = DObj(o.base, ent)
            else:
                st.heap[t] = DObj(T("phi", key, t), {})

    def probe_changes(self, st, run, fr, node):
        """Run once muted; returns (changed env names, changed heap locations)."""
        self.mute += 1
        pre_env = dict(st.env)
        pre_heap = dict(st.heap)
        nret = len(fr.returns)
        col = Collector(fr, is_try=self.in_try())
        self.handlers.append(col)
        ie = len(self.internal_errors)
        stk = self._loopstack(fr)
        stk.append(([], []))
        r = run(st)
        brk, cont = stk.pop()
        self.handlers.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        del self.internal_errors[ie:]
        self.mute -= 1
        ends = [x for x in [r] + brk + cont if x is not None]
        envs = set()
        locs = {}
        for e in ends + [x[0] for x in rets]:
            for n, v in e.env.items():
                if pre_env.get(n) != v:
                    envs.add(n)
            for t, o in e.heap.items():
                p = pre_heap.get(t)
                if p is o:
                    continue
                if p is None:
                    if t.op == "obj":
                        continue     # allocated inside
                    p = self.ostate(State(TRUE, {}, pre_heap), t)
                    if p is None:
                        p = type(o)(*([o.kind, ()] if isinstance(o, LObj) else [None, {}] if isinstance(o, DObj) else [o.cls, {}, True]))
                if isinstance(o, IObj) and isinstance(p, IObj):
                    for n, v in o.fields.items():
                        if p.fields.get(n) != v:
                            locs[(t, n)] = 1
                elif isinstance(o, DObj) and isinstance(p, DObj):
                    if o.base is not p.base:
                        locs[(t, None)] = 1
                    else:
                        for k, v in o.ent.items():
                            if p.ent.get(k) != v:
                                locs[(t, k)] = 1
                elif isinstance(o, LObj):
                    if not isinstance(p, LObj) or o.segs != p.segs:
                        locs[(t, None)] = 1
        return envs, list(locs), r

    def iterate(self, st, itv, bind, body, fr, node, brk_out):
        """Execute `body` for every element of the iterable value. Returns state after normal exhaustion."""
        alts = itv
        if len(alts) > 1:
            outs = []
            for g, t in alts:
                p = B.And(st.pc, g)
                if not sat(p):
                    continue
                s2 = st.copy()
                s2.pc = p
                outs.append(self.iterate(s2, one(t), bind, body, fr, node, brk_out))
            return self.merge_states(outs)
        segs = self.spine(st, alts[0][1], node)
        stk = self._loopstack(fr)
        cur = st
        for sg in segs:
            if cur is None or cur.pc == FALSE:
                return None
            if sg[0] == "e":
                stk.append(([], []))
                bind(cur, sg[1])
                r = body(cur) if cur.pc != FALSE else None
                b, c = stk.pop()
                brk_out.extend(b)
                cur = self.merge_states([r] + c)
            elif sg[0] == "c":
                p1 = B.And(cur.pc, sg[1])
                p0 = B.And(cur.pc, B.Not(sg[1]))
                r = None
                if sat(p1):
                    s1 = cur.copy()
                    s1.pc = p1
                    stk.append(([], []))
                    bind(s1, sg[2])
                    r = body(s1)
                    b, c = stk.pop()
                    brk_out.extend(b)
                    r = self.merge_states([r] + c)
                s0 = None
                if sat(p0):
                    s0 = cur
                    s0.pc = p0
                cur = self.merge_states([r, s0])
            else:
                cur = self.loop_star(cur, sg[1], bind, body, fr, node, brk_out)
        return cur

    def star_elem(self, st, it):
        """Value bound by one generic iteration over star source `it` and (base iterable, cond)."""
        if it.op == "map":
            base, cond = it.args[0], it.args[2]
            return from_term(it.args[1]), base, cond
        if it.op == "splat":
            return self.star_elem(st, it.args[0])
        if it.op == "call" and it.args[0].op in ("attr", "meth") and not it.args[1]:
            nm = it.args[0].args[1]
            d = it.args[0].args[0]
            if nm == "items":
                k = T("key", d)
                t = self.new_obj(st, LObj("tuple", (("e", one(k)), ("e", one(item_t(d, k))))))
                return one(t), d, TRUE
            if nm == "keys":
                return one(T("key", d)), d, TRUE
            if nm == "values":
                return one(item_t(d, T("key", d))), d, TRUE
        if typeof(it) == "dict":
            return one(T("key", it)), it, TRUE
        if it.op == "enumerate":
            v, base, cond = self.star_elem(st, it.args[0])
            t = self.new_obj(st, LObj("tuple", (("e", one(T("idx", base))), ("e", v))))
            return one(t), base, cond
        if it.op == "zip":
            vals = []
            base = it
            for a in it.args:
                v, b, c = self.star_elem(st, a)
                vals.append(("e", v))
            t = self.new_obj(st, LObj("tuple", vals))
            return one(t), it.args[0], TRUE
        if it.op == "reversed":
            return self.star_elem(st, it.args[0])
        return one(elem_t(it)), it, TRUE

    def loop_star(self, st, it, bind, body, fr, node, brk_out):
        key = T("loop", it)
        nonempty = B.Not(B.Or(g_empty(it), g_isnone(it)))
        if it.op == "map":
            nonempty = g_exists(it.args[0], it.args[2])
        p1 = B.And(st.pc, nonempty)
        if not sat(p1):
            return st
        pre = st.copy()

        def run(s2):
            v, base, cond = self.star_elem(s2, it)
            s2.pc = B.And(s2.pc, cond)
            if not sat(s2.pc):
                return None
            bind(s2, v)
            return body(s2)

        probe = st.copy()
        probe.pc = p1
        ie0 = self.alloc
        envs, locs, _ = self.probe_changes(probe, run, fr, node)
        # generic iteration
        gen = st.copy()
        gen.pc = p1
        base_it = self.star_elem(st.copy(), it)[1]
        eterms = {elem_t(base_it), T("key", base_it), T("idx", base_it)}
        phis = {}
        for n in envs:
            if n in gen.env:
                ph = T("phi", key, n)
                phis[n] = ph
                gen.env[n] = one(ph)
        elem_locs = []
        for (t, f) in locs:
            if tm.depends(t, eterms):
                elem_locs.append((t, f))
                continue        # per-element object: no carried dependence
            self.havoc(gen, t, f, key)
        nret = len(fr.returns)
        col = Collector(fr, is_try=self.in_try())
        self.handlers.append(col)
        fr.loops.append(it)
        stk = self._loopstack(fr)
        stk.append(([], []))
        r = run(gen)
        b, c = stk.pop()
        fr.loops.pop()
        self.handlers.pop()
        r = self.merge_states([r] + c)
        rets = fr.returns[nret:]
        del fr.returns[nret:]

        def lift(p):
            g = B.restrict(p, p1)
            g = self.drop_phi(g, key)
            if not tm.dep_guard(g, eterms):
                return B.And(nonempty, g)
            # split: conjuncts independent of the element stay outside
            return tm.atom("exists", base_it, g) if g not in (TRUE, FALSE) else B.And(nonempty, g)

        exit_g = FALSE
        outer = self.handlers[-1] if self.handlers else None
        for (rst, rv, rn) in rets:
            lg = lift(rst.pc)
            p = B.And(pre.pc, lg)
            s2 = State(B.And(p, B.Not(exit_g)), rst.env, rst.heap)
            exit_g = B.Or(exit_g, lg)
            if sat(s2.pc):
                fr.returns.append((s2, rv, rn))
        for (pc, env, heap, exc, nd, mod, sk, lps) in col.entries:
            lg = lift(pc)
            p = B.And(pre.pc, lg)
            exit_r = lg
            if outer is not None and sat(p):
                outer.entries.append((p, env, heap, exc, nd, mod, sk, lps))
            if not (exc.op in ("exc", "exck")):
                pass
            exit_g = B.Or(exit_g, lg)
        for bst in b:
            lg = lift(bst.pc)
            p = B.And(pre.pc, lg, B.Not(exit_g))
            if sat(p):
                s2 = bst.copy()
                s2.pc = p
                for n, ph in phis.items():
                    if n in s2.env:
                        v = s2.env[n]
                        if any(t is ph for g, t in v) or any(tm.depends(t, {ph}) for g, t in v):
                            s2.env[n] = self.phi_result(v, ph, pre.env[n], base_it, eterms, key, s2.pc, nonempty, p1)
                        else:
                            s2.env[n] = v
                for (t, f) in locs:
                    if (t, f) in elem_locs:
                        continue
                    self.finish_loc(s2, pre, bst, t, f, key, base_it, eterms, nonempty, p1)
                brk_out.append(s2)
            exit_g = B.Or(exit_g, lg)
        out_pc = B.And(pre.pc, B.Not(exit_g))
        if not sat(out_pc):
            return None
        if r is None:
            # body never completes: only the empty case falls through
            out = pre
            out.pc = B.And(out_pc, B.Not(nonempty))
            return out if sat(out.pc) else None
        out = State(out_pc, dict(pre.env), dict(r.heap))
        for t in pre.heap:
            if t not in out.heap:
                out.heap[t] = pre.heap[t]
        for n in envs:
            if n in phis:
                out.env[n] = self.phi_result(r.env.get(n, one(T("undef"))), phis[n], pre.env[n], base_it, eterms, key,
                                             out_pc, nonempty, p1)
            else:
                v = r.env.get(n)
                if v is None:
                    continue
                out.env[n] = norm([(B.And(nonempty, g), t) for g, t in self.lastval(v, base_it, eterms)] +
                                  [(B.Not(nonempty), T("undef"))], out_pc)
        for (t, f) in locs:
            if (t, f) in elem_locs:
                continue
            self.finish_loc(out, pre, r, t, f, key, base_it, eterms, nonempty, p1)
        return out

    def lastval(self, v, base_it, eterms):
        return v

    def drop_phi(self, g, key):
        """Existentially abstract atoms that mention loop-carried phis."""
        for v in list(B.support(g)):
            a = tm.ATOMS[v]
            if any(isinstance(x, Term) and tm.mentions(x, lambda y: y.op == "phi" and y.args[0] is key) for x in a[1:]):
                lit = B.literal(v)
                g = B.Or(B.compose_vars(g, {v: TRUE}), B.compose_vars(g, {v: FALSE}))
        return g

    def phi_result(self, v, ph, init, base_it, eterms, key, pc, nonempty, p1):
        others = []
        keep = FALSE
        for g, t in v:
            if t is ph:
                keep = B.Or(keep, g)
            else:
                others.append((B.restrict(g, p1), t))
        if any(tm.depends(t, {ph}) for _, t in others):
            folded = T("fold", base_it, as_term(init), as_term(v))
            return norm([(nonempty, folded)] + [(B.And(B.Not(nonempty), g), t) for g, t in init], pc)
        if not others:
            return init
        gs = B.Or(*[self.drop_phi(g, key) for g, _ in others])
        if tm.dep_guard(gs, eterms):
            ex = tm.atom("exists", base_it, gs) if gs not in (TRUE, FALSE) else B.And(nonempty, gs)
        else:
            ex = B.And(nonempty, gs)
        if len(others) == 1:
            new = ((TRUE, others[0][1]),)
        elif not any(tm.dep_guard(g, eterms) for g, _ in others):
            new = tuple(others)
        else:
            new = one(T("lastsel", base_it, as_term(tuple(others))))
        return norm([(B.And(ex, g), t) for g, t in new] + [(B.And(B.Not(ex), g), t) for g, t in init], pc)

    def finish_loc(self, out, pre, r, t, f, key, base_it, eterms, nonempty, p1):
        ro = r.heap.get(t)
        po = pre.heap.get(t)
        if po is None:
            po = self.ostate(pre, t)
        if isinstance(ro, IObj):
            ph = T("phi", key, t, f)
            v = ro.fields.get(f)
            init = po.fields.get(f) if isinstance(po, IObj) else None
            if init is None:
                init = one(attr_t(t, f))
            oo = self.ostate(out, t)
            fd = dict(oo.fields)
            fd[f] = self.phi_result(v, ph, init, base_it, eterms, key, out.pc, nonempty, p1)
            out.heap[t] = IObj(oo.cls, fd, oo.lazy)
        elif isinstance(ro, LObj):
            ph = T("phi", key, t)
            segs = ro.segs
            if segs and segs[0] == ("s", ph) and not any(
                    tm.depends(x, {ph}) for s in segs[1:] for x in ([s[1]] if s[0] == "s" else [y for _, y in s[-1]])):
                new = list(po.segs) if isinstance(po, LObj) else [("s", t)]
                for s in segs[1:]:
                    if s[0] == "e":
                        new.append(("s", self.mk_map(base_it, as_term(s[1]), TRUE)))
                    elif s[0] == "c":
                        new.append(("s", self.mk_map(base_it, as_term(s[2]), self.drop_phi(B.restrict(s[1], p1), key))))
                    else:
                        new.append(("s", T("flatmap", base_it, s[1])))
                out.heap[t] = LObj(ro.kind, new)
            else:
                out.heap[t] = LObj(ro.kind, (("s", T("foldlist", base_it, T("list", *self.struct_items(segs)))),))
        elif isinstance(ro, DObj):
            if f is not None:
                ph = T("phi", key, t, f)
                p, v = ro.ent.get(f, (FALSE, ()))
                oo = self.ostate(out, t)
                ent = dict(oo.ent)
                if isinstance(po, DObj) and f in po.ent:
                    ip, init = po.ent[f]
                    pres = B.Or(ip, B.And(nonempty, p))
                elif isinstance(po, DObj) and po.base is not None:
                    ip, init = g_in(f, po.base), one(item_t(po.base, f))
                    pres = B.Or(ip, B.And(nonempty, p))
                else:
                    init = one(T("undef"))
                    pres = B.And(nonempty, p)
                    others = [(B.restrict(g, p1), x) for g, x in v if x is not ph]
                    gs = B.Or(*[self.drop_phi(g, key) for g, _ in others]) if others else FALSE
                    gp = B.And(B.restrict(p, p1), gs)
                    pres = g_exists(base_it, gp) if tm.dep_guard(gp, eterms) else B.And(nonempty, gp)
                ent[f] = (pres, self.phi_result(v, ph, init, base_it, eterms, key, B.And(out.pc, pres), nonempty, p1) if v else ())
                out.heap[t] = DObj(oo.base, ent)
            else:
                ph = T("phi", key, t)
                init = self.snapshot(pre, t) if isinstance(po, DObj) else T("emptydict")
                if isinstance(po, DObj) and po.base is None and not po.ent:
                    init = T("emptydict")
                post = T("dict", ro.base if ro.base is not None else NONE,
                         *[T("cseg", g, T("kv", k, as_term(v))) if g != TRUE else T("kv", k, as_term(v)) for k, (g, v) in ro.ent.items()])
                out.heap[t] = DObj(T("folddict", base_it, init, post, ph), {})

    def mk_map(self, base_it, val, cond):
        if val is elem_t(base_it) and cond == TRUE:
            return base_it
        return T("map", base_it, val, cond)

    def spine(self, st, t, node=None):
        """Segments of an iterable term."""
        o = self.ostate(st, t)
        if isinstance(o, LObj):
            return o.segs
        if isinstance(o, DObj):
            segs = []
            if o.base is not None:
                segs.append(("s", T("call", T("meth", o.base, "keys"), (), ()) if o.base.op != "emptydict" else o.base))
                if o.base.op == "emptydict":
                    segs.pop()
            for k, (g, v) in o.ent.items():
                if g == TRUE:
                    segs.append(("e", one(k)))
                elif g != FALSE:
                    segs.append(("c", g, one(k)))
            return segs
        if isinstance(o, IObj):
            m = self.class_lookup(st, o.cls, "__iter__")
            if m is not None:
                v = self.call_method(st, one(t), "__iter__", [], {}, node)
                if single(v) is not None and single(v) is not t:
                    return self.spine(st, single(v), node)
        if t.op == "iter":
            return self.spine(st, t.args[0], node)
        if t.op in ("list", "tuple", "set"):
            return self.segs_of_struct(t)
        if is_const(t) and isinstance(cval(t), (bytes, str)) and len(cval(t)) <= 16:
            return [("e", vconst(x)) for x in cval(t)]
        if t.op == "dictview":
            return self.dict_view(st, t.args[0], t.args[1])
        if t.op == "range" and all(is_const(a) for a in t.args):
            r = range(*[cval(a) for a in t.args])
            if len(r) <= 64:
                return [("e", vconst(i)) for i in r]
        if t is NONE:
            return []
        if t.op == "splat":
            return self.spine(st, t.args[0], node)
        return [("s", t)]

    def dict_view(self, st, d, what):
        o = self.ostate(st, d, "dict")
        segs = []
        if o.base is not None and o.base.op != "emptydict":
            segs.append(("s", T("call", T("meth", o.base, what), (), ())))
        for k, (g, v) in o.ent.items():
            if g == FALSE:
                continue
            if what == "keys":
                x = one(k)
            elif what == "values":
                x = v
            else:
                x = one(self.new_obj(st, LObj("tuple", (("e", one(k)), ("e", v)))))
            segs.append(("e", x) if g == TRUE else ("c", g, x))
        return segs

    # ---------------------------------------------------------------- expressions

    def ev(self, e, st):
        if st.pc == FALSE:
            return one(top("dead"))
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unsupported(st, e)
        return m(e, st, self.frames[-1])

    def e_Constant(self, e, st, fr):
        return vconst(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def lookup(self, name, st, fr, node):
        v = st.env.get(name)
        if v is not None:
            if any(t.op == "undef" for _, t in v):
                g = B.Or(*[g for g, t in v if t.op == "undef"])
                if sat(B.And(st.pc, g)):
                    self.raise_builtin(st, g, "UnboundLocalError", name, node, True)
                v = norm([(g, t) for g, t in v if t.op != "undef"], st.pc)
                if not v:
                    return one(top("undef"))
            return v
        if name == "__class__" and fr.owner:
            return one(cls(fr.owner))
        if fr.func is not None and fr.func.closure is not None:
            v = fr.func.closure.get(name)
            if v is not None:
                return v
            if name == fr.func.name:
                for t, fi in self.funcs.items():
                    if fi is fr.func:
                        return one(t)
            # closure defined later in an enclosing active frame
            for f in reversed(self.frames[:-1]):
                if f.func is not None and fr.func.qual.startswith(f.func.qual + ".") and f.cur is not None and name in f.cur.env:
                    return f.cur.env[name]
        if fr.func is None and fr.owner and getattr(self, "class_outer", None):
            for outer in reversed(self.class_outer):
                if name in outer:
                    return outer[name]
        mt = T("module", fr.module)
        o = st.heap.get(mt)
        if o is not None and name in o.fields:
            return o.fields[name]
        # module still executing: its environment is the outermost frame
        for f in self.frames:
            if f.module == fr.module and f.func is None and f.owner is None and f.cur is not None and name in f.cur.env:
                return f.cur.env[name]
        if name == "TYPE_CHECKING":
            return one(FALSEC)
        if hasattr(_bi, name):
            if name == "__debug__":
                return one(sym("__debug__", "bool"))
            c = getattr(_bi, name)
            if c is None or c is True or c is False:
                return vconst(c)
            if name == "NotImplemented":
                return one(ext("builtins.NotImplemented"))
            return one(ext("builtins." + name))
        self.raise_builtin(st, TRUE, "NameError", "name '%s' is not defined" % name, node, True)
        return one(top("nameerror"))

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st)
        return self.getattr_val(st, o, e.attr, e)

    def over(self, st, v, f):
        """Apply f(st, term)->Val to each alternative under its guard, merging states."""
        v = norm(v, st.pc) if len(v) > 1 else v
        ex = []
        for g, t in v:
            if t.op == "gamma":
                ex += [(B.And(g, g2), t2) for g2, t2 in t.args[0]]
            else:
                ex.append((g, t))
        if len(ex) != len(v):
            v = norm(ex, st.pc)
        if len(v) == 1:
            return f(st, v[0][1])
        outs = []
        for g, t in v:
            p = B.And(st.pc, g)
            if not sat(p):
                continue
            s2 = st.copy()
            s2.pc = p
            r = f(s2, t)
            outs.append((s2, r))
        return self.join_into(st, outs)

    def join_into(self, st, outs):
        outs = [(s, r) for s, r in outs if s.pc != FALSE and sat(s.pc)]
        if not outs:
            st.pc = FALSE
            return one(top("dead"))
        m = self.merge_states([s for s, _ in outs])
        st.pc, st.env, st.heap = m.pc, m.env, m.heap
        if len(outs) == 1:
            return outs[0][1]
        pairs = [(B.restrict(s.pc, m.pc), r) for s, r in outs]
        return self.merge_vals(pairs, m.pc)

    def getattr_val(self, st, v, name, node):
        if len(v) == 1 and v[0][1].op != "gamma":
            return self.getattr_term(st, v[0][1], name, node)
        # fast path: symbolic receivers only
        return self.over(st, v, lambda s, t: self.getattr_term(s, t, name, node))

    def field_kind(self, t):
        """dict / list / set if that is what every constructor in the class stores in the attribute t."""
        if t.op != "attr":
            return None
        ty = typeof(t.args[0]) or ""
        q = ty[5:] if ty.startswith("inst:") else None
        if q not in self.classes:
            return None
        kinds = set()
        for m in self.classes[q].mro:
            ci = self.classes.get(m)
            if ci is None or ci.node is None:
                continue
            for x in ast.walk(ci.node):
                if not isinstance(x, (ast.Assign, ast.AnnAssign)):
                    continue
                for tg in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(tg, ast.Attribute) and tg.attr == t.args[1] and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                        v = x.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set"):
                            kinds.add(v.func.id)
                        else:
                            kinds.add({ast.Dict: "dict", ast.DictComp: "dict", ast.List: "list", ast.ListComp: "list",
                                       ast.Set: "set"}.get(type(v)))
        return kinds.pop() if len(kinds) == 1 else None

    def class_lookup(self, st, q, name, after=None):
        """(value, defining class) following the MRO."""
        ci = self.classes.get(q)
        if ci is None:
            return None
        mro = ci.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for m in mro:
            if m.startswith("ext:"):
                continue
            o = st.heap.get(cls(m))
            if o is None:
                continue
            if name in o.fields:
                v = o.fields[name]
                return v, m
        return None

    def declared(self, q, name):
        """Does any method of the class, or of a base, give the attribute a value (or is its body not known)?"""
        if q not in self.classes:
            return True
        names = self.declared_names.get(q)
        if names is None:
            names = self.declared_names[q] = set()
            for m in self.classes[q].mro:
                ci = self.classes.get(m)
                if ci is None or ci.node is None:
                    if m.startswith("ext:") and m[4:] in ("abc.ABC", "builtins.object", "typing.Generic"):
                        continue
                    if m.startswith("ext:") and ("Mapping" in m):
                        continue
                    names.add("*")
                    continue
                for x in ast.walk(ci.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        names.add(x.attr)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        names.add(x.target.id)
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        names.add(x.value)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and \
                            len(x.args) == 3 and not isinstance(x.args[1], ast.Constant):
                        names.add("*")
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__setattr__":
                        names.add("*")
        return name in names or "*" in names

    def has_ext_base(self, q):
        ci = self.classes.get(q)
        if ci is None:
            return None
        r = [m[4:] for m in ci.mro if m.startswith("ext:") and m[4:] not in (
            "abc.ABC", "builtins.object", "typing.Generic", "builtins.Exception")]
        return r

    def bind_class(self, st, v, q, node):
        """Attribute found on a class, accessed through class q."""
        out = []
        for g, t in v:
            if t.op == "cm":
                out.append((g, T("bound", t.args[0], cls(q))))
            elif t.op == "sm":
                out.append((g, t.args[0]))
            else:
                out.append((g, t))
        return tuple(out)

    def getattr_term(self, st, t, name, node):
        op = t.op
        if name == "digest_size" and (op == "ext" or op == "call" and t.args[0].op == "ext"):
            p, _, n = (t if op == "ext" else t.args[0]).args[0].rpartition(".")
            if p == "cryptography.hazmat.primitives.hashes" and n in DIGEST_SIZE:
                return vconst(DIGEST_SIZE[n])
        if name == "__class__":
            ty = typeof(t)
            if ty and ty.startswith("inst:") and ty[5:] in self.classes:
                return one(cls(ty[5:]))
            return one(T("typeof", t))
        if op == "class":
            q = t.args[0]
            if name in ("__name__",):
                return vconst(self.classes[q].name)
            if name == "__qualname__":
                return vconst(self.classes[q].name)
            if name == "__module__":
                return vconst(self.classes[q].module)
            if name == "__doc__":
                return one(T("doc", t))
            if name == "__mro__":
                return one(self.new_obj(st, LObj("tuple", [("e", one(cls(m))) for m in self.classes[q].mro if not m.startswith("ext:")])))
            r = self.class_lookup(st, q, name)
            if r is not None:
                return self.bind_class(st, r[0], q, node)
            eb = self.has_ext_base(q)
            if eb:
                return one(attr_t(t, name))
            if name in dir(type):
                return one(top("type." + name))
            self.raise_builtin(st, TRUE, "AttributeError", "type object '%s' has no attribute '%s'" % (self.classes[q].name, name), node, True)
            return one(top("attrerr"))
        if op == "module":
            o = st.heap.get(t)
            if o is not None and name in o.fields:
                return o.fields[name]
            sub = t.args[0] + "." + name
            if sub in self.sources and sub in self.modules:
                return one(T("module", sub))
            self.raise_builtin(st, TRUE, "AttributeError", "module '%s' has no attribute '%s'" % (t.args[0], name), node, True)
            return one(top("attrerr"))
        if op == "ext":
            if t.args[0] == "typing" and name == "TYPE_CHECKING":
                return one(FALSEC)
            return one(ext(t.args[0] + "." + name))
        if op == "prop":
            if name in ("setter", "getter", "deleter"):
                return one(T("propwith", t, name))
            fg, fs, fd = self.props[t]
            m = {"fget": fg, "fset": fs, "fdel": fd}.get(name, None)
            return one(m) if m is not None else one(NONE)
        if op == "super":
            return self.getattr_super(st, t, name, node)
        if op in ("func", "bound"):
            ft = t if op == "func" else t.args[0]
            if name == "__name__":
                return vconst(self.funcs[ft].name) if ft in self.funcs else one(attr_t(t, name))
            if name == "__self__" and op == "bound":
                return one(t.args[1])
            if name == "__func__" and op == "bound":
                return one(ft)
            return one(attr_t(t, name))
        if op == "exc" or op == "exck" or (op == "call" and t.args[0].op == "ext" and exc_builtin(t.args[0].args[0].replace("builtins.", ""))):
            return one(attr_t(t, name))
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            return self.getattr_inst(st, t, o, name, node)
        if isinstance(o, IObj) and o.cls.startswith("ext:"):
            if name in o.fields:
                return o.fields[name]
            self.raise_builtin(st, TRUE, "AttributeError", "'%s' object has no attribute '%s'" % (o.cls[4:], name), node, False)
            return one(top("attrerr"))
        if isinstance(o, (LObj, DObj)):
            bt = dict if isinstance(o, DObj) else {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}.get(o.kind)
            if bt is not None and not hasattr(bt, name) and not (bt is dict and getattr(o, "base", None) is not None):
                self.raise_builtin(st, TRUE, "AttributeError", "'%s' object has no attribute '%s'" % (bt.__name__, name), node, False)
                return one(top("attrerr"))
            return one(T("meth", t, name))
        if t is NONE:
            self.raise_builtin(st, TRUE, "AttributeError", "'NoneType' object has no attribute '%s'" % name, node, False)
            return one(top("attrerr"))
        if op == "const":
            if not hasattr(cval(t), name):
                self.raise_builtin(st, TRUE, "AttributeError", "'%s' object has no attribute '%s'" % (t.args[0], name), node, False)
                return one(top("attrerr"))
            return one(T("meth", t, name))
        ty = typeof(t)
        if ty in ("bytes", "str", "int", "bool"):
            if name not in dir(getattr(_bi, ty)):
                self.raise_builtin(st, TRUE, "AttributeError", "'%s' object has no attribute '%s'" % (ty, name), node, False)
                return one(top("attrerr"))
            return one(T("meth", t, name))
        if op == "top":
            return one(top("attr-of-top"))
        if ty and ty.startswith("class:"):
            return self.getattr_symclass(st, t, ty[6:], name, node)
        if name in ("public_numbers", "curve", "key_size"):
            c = extsig.canon_numbers(t, name)
            if c is not t and name == "public_numbers" and extsig.acc(t)[1] == "private_numbers":
                return one(call_t(attr_t(c, name), [], []))
            t = c
        a = attr_t(t, name)
        if op in ("call", "item", "elem", "sym") and self.in_try() and ty is None:
            self.may_raise(st, a, node, "AttributeError")
        return one(a)

    def getattr_symclass(self, st, t, q, name, node):
        return one(attr_t(t, name))

    def getattr_inst(self, st, t, o, name, node):
        q = o.cls
        if name == "__dict__":
            return one(attr_t(t, name))
        r = self.class_lookup(st, q, name)
        if r is not None:
            cv, owner = r
            ct = single(cv)
            if ct is not None and ct.op == "prop":
                fg = self.props[ct][0]
                if fg is None:
                    self.raise_builtin(st, TRUE, "AttributeError", "unreadable", node, True)
                    return one(top("attrerr"))
                return self.call_term(st, fg, [one(t)], {}, node)
        if name in o.fields:
            v = o.fields[name]
            if any(x.op == "undef" for _, x in v):
                g = B.Or(*[g for g, x in v if x.op == "undef"])
                if sat(B.And(st.pc, g)):
                    self.raise_builtin(st, g, "AttributeError", name, node, True)
                v = norm([(g, x) for g, x in v if x.op != "undef"], st.pc)
                if not v:
                    return one(top("undef"))
            return v
        ci = self.classes[q]
        if r is not None:
            cv, owner = r
            out = []
            for g, x in cv:
                if x.op == "func":
                    out.append((g, T("bound", x, t)))
                elif x.op == "cm":
                    out.append((g, T("bound", x.args[0], cls(q))))
                elif x.op == "sm":
                    out.append((g, x.args[0]))
                elif x.op == "attrib":
                    out.append((g, attr_t(t, name)))
                elif x.op == "ext" and False:
                    pass
                else:
                    out.append((g, x))
            return tuple(out)
        eb = self.has_ext_base(q)
        if eb and any("MutableMapping" in b or "Mapping" in b for b in eb) and name in (
                "get", "items", "keys", "values", "update", "pop", "setdefault", "clear", "popitem", "__eq__", "__ne__"):
            return one(T("meth", t, name))
        if o.lazy and self.declared(q, name):
            return one(attr_t(t, name))
        ga = self.class_lookup(st, q, "__getattr__")
        if ga is not None:
            return self.call_term(st, single(ga[0]), [one(t), vconst(name)], {}, node)
        if eb and (name in dir(collections.abc.MutableMapping) or [b for b in eb if "Mapping" not in b]):
            return one(attr_t(t, name))
        if name.startswith("__") and name.endswith("__"):
            return one(attr_t(t, name))
        self.raise_builtin(st, TRUE, "AttributeError", "'%s' object has no attribute '%s'" % (ci.name, name), node, True)
        return one(top("attrerr"))

    def getattr_super(self, st, t, name, node):
        after, obj = t.args
        if obj.op == "class":
            q = obj.args[0]
        else:
            o = self.ostate(st, obj)
            q = o.cls if isinstance(o, IObj) else after
        r = self.class_lookup(st, q, name, after)
        if r is None:
            if name == "__init__":
                return one(ext("builtins.object.__init__"))
            if name in ("__repr__", "__str__", "__eq__", "__hash__", "__setattr__"):
                return one(T("meth", obj, name))
            eb = self.has_ext_base(q)
            if eb:
                return one(T("meth", obj, name))
            self.raise_builtin(st, TRUE, "AttributeError", "'super' object has no attribute '%s'" % name, node, True)
            return one(top("attrerr"))
        out = []
        for g, x in r[0]:
            if x.op == "prop":
                fg = self.props[x][0]
                return self.call_term(st, fg, [one(obj)], {}, node)
            if x.op == "func":
                out.append((g, T("bound", x, obj) if obj.op != "class" else x))
            elif x.op == "cm":
                out.append((g, T("bound", x.args[0], obj if obj.op == "class" else cls(q))))
            elif x.op == "sm":
                out.append((g, x.args[0]))
            else:
                out.append((g, x))
        return tuple(out)

    def setattr_val(self, st, ov, name, v, node):
        if len(ov) == 1 and ov[0][1].op != "gamma":
            self.setattr_term(st, ov[0][1], name, v, node)
            return

        def f(s, t):
            self.setattr_term(s, t, name, v, node)
            return one(NONE)

        self.over(st, ov, f)

    def setattr_term(self, st, t, name, v, node):
        if t.op in ("class", "module"):
            self.emit(st, "setattr", name, node, args=[as_term(v, st.pc)], recv=t)
            o = st.heap[t]
            f = dict(o.fields)
            f[name] = v
            st.heap[t] = IObj(o.cls, f, o.lazy)
            return
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            r = self.class_lookup(st, o.cls, name)
            if r is not None:
                ct = single(r[0])
                if ct is not None and ct.op == "prop":
                    fs = self.props[ct][1]
                    if fs is None:
                        self.raise_builtin(st, TRUE, "AttributeError", "can't set attribute " + name, node, True)
                        return
                    self.call_term(st, fs, [one(t), v], {}, node)
                    return
            self.emit(st, "setattr", name, node, args=[as_term(v, st.pc)], recv=t)
            self.set_field(st, t, name, v)
            return
        if t is NONE:
            self.raise_builtin(st, TRUE, "AttributeError", "NoneType set " + name, node, False)
            return
        self.emit(st, "setattr", name, node, args=[as_term(v, st.pc)], recv=t)
        # unknown object: overlay instance
        f = dict(o.fields) if isinstance(o, IObj) else {}
        f[name] = v
        if o is None or isinstance(o, IObj):
            st.heap[t] = IObj("?", f, True)

    # -- subscripts

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower else one(NONE)
            hi = self.ev(e.slice.upper, st) if e.slice.upper else one(NONE)
            sp = self.ev(e.slice.step, st) if e.slice.step else one(NONE)
            return self.slice_val(st, o, lo, hi, sp, e)
        k = self.ev(e.slice, st)
        return self.getitem(st, o, k, e)

    @staticmethod
    def slice_segs(segs, lo, hi, step):
        """The segments of a constant slice of a sequence some of whose elements are present only under a condition."""
        if not all(x is None or type(x) is int for x in (lo, hi, step)) or step not in (None, 1, -1) or len(segs) > 12:
            return None
        if step == -1:
            return segs[::-1] if lo is None and hi is None and all(s[0] in "ec" for s in segs) else None
        if any(s[0] not in "ec" for s in segs):
            # elements of unknown number: only cuts inside a definite prefix
            pre = next((i for i, s in enumerate(segs) if s[0] != "e"), 0)
            if (lo is None or 0 <= lo <= pre) and (hi is None or 0 <= hi <= pre):
                return segs[lo:hi]
            return None

        def counts(seq):
            """For every element the conditions that exactly 0, 1, ... of the elements in front of it are present."""
            out, cur = [], [TRUE]
            for s in seq:
                out.append(cur)
                g = TRUE if s[0] == "e" else s[1]
                cur = [B.Or(B.And(cur[n], B.Not(g)) if n < len(cur) else FALSE, B.And(cur[n - 1], g) if n else FALSE)
                       for n in range(len(cur) + 1)]
            return out
        before, after = counts(segs), counts(segs[::-1])[::-1]
        out = []
        for s, b, a in zip(segs, before, after):
            g = TRUE if s[0] == "e" else s[1]
            if lo is not None:
                g = B.And(g, B.Or(*(b[lo:] if lo >= 0 else a[:-lo]), FALSE))
            if hi is not None:
                g = B.And(g, B.Or(*(b[:hi] if hi >= 0 else a[-hi:]), FALSE))
            if g == TRUE:
                out.append(("e", s[-1]))
            elif g != FALSE:
                out.append(("c", g, s[-1]))
        return out

    def slice_val(self, st, o, lo, hi, sp, node):
        lt, ht, spt = as_term(lo, st.pc), as_term(hi, st.pc), as_term(sp, st.pc)

        def f(s, t):
            ob = self.ostate(s, t)
            if isinstance(ob, LObj) and all(x[0] == "e" for x in ob.segs) and all(is_const(x) for x in (lt, ht, spt)):
                return one(self.new_obj(s, LObj(ob.kind, ob.segs[slice(cval(lt), cval(ht), cval(spt))])))
            if isinstance(ob, LObj) and all(is_const(x) for x in (lt, ht, spt)):
                segs = self.slice_segs(list(ob.segs), cval(lt), cval(ht), cval(spt))
                if segs is not None:
                    return one(self.new_obj(s, LObj(ob.kind, tuple(segs))))
            if all(is_const(x) for x in (t, lt, ht, spt)):
                try:
                    return vconst(cval(t)[slice(cval(lt), cval(ht), cval(spt))])
                except Exception:
                    return one(top("slice"))
            if lt is NONE and ht is NONE and spt is NONE:
                return one(self.copy_container(s, t)) if ob is not None else one(t)
            l2 = NONE if (is_const(lt) and cval(lt) == 0) else lt
            sn = self.snapshot(s, t)
            if typeof(sn) == "bytes" or extsig.known_len(sn) is not None:
                r = extsig.bslice(sn, l2, ht, spt)
                if r is not None:
                    return one(r)
            return one(T("slice", sn, l2, ht, spt))

        return self.over(st, o, f)

    def copy_container(self, st, t):
        o = self.ostate(st, t)
        if isinstance(o, LObj):
            return self.new_obj(st, LObj(o.kind, o.segs))
        if isinstance(o, DObj):
            return self.new_obj(st, DObj(o.base, dict(o.ent)))
        return t

    def getitem(self, st, ov, kv, node):
        def f(s, t):
            def h(s2, k):
                return self.getitem_term(s2, t, k, node)

            return self.over(s, kv, h)

        return self.over(st, ov, f)

    registry_limit = 14      # larger literal tables are looked up symbolically

    def big_registry(self, o):
        return len(o.ent) > self.registry_limit and o.base is None

    def getitem_term(self, st, t, k, node):
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            m = self.class_lookup(st, o.cls, "__getitem__")
            if m is not None:
                return self.call_term(st, single(m[0]), [one(t), one(k)], {}, node)
        if isinstance(o, DObj):
            return self.dict_lookup(st, t, o, k, node, None)
        if isinstance(o, LObj):
            if is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                segs = o.segs
                if all(s[0] == "e" for s in segs):
                    try:
                        return segs[i][1]
                    except IndexError:
                        self.raise_builtin(st, TRUE, "IndexError", "index", node)
                        return one(top("idx"))
                # walk over certain prefix (or suffix for negatives)
                order = segs if i >= 0 else tuple(reversed(segs))
                n = i if i >= 0 else -i - 1
                if len(order) > n and all(s[0] == "e" for s in order[:n + 1]):
                    return order[n][1]
                if all(s[0] in ("e", "c") for s in order):
                    alts = []
                    # counts: guard that exactly j elements are present so far
                    counts = {0: TRUE}
                    for s in order:
                        pg = TRUE if s[0] == "e" else s[1]
                        val = s[-1]
                        if n in counts:
                            g = B.And(counts[n], pg)
                            alts += [(B.And(g, g2), x) for g2, x in val]
                        new = {}
                        for c, g in counts.items():
                            new[c + 1] = B.Or(new.get(c + 1, FALSE), B.And(g, pg))
                            new[c] = B.Or(new.get(c, FALSE), B.And(g, B.Not(pg)))
                        counts = {c: g for c, g in new.items() if g != FALSE}
                    have = B.Or(*[g for g, _ in alts]) if alts else FALSE
                    if sat(B.And(st.pc, B.Not(have))):
                        self.raise_builtin(st, B.Not(have), "IndexError", "index", node)
                    return norm(alts, st.pc) or one(top("idx"))
                if len(segs) == 1 and segs[0][0] == "s":
                    it = item_t(segs[0][1], k)
                    self.may_raise(st, it, node, "IndexError")
                    return one(self.typed_item(segs[0][1], it))
            return one(item_t(self.snapshot(st, t), k))
        if is_const(t) and is_const(k):
            try:
                return vconst(cval(t)[cval(k)])
            except Exception:
                self.raise_builtin(st, TRUE, "TypeError", "subscript", node)
                return one(top("idx"))
        if t is NONE:
            self.raise_builtin(st, TRUE, "TypeError", "'NoneType' object is not subscriptable", node)
            return one(top("idx"))
        if t.op == "top":
            return one(top("item-of-top"))
        it = item_t(t, k)
        self.may_raise(st, it, node, "IndexError" if is_const(k) and isinstance(cval(k), int) else "KeyError")
        return one(self.typed_item(t, it))

    def typed_item(self, t, it):
        ty = typeof(t)
        if ty and ty.startswith("listof:"):
            TYPES[it] = ty[7:]
        return it

    def dict_lookup(self, st, t, o, k, node, default):
        """default None => subscript (KeyError); else Val."""
        k = self.dkey(st, k)
        if k in o.ent:
            p, v = o.ent[k]
            if default is None:
                if not implies(st.pc, p):
                    self.raise_builtin(st, B.Not(p), "KeyError", show(k), node)
                return v if v else one(top("missing"))
            alts = [(B.And(p, g), x) for g, x in v] + [(B.And(B.Not(p), g), x) for g, x in default]
            return norm(alts, st.pc)
        alts = []
        miss = TRUE
        if not rigid(k) and k.op != "obj":
            # symbolic key
            if self.big_registry(o):
                reg = self.registry_term(st, t, o)
                it = item_t(reg, k)
                p = g_in(k, reg)
                if default is None:
                    self.raise_builtin(st, B.Not(p), "KeyError", show(k), node)
                    return one(it)
                return norm([(p, it)] + [(B.And(B.Not(p), g), x) for g, x in default], st.pc)
            for kk, (p, v) in o.ent.items():
                e = B.And(miss, p, g_eq(k, kk))
                if e == FALSE:
                    continue
                alts += [(B.And(e, g), x) for g, x in v]
                miss = B.And(miss, B.Not(B.And(p, g_eq(k, kk))))
        if o.base is not None:
            al, ms = self.base_lookup(st, o.base, k)
            alts += [(B.And(miss, g), x) for g, x in al]
            miss = B.And(miss, ms)
        if default is None:
            if sat(B.And(st.pc, miss)):
                if o.base is not None and miss != TRUE:
                    # presence of a key in an unknown mapping: only matters inside try
                    if self.in_try():
                        self.raise_builtin(st, miss, "KeyError", show(k), node)
                    else:
                        self.do_raise(st, miss, T("exck", k, "KeyError"), node)
                else:
                    self.raise_builtin(st, miss, "KeyError", show(k), node)
            return norm(alts, st.pc) or one(top("missing"))
        alts += [(B.And(miss, g), x) for g, x in default]
        return norm(alts, st.pc)

    def registry_term(self, st, t, o):
        """Stable term for a large literal dictionary (e.g. an attribute registry)."""
        if t.op == "obj":
            r = T("registry", t.args[0])
            st.heap.setdefault(r, o)
            return r
        return t

    def base_lookup(self, st, b, k):
        """Lookup of key k in a base mapping term: ([(guard, term)], guard-of-absence)."""
        op = b.op
        if op == "emptydict":
            return [], TRUE
        if op == "gamma":
            alts, miss = [], FALSE
            for g, x in b.args[0]:
                al, ms = self.base_lookup(st, x, k)
                alts += [(B.And(g, g2), y) for g2, y in al]
                miss = B.Or(miss, B.And(g, ms))
            return alts, miss
        if op == "dictcopy" or op == "copyof":
            return self.base_lookup(st, b.args[0], k)
        if op == "dictmerge":
            a2, m2 = self.base_lookup(st, b.args[1], k)
            a1, m1 = self.base_lookup(st, b.args[0], k)
            return a2 + [(B.And(m2, g), x) for g, x in a1], B.And(m1, m2)
        if op == "dictset":
            e = g_eq(k, b.args[1])
            a1, m1 = self.base_lookup(st, b.args[0], k)
            return [(B.And(e, g), x) for g, x in from_term(b.args[2])] + [(B.And(B.Not(e), g), x) for g, x in a1], \
                B.And(B.Not(e), m1)
        if op == "dict":
            alts, miss = [], TRUE
            known = False
            for x in b.args[1:]:
                g = TRUE
                if x.op == "cseg":
                    g, x = x.args
                kk, v = x.args
                e = g_eq(k, kk)
                if e == FALSE:
                    continue
                alts += [(B.And(miss, e, g, g2), y) for g2, y in from_term(v)]
                if kk is k:
                    known = True
                    miss = B.And(miss, B.Not(g))
                    break
                miss = B.And(miss, B.Not(B.And(e, g)))
            if not known and b.args[0] is not NONE:
                a1, m1 = self.base_lookup(st, b.args[0], k)
                alts += [(B.And(miss, g), y) for g, y in a1]
                miss = B.And(miss, m1)
            return alts, miss
        p = g_in(k, b)
        return [(p, item_t(b, k))], B.Not(p)

    def dkey(self, st, k):
        """A tuple used as a key is its contents."""
        if k.op == "obj":
            o = st.heap.get(k)
            if isinstance(o, LObj) and o.kind in ("tuple", "frozenset") and all(s[0] == "e" for s in o.segs):
                return self.snapshot(st, k)
        return k

    def dict_contains(self, st, t, o, k):
        k = self.dkey(st, k)
        if k in o.ent:
            return o.ent[k][0]
        g = FALSE
        if not rigid(k) and k.op != "obj":
            if self.big_registry(o):
                return g_in(k, self.registry_term(st, t, o))
            for kk, (p, v) in o.ent.items():
                g = B.Or(g, B.And(p, g_eq(k, kk)))
        if o.base is not None:
            g = B.Or(g, B.Not(self.base_lookup(st, o.base, k)[1]))
        return g

    def setitem(self, st, ov, kv, v, node):
        def f(s, t):
            for g, k in kv:
                if len(kv) > 1:
                    p = B.And(s.pc, g)
                    if not sat(p):
                        continue
                self.setitem_term(s, t, k, v, node, g if len(kv) > 1 else TRUE)
            return one(NONE)

        self.over(st, ov, f)

    def setitem_term(self, st, t, k, v, node, g=TRUE):
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            m = self.class_lookup(st, o.cls, "__setitem__")
            if m is not None:
                self.call_term(st, single(m[0]), [one(t), one(k), v], {}, node)
                return
        if isinstance(o, LObj):
            self.emit(st, "mutate", "__setitem__", node, args=[k, as_term(v, st.pc)], recv=t)
            if is_const(k) and isinstance(cval(k), int) and all(s[0] == "e" for s in o.segs) and -len(o.segs) <= cval(k) < len(o.segs):
                segs = list(o.segs)
                old = segs[cval(k)][1]
                segs[cval(k)] = ("e", v if g == TRUE else norm([(B.And(g, a), x) for a, x in v] + [(B.And(B.Not(g), a), x) for a, x in old], st.pc))
                st.heap[t] = LObj(o.kind, segs)
            else:
                st.heap[t] = LObj(o.kind, (("s", T("listset", self.snapshot(st, t), k, as_term(v, st.pc))),))
            return
        if o is None:
            o = self.ostate(st, t, "dict")
        self.emit(st, "mutate", "__setitem__", node, args=[k, as_term(v, st.pc)], recv=t)
        if not isinstance(o, DObj):
            return
        k = self.dkey(st, k)
        ent = dict(o.ent)
        if rigid(k) or k.op == "obj" or k in ent:
            if g == TRUE:
                ent.pop(k, None) if False else None
                ent[k] = (TRUE, v)
            else:
                p0, v0 = ent.get(k, (FALSE, ())) if (k in ent or o.base is None) else (g_in(k, o.base), one(item_t(o.base, k)))
                ent[k] = (B.Or(g, p0), norm([(B.And(g, a), x) for a, x in v] + [(B.And(B.Not(g), p0, a), x) for a, x in v0], st.pc))
            st.heap[t] = DObj(o.base, ent)
        else:
            snap = self.snapshot(st, t)
            if isinstance(o, DObj) and o.base is None and not o.ent:
                snap = T("emptydict")
            new = T("dictset", snap, k, as_term(v, st.pc))
            if g != TRUE:
                new = as_term(((g, new), (B.Not(g), snap)), st.pc)
            st.heap[t] = DObj(new, {})

    def delitem(self, st, ov, kv, node):
        def f(s, t):
            o = self.ostate(s, t)
            if isinstance(o, IObj) and o.cls in self.classes:
                m = self.class_lookup(s, o.cls, "__delitem__")
                if m is not None:
                    return self.call_term(s, single(m[0]), [one(t), kv], {}, node)
            self.emit(s, "mutate", "__delitem__", node, args=[as_term(kv, s.pc)], recv=t)
            if o is None:
                o = self.ostate(s, t, "dict")
            if isinstance(o, DObj):
                for g, k in kv:
                    gg = g if len(kv) > 1 else TRUE
                    o = self.ostate(s, t, "dict")
                    self.dict_remove(s, t, o, k, gg, node, True)
            elif isinstance(o, LObj):
                kt = as_term(kv, s.pc)
                if is_const(kt) and isinstance(cval(kt), int) and all(x[0] == "e" for x in o.segs):
                    segs = list(o.segs)
                    try:
                        del segs[cval(kt)]
                    except IndexError:
                        self.raise_builtin(s, TRUE, "IndexError", "del", node)
                    s.heap[t] = LObj(o.kind, segs)
                else:
                    s.heap[t] = LObj(o.kind, (("s", T("listdel", self.snapshot(s, t), kt)),))
            return one(NONE)

        self.over(st, ov, f)

    def dict_remove(self, st, t, o, k, g, node, strict):
        k = self.dkey(st, k)
        ent = dict(o.ent)
        if rigid(k) or k in ent or k.op == "obj":
            if k in ent:
                p = ent[k][0]
            elif o.base is not None:
                p = g_in(k, o.base)
            else:
                p = FALSE
            if strict and sat(B.And(st.pc, g, B.Not(p))):
                if o.base is None:
                    self.raise_builtin(st, B.And(g, B.Not(p)), "KeyError", show(k), node)
                elif self.in_try():
                    self.raise_builtin(st, B.And(g, B.Not(p)), "KeyError", show(k), node)
            newp = B.And(p, B.Not(g))
            old = ent[k][1] if k in ent else (one(item_t(o.base, k)) if o.base is not None else ())
            if newp == FALSE and o.base is None:
                ent.pop(k, None)
            else:
                ent[k] = (newp, old if newp != FALSE else ())
            st.heap[t] = DObj(o.base, ent)
        else:
            st.heap[t] = DObj(T("dictdel", self.snapshot(st, t), k), {})

    # -- displays

    def e_List(self, e, st, fr):
        return one(self.new_obj(st, LObj("list", self.seq_segs(e.elts, st))))

    def e_Tuple(self, e, st, fr):
        return one(self.new_obj(st, LObj("tuple", self.seq_segs(e.elts, st))))

    def e_Set(self, e, st, fr):
        return one(self.new_obj(st, LObj("set", self.seq_segs(e.elts, st))))

    def seq_segs(self, elts, st):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                segs += self.spine_val(st, v, x)
            else:
                segs.append(("e", self.ev(x, st)))
        return segs

    def spine_val(self, st, v, node):
        v = norm(v, st.pc)
        if len(v) == 1:
            return list(self.spine(st, v[0][1], node))
        segs = []
        sp = [(g, self.spine(st, t, node)) for g, t in v]
        if any(s[0] == "s" for _, r in sp for s in r):
            return [("s", as_term(tuple((g, T("list", *self.struct_items(r))) for g, r in sp), st.pc))]
        for g, r in sp:
            for s in r:
                segs.append(("c", g, s[1]) if s[0] == "e" else ("c", B.And(g, s[1]), s[2]))
        return segs

    def e_Dict(self, e, st, fr):
        t = self.new_obj(st, DObj(None, {}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, st)
                self.dict_update(st, t, vv, e)
            else:
                kv = self.ev(k, st)
                vv = self.ev(v, st)
                m = self.mute
                self.mute += 1
                self.setitem(st, one(t), kv, vv, e)
                self.mute = m
        return one(t)

    def e_ListComp(self, e, st, fr):
        return one(self.new_obj(st, LObj("list", self.comp(e, st, fr))))

    def e_SetComp(self, e, st, fr):
        return one(self.new_obj(st, LObj("set", self.comp(e, st, fr))))

    def e_GeneratorExp(self, e, st, fr):
        return one(self.new_obj(st, LObj("list", self.comp(e, st, fr))))

    def e_DictComp(self, e, st, fr):
        t = self.new_obj(st, DObj(None, {}))
        saved = dict(st.env)
        self.comp_rec(e.generators, 0, st, fr, lambda s: self.setitem(s, one(t), self.ev(e.key, s), self.ev(e.value, s), e), e)
        st.env = self.restore(st, saved)
        return one(t)

    def restore(self, st, saved):
        return saved

    def comp(self, e, st, fr):
        acc = self.new_obj(st, LObj("list", ()))
        saved = dict(st.env)

        def emit_elem(s):
            v = self.ev(e.elt, s)
            o = s.heap[acc]
            s.heap[acc] = LObj("list", o.segs + (("e", v),))

        self.comp_rec(e.generators, 0, st, fr, emit_elem, e)
        st.env = saved
        o = st.heap.get(acc)
        return list(o.segs) if o is not None else []

    def comp_rec(self, gens, i, st, fr, leaf, node):
        if i == len(gens):
            leaf(st)
            return
        g = gens[i]
        itv = self.ev(g.iter, st)
        if st.pc == FALSE:
            return

        def bind(s, v):
            self.assign(g.target, v, s, fr, node)

        def body(s):
            conds = TRUE
            skip = []
            for c in g.ifs:
                cg = self.truth(self.ev(c, s), s)
                p0 = B.And(s.pc, B.Not(cg))
                if sat(p0):
                    s0 = s.copy()
                    s0.pc = p0
                    skip.append(s0)
                s.pc = B.And(s.pc, cg)
                if not sat(s.pc):
                    return self.merge_states(skip)
            self.comp_rec(gens, i + 1, s, fr, leaf, node)
            return self.merge_states([s] + skip) if s.pc != FALSE else self.merge_states(skip)

        r = self.iterate(st, itv, bind, body, fr, node, [])
        if r is None:
            st.pc = FALSE
        elif r is not st:
            st.pc, st.env, st.heap = r.pc, r.env, r.heap

    # -- boolean / compare

    def truth(self, v, st):
        g = FALSE
        for gg, t in v:
            g = B.Or(g, B.And(gg, self.truth_term(st, t)))
        return g

    def truth_term(self, st, t):
        if t.op == "const":
            return TRUE if cval(t) else FALSE
        if t.op == "gamma":
            return B.Or(*[B.And(g, self.truth_term(st, x)) for g, x in t.args[0]])
        if t.op == "cond":
            return t.args[0]
        o = self.ostate(st, t)
        if isinstance(o, LObj):
            g = FALSE
            for s in o.segs:
                if s[0] == "e":
                    return TRUE
                if s[0] == "c":
                    g = B.Or(g, s[1])
                else:
                    g = B.Or(g, self.star_nonempty(s[1]))
            return g
        if isinstance(o, DObj):
            g = FALSE
            for k, (p, v) in o.ent.items():
                g = B.Or(g, p)
            if o.base is not None and o.base.op in ("sym", "attr", "dict") and any(p == FALSE for p, _ in o.ent.values()):
                return B.Not(g_empty(self.snapshot(st, t)))     # a removed key may have been the only one
            if o.base is not None and o.base.op != "emptydict":
                g = B.Or(g, self.base_nonempty(o.base))
            return g
        if isinstance(o, IObj) and o.cls in self.classes:
            for nm in ("__bool__", "__len__"):
                m = self.class_lookup(st, o.cls, nm)
                if m is not None:
                    v = self.call_term(st, single(m[0]), [one(t)], {}, None)
                    return self.truth(v, st)
            if o.lazy is False or True:
                return TRUE
        return g_truthy(t)

    def base_nonempty(self, b):
        if b.op == "gamma":
            return B.Or(*[B.And(g, self.base_nonempty(x)) for g, x in b.args[0]])
        if b.op == "emptydict":
            return FALSE
        if b.op == "dictset":
            return TRUE
        if b.op == "folddict":
            return B.Or(self.base_nonempty(b.args[1]) if b.args[1].op != "dict" else TRUE,
                        B.Not(g_empty(b.args[0])))
        if b.op == "dict":
            g = FALSE
            for x in b.args[1:]:
                g = B.Or(g, x.args[0] if x.op == "cseg" else TRUE)
            if b.args[0] is not NONE:
                g = B.Or(g, self.base_nonempty(b.args[0]))
            return g
        return B.Not(B.Or(g_empty(b), g_isnone(b)))

    def star_nonempty(self, it):
        if it.op == "map":
            return g_exists(it.args[0], it.args[2])
        if it.op == "gamma":
            return B.Or(*[B.And(g, self.star_nonempty(x)) for g, x in it.args[0]])
        if it.op in ("list", "tuple", "set"):
            return B.Not(g_empty(it))
        return B.Not(B.Or(g_empty(it), g_isnone(it)))

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st)
        for x in e.values[1:]:
            if st.pc == FALSE:
                return v
            g = self.truth(v, st)
            cont = g if isand else B.Not(g)
            p1 = B.And(st.pc, cont)
            p0 = B.And(st.pc, B.Not(cont))
            if not sat(p1):
                return norm(v, st.pc)
            if not sat(p0):
                v = self.ev(x, st)
                continue
            s1 = st.copy()
            s1.pc = p1
            v1 = self.ev(x, s1)
            s0 = st.copy()
            s0.pc = p0
            v0 = norm(v, p0)
            # boolean result of a short-circuit keeps its value
            v = self.join_into(st, [(s1, v1), (s0, v0)])
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return vbool(B.Not(self.truth(v, st)))
        out = []
        for g, t in v:
            if is_const(t):
                try:
                    x = cval(t)
                    r = -x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x
                    out.append((g, const(r)))
                    continue
                except Exception:
                    pass
            out.append((g, T("un", type(e.op).__name__, t)))
        return norm(out, st.pc)

    def e_IfExp(self, e, st, fr):
        g = self.truth(self.ev(e.test, st), st)
        p1 = B.And(st.pc, g)
        p0 = B.And(st.pc, B.Not(g))
        if not sat(p1):
            return self.ev(e.orelse, st)
        if not sat(p0):
            return self.ev(e.body, st)
        s1 = st.copy()
        s1.pc = p1
        v1 = self.ev(e.body, s1)
        s0 = st.copy()
        s0.pc = p0
        v0 = self.ev(e.orelse, s0)
        return self.join_into(st, [(s1, v1), (s0, v0)])

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, fr, e)
        return v

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st)
        g = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            g = B.And(g, self.compare(st, type(op).__name__, left, right, e))
            left = right
        return vbool(g)

    def compare(self, st, op, a, b, node):
        neg = op in ("NotEq", "IsNot", "NotIn", "GtE", "LtE")
        base = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In", "GtE": "Lt", "LtE": "Gt"}.get(op, op)
        g = FALSE
        for g1, x in a:
            for g2, y in b:
                p = B.And(g1, g2)
                if p == FALSE or not sat(B.And(st.pc, p)):
                    continue
                g = B.Or(g, B.And(p, self.cmp_term(st, base, x, y, node)))
        return B.Not(g) if neg else g

    def cmp_term(self, st, op, x, y, node):
        if op == "Is":
            if x is y:
                return TRUE
            if x is NONE or y is NONE:
                return self.is_none(st, y if x is NONE else x)
            if rigid(x) and rigid(y):
                if x.op == "const" and y.op == "const":
                    return TRUE if (type(cval(x)) is type(cval(y)) and cval(x) == cval(y)) else FALSE
                return FALSE
            if x.op == "obj" and y.op == "obj":
                return FALSE
            if x.op == "typeof" or y.op == "typeof":
                return self.type_is(st, x, y)
            if y.op == "ext" or x.op == "ext":
                return g_eq(x, y)
            if rigid(x) or rigid(y):
                return g_eq(x, y)
            return tm.atom("is", *(sorted((x, y), key=lambda t: t.id)))
        if op == "Eq":
            if x.op == "typeof" or y.op == "typeof":
                return self.type_is(st, x, y)
            ox, oy = self.ostate(st, x), self.ostate(st, y)
            if isinstance(ox, IObj) and ox.cls in self.classes and not (ox.lazy and x is y):
                m = self.class_lookup(st, ox.cls, "__eq__")
                if m is not None:
                    v = self.call_term(st, single(m[0]), [one(x), one(y)], {}, node)
                    return self.truth(v, st)
                if y is NONE:
                    return FALSE
            if isinstance(ox, (LObj, DObj)) and isinstance(oy, (LObj, DObj)):
                sx, sy = self.snapshot(st, x), self.snapshot(st, y)
                if sx is sy:
                    return TRUE
                ex, ey = not self.truth_term(st, x) != FALSE, not self.truth_term(st, y) != FALSE
                if ey:
                    return B.Not(self.truth_term(st, x))
                if ex:
                    return B.Not(self.truth_term(st, y))
                return g_eq(sx, sy)
            if isinstance(oy, (LObj, DObj)):
                if self.truth_term(st, y) == FALSE:
                    return g_empty(x)
                if isinstance(oy, LObj) and x.op == "const":
                    return FALSE
                return g_eq(x, self.snapshot(st, y))
            if isinstance(ox, (LObj, DObj)):
                if self.truth_term(st, x) == FALSE:
                    return g_empty(y)
                if y.op == "const":
                    return FALSE
                return g_eq(self.snapshot(st, x), y)
            if x is NONE or y is NONE:
                return self.is_none(st, y if x is NONE else x)
            return g_eq(x, y)
        if op == "In":
            return self.contains(st, x, y, node)
        if op == "Lt":
            return self.lt(x, y)
        if op == "Gt":
            return self.lt(y, x)
        return tm.atom("cmp", op, x, y)

    def lt(self, x, y):
        # handle emptiness comparisons on conditional-length lists
        return g_lt(x, y)

    def is_none(self, st, t):
        o = self.ostate(st, t)
        if o is not None:
            return FALSE
        return g_isnone(t)

    def type_is(self, st, x, y):
        if y.op == "typeof" and x.op != "typeof":
            x, y = y, x
        if x.op == "typeof" and y.op == "typeof":
            return g_eq(x, y)
        k = self.type_key(y)
        if k is None:
            return g_eq(x, y)
        return self.isinst(st, x.args[0], k)

    def isinst(self, st, t, k):
        o = self.ostate(st, t)
        if isinstance(o, LObj):
            kk = "set" if o.kind == "frozenset" else o.kind
            return TRUE if k in (kk, "object") else FALSE
        if isinstance(o, DObj):
            if typeof(t) == "dict" or t.op == "obj":
                return TRUE if k in ("dict", "object") else FALSE
        if isinstance(o, IObj) and o.cls.startswith("ext:"):
            return TRUE if k == "object" or k.rsplit(".", 1)[-1] == o.cls.rsplit(".", 1)[-1] else FALSE
        return g_isinst(t, k)

    def contains(self, st, x, y, node):
        if y.op == "gamma":
            return B.Or(*[B.And(g, self.contains(st, x, z, node)) for g, z in y.args[0]])
        o = self.ostate(st, y)
        if isinstance(o, IObj) and o.cls in self.classes:
            m = self.class_lookup(st, o.cls, "__contains__")
            if m is not None:
                return self.truth(self.call_term(st, single(m[0]), [one(y), one(x)], {}, node), st)
        if isinstance(o, DObj):
            return self.dict_contains(st, y, o, x)
        if isinstance(o, LObj):
            g = FALSE
            for s in o.segs:
                if s[0] == "e":
                    for g2, z in s[1]:
                        g = B.Or(g, B.And(g2, self.cmp_term(st, "Eq", x, z, node)))
                elif s[0] == "c":
                    for g2, z in s[2]:
                        g = B.Or(g, B.And(s[1], g2, self.cmp_term(st, "Eq", x, z, node)))
                else:
                    g = B.Or(g, self.star_contains(st, x, s[1], node))
            return g
        if is_const(x) and is_const(y):
            try:
                return TRUE if cval(x) in cval(y) else FALSE
            except Exception:
                return FALSE
        if y.op == "dictview" and y.args[1] == "keys":
            return self.contains(st, x, y.args[0], node)
        if y.op == "range":
            return tm.atom("in", x, y)
        return g_in(x, y)

    def star_contains(self, st, x, it, node):
        if it.op == "map":
            base, val, cond = it.args
            e = FALSE
            for g, z in from_term(val):
                e = B.Or(e, B.And(g, self.cmp_term(st, "Eq", x, z, node)))
            return g_exists(base, B.And(cond, e))
        if it.op in ("list", "tuple", "set"):
            g = FALSE
            for s in self.segs_of_struct(it):
                if s[0] == "e":
                    g = B.Or(g, *[B.And(g2, self.cmp_term(st, "Eq", x, z, node)) for g2, z in s[1]])
                elif s[0] == "c":
                    g = B.Or(g, B.And(s[1], B.Or(*[B.And(g2, self.cmp_term(st, "Eq", x, z, node)) for g2, z in s[2]])))
                else:
                    g = B.Or(g, self.star_contains(st, x, s[1], node))
            return g
        if it.op == "gamma":
            return B.Or(*[B.And(g, self.star_contains(st, x, z, node)) for g, z in it.args[0]])
        if it.op == "call" and it.args[0].op in ("meth", "attr") and it.args[0].args[1] == "keys":
            return g_in(x, it.args[0].args[0])
        return g_in(x, it)

    # -- arithmetic

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(st, type(e.op).__name__, a, b, e)

    OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "BitXor": "^",
           "BitOr": "|", "BitAnd": "&", "LShift": "<<", "RShift": ">>", "Pow": "**", "MatMult": "@"}

    def binop(self, st, op, a, b, node):
        o = self.OPS[op]
        out = []
        if len(a) * len(b) > 48:
            a, b = one(as_term(a, st.pc)), one(as_term(b, st.pc))
        for g1, x in a:
            for g2, y in b:
                p = B.And(g1, g2)
                if p == FALSE or not sat(B.And(st.pc, p)):
                    continue
                out += [(B.And(p, g3), z) for g3, z in self.binop_term(st, o, x, y, node)]
        return norm(out, st.pc) or one(top("binop"))

    def binop_term(self, st, o, x, y, node):
        if is_const(x) and is_const(y):
            try:
                a, b = cval(x), cval(y)
                if o == "*" and ((isinstance(a, int) and isinstance(b, (bytes, str)) and a > 4096) or
                                 (isinstance(b, int) and isinstance(a, (bytes, str)) and b > 4096)):
                    raise ValueError
                if o == "**" and (not isinstance(b, int) or b > 600):
                    raise ValueError
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                     "//": lambda: a // b, "%": lambda: a % b, "^": lambda: a ^ b, "|": lambda: a | b,
                     "&": lambda: a & b, "<<": lambda: a << b, ">>": lambda: a >> b, "**": lambda: a ** b}[o]()
                return vconst(r)
            except Exception:
                return one(T("bin", o, x, y))
        ox, oy = self.ostate(st, x), self.ostate(st, y)
        if o == "+" and isinstance(ox, LObj) and isinstance(oy, LObj):
            return one(self.new_obj(st, LObj(ox.kind, ox.segs + oy.segs)))
        if o == "+" and isinstance(ox, LObj):
            return one(self.new_obj(st, LObj(ox.kind, ox.segs + (("s", y),))))
        if o == "+" and isinstance(oy, LObj):
            return one(self.new_obj(st, LObj(oy.kind, (("s", x),) + oy.segs)))
        if o == "*" and isinstance(ox, LObj) and is_const(y) and isinstance(cval(y), int) and cval(y) <= 64:
            return one(self.new_obj(st, LObj(ox.kind, ox.segs * cval(y))))
        if o == "|" and isinstance(ox, DObj):
            t = self.new_obj(st, DObj(ox.base, dict(ox.ent)))
            self.dict_update(st, t, one(y), node)
            return one(t)
        if o in ("&", "|", "-") and isinstance(ox, LObj):
            return self.setop(st, {"&": "intersection", "|": "union", "-": "difference"}[o], x, y, node)
        if o == "&" and isinstance(oy, LObj):
            return self.setop(st, "intersection", y, x, node)
        if o == "%" and typeof(x) == "str":
            return one(T("fstr", x, self.snapshot(st, y)))
        sx, sy = self.snapshot(st, x), self.snapshot(st, y)
        # -1 * x
        if o in ("^", "&", "|", "*") or (o == "+" and typeof(sx) == "int" and typeof(sy) == "int"):
            if o != "*" or not (typeof(sx) in ("bytes", "str", "list")):
                if (is_const(sx), sx.id) > (is_const(sy), sy.id) and typeof(sx) not in ("bytes", "str") and typeof(sy) not in ("bytes", "str"):
                    sx, sy = sy, sx
        tx, ty = typeof(sx), typeof(sy)
        if o == "+" and "bytes" in (tx, ty) and {tx, ty} <= {"bytes", None}:
            return one(extsig.bcat([sx, sy]))
        if o == "*" and tx == "bytes" and (ty in ("int", None)):
            return one(T("rep", sx, sy))
        if o == "*" and ty == "bytes" and (tx in ("int", None)):
            return one(T("rep", sy, sx))
        if o == "^" and {tx, ty} == {"bytes"}:
            return one(top("bytes^bytes"))
        if o == "+" and sy.op == "const" and cval(sy) in (b"", ""):
            return one(sx)
        if o == "+" and sx.op == "const" and cval(sx) in (b"", ""):
            return one(sy)
        if o == "//" and is_const(sy) and cval(sy) == 8 and False:
            pass
        return one(T("bin", o, sx, sy))

    def setop(self, st, name, x, y, node):
        ox = self.ostate(st, x)
        if not isinstance(ox, LObj):
            return one(T("call", attr_t(x, name), (y,), ()))
        if name == "union":
            return one(self.new_obj(st, LObj("set", ox.segs + tuple(self.spine(st, y, node)))))
        segs = []
        for s in ox.segs:
            if s[0] == "s":
                return one(T("call", attr_t(self.snapshot(st, x), name), (self.snapshot(st, y),), ()))
            v = s[-1]
            pg = TRUE if s[0] == "e" else s[1]
            inn = FALSE
            for g, t in v:
                inn = B.Or(inn, B.And(g, self.contains(st, t, y, node)))
            g = B.And(pg, inn if name == "intersection" else B.Not(inn))
            if g == TRUE:
                segs.append(("e", v))
            elif g != FALSE:
                segs.append(("c", g, v))
        return one(self.new_obj(st, LObj("set", segs)))

    # -- strings / misc

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                xs = self.snapv(st, x)
                conv = v.conversion
                parts.append(T("fmt", xs) if not (is_const(xs) and isinstance(cval(xs), str)) else xs)
        if all(is_const(p) for p in parts):
            return vconst("".join(cval(p) for p in parts))
        t = T("fstr", *parts)
        self.emit(st, "format", "fstr", e, args=[t], result=t)
        return one(t)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st) if e.value else one(NONE)
        if fr.yields is not None:
            o = st.heap[fr.yields]
            st.heap[fr.yields] = LObj("list", o.segs + (("e", v),))
        return one(NONE)

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st)
        if fr.yields is not None:
            o = st.heap[fr.yields]
            st.heap[fr.yields] = LObj("list", o.segs + tuple(self.spine_val(st, v, e)))
        return one(NONE)

    # ---------------------------------------------------------------- calls

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            return self.do_super(e, st, fr)
        fv = self.ev(e.func, st)
        args = []
        kw = {}
        unknown_kw = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                for s in self.spine_val(st, v, a):
                    if s[0] == "e":
                        args.append(s[1])
                    elif s[0] == "s":
                        args.append(one(T("star", s[1])))
                    else:
                        args.append(one(T("cseg", s[1], as_term(s[2]))))
            else:
                args.append(self.ev(a, st))
            if st.pc == FALSE:
                return one(top("dead"))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                t = single(v)
                o = self.ostate(st, t) if t is not None else None
                if isinstance(o, DObj):
                    for kk, (p, vv) in o.ent.items():
                        if is_const(kk) and isinstance(cval(kk), str) and p != FALSE:
                            kw[cval(kk)] = vv
                    if o.base is not None and o.base.op != "emptydict":
                        kw["**"] = one(o.base)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
            if st.pc == FALSE:
                return one(top("dead"))
        fr.callnode = e
        return self.call_val(st, fv, args, kw, e)

    def do_super(self, e, st, fr):
        if e.args:
            c = single(self.ev(e.args[0], st))
            o = self.ev(e.args[1], st)
            if c is None or c.op != "class":
                return one(top("super"))
            return tuple((g, T("super", c.args[0], t)) for g, t in o)
        f = fr
        if f.selfterm is None:
            # comprehension frames share; nested functions: look outward
            for g in reversed(self.frames):
                if g.selfterm is not None:
                    f = g
                    break
        if f.selfterm is None or f.owner is None:
            return one(top("super"))
        return one(T("super", f.owner, f.selfterm))

    def call_val(self, st, fv, args, kw, node):
        fv = norm(fv, st.pc) if len(fv) > 1 else fv
        if len(fv) == 1 and fv[0][1].op != "gamma":
            return self.call_term(st, fv[0][1], args, kw, node)
        flat = []
        for g, t in fv:
            if t.op == "gamma":
                flat += [(B.And(g, g2), t2) for g2, t2 in t.args[0]]
            else:
                flat.append((g, t))
        flat = norm(flat, st.pc)
        # symbolic method on a guarded receiver: keep one opaque virtual call
        if len(flat) > 1 and all(t.op == "attr" and t.args[0].op in ("item", "sym", "attr", "call", "elem") for _, t in flat) and \
                len({t.args[1] for _, t in flat}) == 1 and flat[0][1].args[1] not in MUTATORS:
            recv = as_term(tuple((g, t.args[0]) for g, t in flat), st.pc)
            return self.call_term(st, attr_t(recv, flat[0][1].args[1]), args, kw, node)
        return self.over(st, tuple(flat), lambda s, t: self.call_term(s, t, args, kw, node))

    def call_method(self, st, ov, name, args, kw, node):
        f = self.getattr_val(st, ov, name, node)
        return self.call_val(st, f, args, kw, node)

    def call_term(self, st, t, args, kw, node):
        if st.pc == FALSE:
            return one(top("dead"))
        op = t.op
        if node is not None and not self.mute:
            self.stat_calls.add((self.frames[-1].module if self.frames else "?", getattr(node, "lineno", 0),
                                 getattr(node, "col_offset", 0)))
        if op == "func":
            return self.call_func(st, t, args, kw, node)
        if op == "bound":
            return self.call_func(st, t.args[0], [one(t.args[1])] + args, kw, node)
        if op == "class":
            return self.instantiate(st, t, args, kw, node)
        if op == "ext":
            return self.call_ext(st, t, args, kw, node)
        if op == "meth" and t.args[0].op == "fresh":
            o = self.ostate(st, t.args[0])
            if isinstance(o, LObj) and o.kind == "stream":
                r = self.stream_method(st, t.args[0], o, t.args[1], args, kw, node)
                return r if r is not None else self.opaque_call(st, t, args, kw, node)
        if op == "meth":
            return self.b_method(st, t.args[0], t.args[1], args, kw, node)
        if op == "attr":
            return self.call_attr(st, t, args, kw, node)
        if op in ("cm", "sm"):
            return self.call_term(st, t.args[0], args, kw, node)
        if op == "propwith" and args:
            fg, fs, fd = self.props[t.args[0]]
            f = single(args[0])
            return one(self.new_prop(*{"setter": (fg, f, fd), "getter": (f, fs, fd), "deleter": (fg, fs, f)}[t.args[1]]))
        if op == "partial":
            pa = [from_term(x) for x in t.args[1]]
            pk = {k: from_term(v) for k, v in t.args[2]}
            pk.update(kw)
            return self.call_term(st, t.args[0], pa + args, pk, node)
        if op == "top":
            return one(top("call-of-top"))
        if op == "const":
            self.raise_builtin(st, TRUE, "TypeError", "'%s' object is not callable" % t.args[0], node, True)
            return one(top("notcallable"))
        o = self.ostate(st, t)
        if isinstance(o, IObj) and o.cls in self.classes:
            m = self.class_lookup(st, o.cls, "__call__")
            if m is not None:
                return self.call_term(st, single(m[0]), [one(t)] + args, kw, node)
        return self.opaque_call(st, t, args, kw, node)

    def opaque_call(self, st, t, args, kw, node, name=None, fresh=False):
        at = [self.snapv(st, a) for a in args]
        kd = {k: self.snapv(st, v) for k, v in kw.items()}
        if not any(x.op == "star" for x in at) and "**" not in kd:
            at, kd = extsig.canon(t, at, kd, node)
        kt = sorted(kd.items())
        if t.op == "ext" and t.args[0] in extsig.ALIAS:
            t = ext(extsig.ALIAS[t.args[0]])
        stream = None
        if t.op == "ext":
            nm0 = t.args[0]
            if nm0.startswith("cryptography.") and nm0.rsplit(".", 1)[-1] in extsig.STREAM_EXT:
                stream = []
            elif nm0.startswith("hashlib.") and nm0[8:] in extsig.HASHLIB:
                stream, at, kt = list(at), [], []
        elif t.op in ("attr", "meth") and t.args[1] in extsig.STREAM_METH and "Cipher" in extsig.ctor_names(t.args[0]):
            stream = []
        r = call_t(t, at, kt)
        if stream is not None:
            self.alloc += 1
            r = T("fresh", self.alloc, r, T("loops", *tuple(l for f in self.frames for l in f.loops)))
            st.heap[r] = LObj("stream", [("e", one(x)) for x in stream])
        if fresh:
            self.alloc += 1
            loops = tuple(l for f in self.frames for l in f.loops)
            r = T("fresh", self.alloc, r, T("loops", *loops))
        nm = name or (t.args[0] if t.op == "ext" else ("." + t.args[1] if t.op in ("attr", "meth") else "?"))
        if extsig.RESULT:
            ty = extsig.RESULT.get(nm.rsplit(".", 1)[-1])
            if ty is not None:
                TYPES[r] = ty
        self.emit(st, "call", nm, node, callee=t, args=at, kw=dict(kt), argvals=args, kwvals=kw, result=r,
                  recv=t.args[0] if t.op in ("attr", "meth") else None)
        self.may_raise(st, r, node)
        return one(r)

    def call_attr(self, st, t, args, kw, node):
        recv, name = t.args
        if recv.op == "fresh":
            o = st.heap.get(recv)
            if isinstance(o, LObj) and o.kind == "stream":
                r = self.stream_method(st, recv, o, name, args, kw, node)
                if r is not None:
                    return r
        mm = self.meth_models.get(name)
        if mm is not None:
            r = mm(self, st, recv, name, args, kw, node)
            if r is not None:
                return r
        extish = recv.op == "call" or recv.op == "fresh" or (recv.op == "attr" and self.root_ext(recv))
        if not extish and not kw:
            if name == "__contains__" and len(args) == 1:
                return vbool(B.Or(*[B.And(p, self.contains(st, k, recv, node)) for p, k in args[0]]))
            if name == "__getitem__" and len(args) == 1:
                return self.getitem(st, one(recv), args[0], node)
            if name == "__setitem__" and len(args) == 2:
                self.setitem(st, one(recv), args[0], args[1], node)
                return one(NONE)
            if name == "__iter__" and not args:
                return one(T("iter", recv))
            if name == "__len__" and not args:
                return self.call_ext(st, ext("len"), [one(recv)], {}, node)
        if not extish or typeof(recv) in ("bytes", "str", "int", "list", "dict"):
            if name in ("get", "items", "keys", "values", "update", "setdefault", "append", "extend", "insert", "pop",
                        "add", "discard", "remove", "clear", "copy", "popitem", "sort", "union", "intersection",
                        "isdisjoint", "issubset", "startswith", "endswith", "hex", "upper", "lower", "encode", "decode",
                        "to_bytes", "join", "replace", "strip") and not (name in ("encode", "decode") and (
                            len(args) > 1 or kw or typeof(recv) is None)):
                return self.b_method(st, recv, name, args, kw, node)
        return self.opaque_call(st, t, args, kw, node, fresh=name in FRESH_METHODS)

    def stream_method(self, st, recv, o, name, args, kw, node):
        """Incremental primitives: remember what was fed, finalise to one term."""
        ctor = recv.args[1]
        cipher = ctor.op == "call" and ctor.args[0].op in ("attr", "meth")

        def joined(segs):
            out = []
            for sg in segs:
                if sg[0] == "e":
                    out.append(as_term(sg[1], st.pc))
                elif sg[0] == "c":
                    out.append(T("cseg", sg[1], as_term(sg[2], st.pc)))
                else:
                    out.append(T("star", sg[1]))
            if all(x.op not in ("cseg", "star") for x in out):
                return extsig.bcat(out)
            return T("chunks", *out)

        def fin(op, data):
            r = T("call", ext(op), (ctor, data), ())
            TYPES[r] = "bytes"
            return r

        if name == "update" and (args or kw):
            d = args[0] if args else list(kw.values())[0]
            dt = self.snapv(st, d)
            self.emit(st, "call", ".update", node, callee=T("attr", recv, name), args=[dt], argvals=args, kwvals=kw,
                      recv=recv)
            if cipher:
                before = joined(o.segs)
                st.heap[recv] = LObj("stream", o.segs + (("e", one(dt)),))
                r = fin("stream.output", joined(o.segs + (("e", one(dt)),)))
                if before is not EMPTYB:
                    n = extsig.known_len(before)
                    if n is None:
                        r = T("streampart", ctor, before, dt)
                        TYPES[r] = "bytes"
                    else:
                        return one(extsig.bslice(r, const(n), NONE, NONE) or T("slice", r, const(n), NONE, NONE))
                self.may_raise(st, r, node)
                return one(r)
            st.heap[recv] = LObj("stream", o.segs + (("e", one(dt)),))
            return one(NONE)
        if name in ("finalize", "digest", "hexdigest") and not args and not kw:
            if cipher:
                r = EMPTYB      # block modes without padding emit everything in update()
                self.emit(st, "call", ".finalize", node, callee=T("attr", recv, name), args=[ctor, joined(o.segs)],
                          result=fin("stream.output", joined(o.segs)), recv=recv)
                return one(r)
            r = fin("stream.digest", joined(o.segs))
            self.emit(st, "call", "." + name, node, callee=T("attr", recv, name), args=[ctor, joined(o.segs)], result=r,
                      recv=recv)
            if name == "hexdigest":
                r = T("hex", r)
                TYPES[r] = "str"
            return one(r)
        if name == "copy" and not args:
            self.alloc += 1
            n = T("fresh", self.alloc, ctor, recv.args[2])
            st.heap[n] = LObj("stream", o.segs)
            return one(n)
        if name == "verify" and len(args) == 1:
            d = fin("stream.digest", joined(o.segs))
            v = self.snapv(st, args[0])
            self.emit(st, "call", ".verify", node, callee=T("attr", recv, name), args=[v], recv=recv, result=d)
            self.do_raise(st, B.Not(g_eq(d, v)), T("call", ext("cryptography.exceptions.InvalidSignature"), (), ()), node)
            return one(NONE)
        return None

    def root_ext(self, t):
        while t.op in ("attr", "call", "meth"):
            t = t.args[0]
        return t.op == "ext"

    def bind_params(self, st, fi, args, kw, node):
        a = fi.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        extra_kw = kw.pop("**", None)
        npos = len(pos)
        varargs = args[npos:]
        star_in = [i for i, x in enumerate(args) if single(x) is not None and single(x).op == "star"]
        if star_in and star_in[0] < npos:
            i0 = star_in[0]
            src = single(args[i0]).args[0]
            # unknown number of positionals: parameters after it become unknown elements
            args = args[:i0]
            varargs = [one(T("star", src))]
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
                if n in kw:
                    self.raise_builtin(st, TRUE, "TypeError", "multiple values for argument '%s'" % n, node, True)
                    return None
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                di = i - (npos - len(fi.defaults))
                if di >= 0:
                    env[n] = fi.defaults[di]
                elif extra_kw is not None or star_in:
                    env[n] = one(top("unknown-arg"))
                else:
                    self.raise_builtin(st, TRUE, "TypeError", "%s() missing required argument '%s'" % (fi.name, n), node, True)
                    return None
        if a.vararg:
            env[a.vararg.arg] = one(self.new_obj(st, LObj("tuple", [
                ("s", single(v).args[0]) if single(v) is not None and single(v).op == "star" else ("e", v) for v in varargs])))
        elif varargs and not star_in:
            self.raise_builtin(st, TRUE, "TypeError", "%s() takes too many positional arguments" % fi.name, node, True)
            return None
        for x, d in zip(a.kwonlyargs, fi.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d
            else:
                self.raise_builtin(st, TRUE, "TypeError", "%s() missing keyword argument '%s'" % (fi.name, x.arg), node, True)
                return None
        if a.kwarg:
            base = single(extra_kw) if extra_kw is not None else None
            env[a.kwarg.arg] = one(self.new_obj(st, DObj(base, {const(k): (TRUE, v) for k, v in kw.items()})))
        elif kw:
            self.raise_builtin(st, TRUE, "TypeError", "%s() got an unexpected keyword argument '%s'" % (fi.name, sorted(kw)[0]), node, True)
            return None
        return env

    def call_func(self, st, ft, args, kw, node):
        fi = self.funcs[ft]
        depth = len(self.frames)
        if fi.qual in self.opaque_funcs:
            return self.opaque_call(st, ft, args, kw, node, name=fi.qual)
        rec = sum(1 for f in self.frames if f.func is fi)
        if depth > MAXDEPTH or rec >= RECLIMIT:
            # the analysis stops here: the outcome is lost, not known to be something else
            return self.opaque_call(st, T("attr", top("recursion"), fi.qual), args, kw, node, name="recursion:" + fi.qual)
        env = self.bind_params(st, fi, args, kw, node)
        if env is None:
            return one(top("badcall"))
        fr = Frame(fi, fi.module)
        fr.owner = fi.owner
        pos = fi.node.args.posonlyargs + fi.node.args.args
        if pos and pos[0].arg in env:
            t0 = single(env[pos[0].arg])
            fr.selfterm = t0
        if not self.mute:
            self.stat_funcs.add(fi.qual)
        caller_env = st.env
        st2 = State(st.pc, env, st.heap)
        if isinstance(fi.node, ast.Lambda):
            fr.cur = st2
            self.frames.append(fr)
            v = self.ev(fi.node.body, st2)
            self.frames.pop()
            st.pc, st.heap = st2.pc, st2.heap
            return v
        if fi.isgen:
            fr.yields = self.new_obj(st2, LObj("list", ()))
        self.frames.append(fr)
        out = self.exec_block(fi.node.body, st2, fr)
        self.frames.pop()
        if hasattr(self, "_lstk"):
            self._lstk.pop(id(fr), None)
        rets = [(s, v) for s, v, n in fr.returns]
        if out is not None and out.pc != FALSE:
            rets.append((out, one(NONE)))
        rets = [(s, v) for s, v in rets if sat(s.pc)]
        if not rets:
            st.pc = FALSE
            return one(top("noreturn"))
        if len(rets) == 1:
            s, v = rets[0]
            st.pc, st.heap = s.pc, s.heap
            r = v
        else:
            seen = FALSE
            fixed = []
            for s, v in rets:
                p = B.And(s.pc, B.Not(seen))
                if sat(p):
                    fixed.append((State(p, {}, s.heap), v))
                    seen = B.Or(seen, p)
            tmp = State(st.pc, {}, st.heap)
            r = self.join_into(tmp, fixed)
            st.pc, st.heap = tmp.pc, tmp.heap
        if fi.isgen:
            r = one(fr.yields)
        return r

    def instantiate(self, st, ct, args, kw, node):
        q = ct.args[0]
        ci = self.classes[q]
        # exception classes
        if any(m == "ext:builtins.Exception" or (m.startswith("ext:builtins.") and exc_builtin(m[13:])) for m in ci.mro):
            t = self.new_obj(st, IObj(q, {"args": one(self.new_obj(st, LObj("tuple", [("e", a) for a in args])))}))
            self.emit(st, "excnew", ci.name, node, args=[self.snapv(st, a) for a in args])
            return one(t)
        t = self.new_obj(st, IObj(q, {}))
        af = None
        for m in ci.mro:
            if m in self.classes and self.classes[m].attrs_fields is not None:
                af = self.classes[m].attrs_fields
                break
        if af is not None and self.class_lookup(st, q, "__init__") is None:
            self.attrs_init(st, t, q, af, args, kw, node)
            return one(t)
        m = self.class_lookup(st, q, "__init__")
        if m is not None:
            self.call_term(st, single(m[0]), [one(t)] + args, kw, node)
        elif args or kw:
            if not self.has_ext_base(q):
                self.raise_builtin(st, TRUE, "TypeError", "%s() takes no arguments" % ci.name, node, True)
        self.emit(st, "new", q, node, args=[t])
        return one(t)

    def attrs_init(self, st, t, q, fields, args, kw, node):
        args = list(args)
        kw = dict(kw)
        for nm, dv in fields:
            pn = nm.lstrip("_")
            if args:
                v = args.pop(0)
            elif pn in kw:
                v = kw.pop(pn)
            elif dv is None:
                self.raise_builtin(st, TRUE, "TypeError", "missing " + pn, node, True)
                return
            else:
                d = single(dv)
                if d is not None and d.op == "attrib":
                    k = dict(d.args[0])
                    if "default" in k:
                        v = from_term(k["default"])
                    elif "factory" in k:
                        v = self.call_term(st, k["factory"], [], {}, node)
                    else:
                        self.raise_builtin(st, TRUE, "TypeError", "missing " + pn, node, True)
                        return
                else:
                    v = dv
            self.set_field(st, t, nm, v)
        if args or kw:
            self.raise_builtin(st, TRUE, "TypeError", "unexpected arguments for " + q, node, True)
            return
        pi = self.class_lookup(st, q, "__attrs_post_init__") or self.class_lookup(st, q, "__post_init__")
        if pi is not None:
            self.call_term(st, single(pi[0]), [one(t)], {}, node)

    # ---------------------------------------------------------------- entry

    def run(self, fterm, args, kw=None, st=None, listener=None):
        """Analyse one entry point.  Returns Result."""
        if st is None:
            st = self.fresh_state()
        events = []
        fr = Frame(None, "<rule>")
        fr.cur = st
        self.frames.append(fr)
        col = Collector(None)
        self.handlers.append(col)

        def lis(e, s):
            events.append(e)
            if listener:
                listener(e, s)

        self.listeners.append(lis)
        try:
            v = self.call_term(st, fterm, list(args), dict(kw or {}), None)
        finally:
            self.listeners.pop()
            self.handlers.pop()
            self.frames.pop()
        return Result(v, st.pc, st, col.entries, events)

    def method(self, st, ov, name, args=(), kw=None, listener=None):
        """Analyse obj.name(*args)."""
        events = []
        fr = Frame(None, "<rule>")
        fr.cur = st
        self.frames.append(fr)
        col = Collector(None)
        self.handlers.append(col)

        def lis(e, s):
            events.append(e)
            if listener:
                listener(e, s)

        self.listeners.append(lis)
        try:
            v = self.call_method(st, ov, name, list(args), dict(kw or {}), None)
        finally:
            self.listeners.pop()
            self.handlers.pop()
            self.frames.pop()
        return Result(v, st.pc, st, col.entries, events)

    def getter(self, st, ov, name):
        """Value of a public attribute without disturbing st (pure read)."""
        s2 = st.copy()
        fr = Frame(None, "<rule>")
        fr.cur = s2
        self.frames.append(fr)
        self.handlers.append(Collector(None))
        self.mute += 1
        try:
            v = self.getattr_val(s2, ov, name, None)
        finally:
            self.mute -= 1
            self.handlers.pop()
            self.frames.pop()
        return v, s2

    def setter(self, st, ov, name, v):
        fr = Frame(None, "<rule>")
        fr.cur = st
        self.frames.append(fr)
        col = Collector(None)
        self.handlers.append(col)
        self.mute += 1
        try:
            self.setattr_val(st, ov, name, v, None)
        finally:
            self.mute -= 1
            self.handlers.pop()
            self.frames.pop()
        return col.entries

    def fresh_state(self):
        return State(TRUE, {}, dict(self.st.heap))

    def clsterm(self, q):
        if q not in self.classes:
            raise AnalysisError("anchor vanished: class %s" % q)
        return cls(q)

    def find_class(self, name, base=None):
        c = [q for q in self.classes if q.split(".")[-1] == name]
        if base:
            c = [q for q in c if self.subclass(q, base)]
        if len(c) != 1:
            raise AnalysisError("anchor vanished: class %s (%s)" % (name, c))
        return c[0]


def _is_gen(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


from .builtins_model import install  # noqa: E402

install(Interp)
