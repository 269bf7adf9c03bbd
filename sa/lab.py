"""Contexts in which the rules ask the value-flow engine their questions.

A context is an abstract object graph: instances of public classes about which
nothing is assumed except what the public API was used to set.
"""
import ast
import os

from . import engine as en
from . import extsig
from . import terms as tm
from .engine import Interp, DObj, LObj, IObj, State, AnalysisError, Collector, Frame
from .terms import *     # noqa
from .bdd import TRUE, FALSE

SPEC = "__spec__"


class Lab:
    def __init__(self, root):
        self.I = Interp(root)
        self.root = root
        here = os.path.dirname(os.path.abspath(__file__))
        p = os.path.join(here, "spec.py")
        with open(p, encoding="utf-8") as fh:
            self.I.sources[SPEC] = (p, ast.parse(fh.read(), p))
        col = Collector(None)
        self.I.handlers.append(col)
        self.I.mute += 1
        self.I.load_module(SPEC)
        self.I.mute -= 1
        self.I.handlers.pop()
        if col.entries or self.I.st.pc == FALSE:
            raise AnalysisError("anchor vanished: public names used by the specification cannot be imported: %s" %
                                [show(e[3]) for e in col.entries])
        self.stats = {"contexts": 0, "sites": set(), "obligations": 0, "discharged": 0, "undecided": []}
        self._names = {}
        self.watch = None
        self.base = None        # the state questions start from (None: nothing happened before)

    # ---------------------------------------------------------- public names

    def name(self, dotted):
        """Value of a public name, e.g. 'pycose.messages.Sign1Message'."""
        r = self._names.get(dotted)
        if r is not None:
            return r
        mod, n = dotted.rsplit(".", 1)
        o = self.I.st.heap.get(T("module", mod))
        if o is None or n not in o.fields:
            raise AnalysisError("anchor vanished: %s" % dotted)
        t = single(o.fields[n])
        if t is None or t.op not in ("class", "func", "obj", "const"):
            raise AnalysisError("anchor vanished: %s is %s" % (dotted, t and show(t)))
        self._names[dotted] = t
        return t

    def q(self, dotted):
        t = self.name(dotted)
        if t.op != "class":
            raise AnalysisError("anchor vanished: %s is not a class" % dotted)
        return t.args[0]

    def spec(self, fname):
        o = self.I.st.heap[T("module", SPEC)]
        t = single(o.fields[fname])
        return t

    def ctx(self):
        self.stats["contexts"] += 1
        extsig.LENS.clear()
        extsig.DUMPS_LEN[0] = None
        return Ctx(self)

    def subclasses(self, dotted):
        return self.I.subclasses_of(self.q(dotted))


class Ctx:
    def __init__(self, lab, st=None):
        self.lab = lab
        self.I = lab.I
        self.st = st or (lab.I.fresh_state() if lab.base is None else lab.base.copy())

    def fork(self):
        return Ctx(self.lab, self.st.copy())

    # ------------------------------------------------------------ primitives

    def _muted(self, f):
        fr = Frame(None, "<rule>")
        fr.cur = self.st
        self.I.frames.append(fr)
        col = Collector(None)
        self.I.handlers.append(col)
        self.I.mute += 1
        try:
            v = f()
        finally:
            self.I.mute -= 1
            self.I.handlers.pop()
            self.I.frames.pop()
        return v, col.entries

    def do(self, f, what):
        """Run a set-up step through the public API; only its normal outcome is kept."""
        v, raises = self._muted(f)
        if self.st.pc == FALSE or not sat(self.st.pc):
            raise AnalysisError("context cannot be built: %s always raises %s" % (
                what, sorted({self.I.exc_name(e[3]) for e in raises})))
        return v

    def inst(self, dotted, name):
        """Any instance of a public class, in any state."""
        return sym(name, "inst:" + self.lab.q(dotted))

    def get(self, obj, name):
        v, s2 = self.I.getter(self.st, one(obj) if isinstance(obj, Term) else obj, name)
        return v

    def get1(self, obj, name):
        return as_term(self.get(obj, name), self.st.pc)

    def set(self, obj, name, v):
        v = v if isinstance(v, tuple) else one(v)
        self.do(lambda: self.I.setattr_val(self.st, one(obj), name, v, None), "%s.%s = ..." % (show(obj), name))

    def callm(self, obj, name, *args, **kw):
        a = [x if isinstance(x, tuple) else one(x) for x in args]
        k = {n: (x if isinstance(x, tuple) else one(x)) for n, x in kw.items()}
        return self.do(lambda: self.I.call_method(self.st, one(obj) if isinstance(obj, Term) else obj, name, a, k, None),
                       "%s.%s()" % (show(obj) if isinstance(obj, Term) else "?", name))

    def new(self, dotted, *args, **kw):
        a = [x if isinstance(x, tuple) else one(x) for x in args]
        k = {n: (x if isinstance(x, tuple) else one(x)) for n, x in kw.items()}
        c = self.lab.name(dotted) if isinstance(dotted, str) else dotted
        v = self.do(lambda: self.I.call_term(self.st, c, a, k, None), "%s(...)" % dotted)
        t = single(v)
        if t is None:
            raise AnalysisError("constructor of %s yields several objects" % dotted)
        return t

    def setitem(self, obj, k, v):
        self.do(lambda: self.I.setitem(self.st, one(obj), one(k), v if isinstance(v, tuple) else one(v), None),
                "item assignment")

    def getitem1(self, obj, k):
        return as_term(self.I.getitem(self.st, one(obj), one(k), None), self.st.pc)

    def list(self, *elts):
        return self.I.new_obj(self.st, LObj("list", [("e", x if isinstance(x, tuple) else one(x)) for x in elts]))

    def dict(self, items=(), base=None):
        return self.I.new_obj(self.st, DObj(base, {k: (TRUE, v if isinstance(v, tuple) else one(v)) for k, v in items}))

    # ------------------------------------------------------------ running

    def run(self, obj, meth, *args, **kw):
        """Analyse obj.meth(...): the question of a rule."""
        a = [x if isinstance(x, tuple) else one(x) for x in args]
        k = {n: (x if isinstance(x, tuple) else one(x)) for n, x in kw.items()}
        n0 = len(self.I.internal_errors)
        if meth == "__call__":
            r = self.I.run(obj, a, k, self.st)
        else:
            r = self.I.method(self.st, one(obj) if isinstance(obj, Term) else obj, meth, a, k)
        r.internal = self.I.internal_errors[n0:]
        del self.I.internal_errors[n0:]
        self._left(r)
        for e in r.events:
            if e.kind == "call":
                self.lab.stats["sites"].add((e.module, getattr(e.node, "lineno", 0), getattr(e.node, "col_offset", 0)))
        return r

    def _left(self, r):
        w = self.lab.watch
        if w is not None:
            w.see(r.state.heap, r.pc)
            for e in r.raises:
                w.see(e[2], e[0])

    def runset(self, obj, name, v):
        """Analyse obj.name = v."""
        return self._q(lambda: self.I.setattr_val(self.st, one(obj), name, v if isinstance(v, tuple) else one(v), None))

    def runget(self, obj, name):
        return self._q(lambda: self.I.getattr_val(self.st, one(obj), name, None))

    def rundel(self, obj, k):
        return self._q(lambda: self.I.delitem(self.st, one(obj), one(k), None))

    def runsetitem(self, obj, k, v):
        return self._q(lambda: self.I.setitem(self.st, one(obj), one(k), v if isinstance(v, tuple) else one(v), None))

    def _q(self, f):
        events = []
        fr = Frame(None, "<rule>")
        fr.cur = self.st
        self.I.frames.append(fr)
        col = Collector(None)
        self.I.handlers.append(col)
        n0 = len(self.I.internal_errors)
        self.I.listeners.append(lambda e, s: events.append(e))
        try:
            v = f()
        finally:
            self.I.listeners.pop()
            self.I.handlers.pop()
            self.I.frames.pop()
        r = en.Result(v, self.st.pc, self.st, col.entries, events)
        r.internal = self.I.internal_errors[n0:]
        del self.I.internal_errors[n0:]
        self._left(r)
        for e in r.events:
            if e.kind == "call":
                self.lab.stats["sites"].add((e.module, getattr(e.node, "lineno", 0), getattr(e.node, "col_offset", 0)))
        return r

    def spec(self, fname, *args, pc=None, heap=None, **kw):
        """Value of a specification function in (a copy of) the current state, as one term."""
        st = State(self.st.pc if pc is None else pc, {}, dict(self.st.heap if heap is None else heap))
        a = [x if isinstance(x, tuple) else one(x) for x in args]
        k = {n: (x if isinstance(x, tuple) else one(x)) for n, x in kw.items()}
        fr = Frame(None, "<rule>")
        fr.cur = st
        self.I.frames.append(fr)
        self.I.handlers.append(Collector(None))
        self.I.mute += 1
        try:
            v = self.I.call_term(st, self.lab.spec(fname), a, k, None)
            t = self.I.snapv(st, v) if st.pc != FALSE else top("novalue")
        finally:
            self.I.mute -= 1
            self.I.handlers.pop()
            self.I.frames.pop()
        return t, st.pc

    def snap(self, r):
        return self.I.snapv(r.state, r.value) if r.pc != FALSE else top("novalue")

    # ------------------------------------------------------------ COSE set-up

    def with_alg(self, msg, algterm, bucket="phdr"):
        """Refine `msg`: the given algorithm sits in one header bucket, in none other."""
        A = self.lab.name("pycose.headers.Algorithm")
        other = "uhdr" if bucket == "phdr" else "phdr"
        hb, ho = self.get1(msg, bucket), self.get1(msg, other)
        done = False
        if hb.op in ("sym", "attr", "obj", "item") and ho.op in ("sym", "attr", "obj", "item") and hb is not ho:
            s = self.st.copy()
            for h, ent in ((hb, (TRUE, one(algterm))), (ho, (FALSE, ()))):
                o = s.heap.get(h)
                if h.op != "obj":
                    TYPES[h] = "dict"
                o = o if isinstance(o, DObj) else DObj(h, {})
                e = dict(o.ent)
                e[A] = ent
                s.heap[h] = DObj(o.base, e)
            c = Ctx(self.lab, s)
            if c.alg_of(msg) is algterm:
                self.st = s
                done = True
        if not done:
            self.callm(msg, bucket + "_update", self.dict([(A, algterm)]))
            if self.alg_of(msg) is not algterm:
                raise AnalysisError("cannot put a known algorithm into the %s of %s" % (bucket, show(msg)))

    def alg_of(self, msg):
        A = self.lab.name("pycose.headers.Algorithm")
        c = self.fork()
        v, raises = c._muted(lambda: self.I.call_method(c.st, one(msg), "get_attr", [one(A)], {}, None))
        return as_term(v, c.st.pc) if c.st.pc != FALSE else None

    def header(self, msg, bucket, attr, val):
        """Put (or, with None, remove) a header parameter in a bucket of a symbolic message."""
        h = self.get1(msg, bucket)
        if h.op not in ("sym", "attr", "obj", "item"):
            raise AnalysisError("header bucket of %s is not one object: %s" % (show(msg), show(h)[:100]))
        if h.op != "obj":
            TYPES[h] = "dict"
        o = self.st.heap.get(h)
        o = o if isinstance(o, DObj) else DObj(h, {})
        e = dict(o.ent)
        e[attr] = (FALSE, ()) if val is None else (TRUE, one(val))
        self.st.heap[h] = DObj(o.base, e)

    def raised(self, r):
        """{exception name: guard}"""
        out = {}
        for e in r.raises:
            n = self.I.exc_name(e[3])
            out[n] = B.Or(out.get(n, FALSE), e[0])
        return out


# ---------------------------------------------------------------- events

def extcalls(r, *names, ctor=None, allow_mod=None):
    """External call events by short name, optionally by receiver constructor."""
    out = []
    for e in r.events:
        if e.kind != "call" or e.callee is None:
            continue
        c = e.callee
        if c.op == "ext":
            n = c.args[0].rsplit(".", 1)[-1]
        elif c.op in ("attr", "meth"):
            n = "." + c.args[1]
        else:
            continue
        if n not in names:
            continue
        if ctor is not None and not (set(extsig.ctor_names(c.args[0])) & set(ctor)):
            continue
        out.append(e)
    return out
