"""What earlier operations leave behind.

Every question of a rule is also a piece of history: while a rule runs, the objects that exist once the package is imported
(modules, classes, tables, default arguments) are compared before and after each analysed operation.  If no operation changes
any of them, a later question has the same answer whatever happened to other objects before, and one run of the rule is enough.
Otherwise the rule is run again in the states the operations left, with all values of the earlier operation renamed."""
from .engine import DObj, LObj, IObj
from .lab import Ctx
from .terms import *     # noqa
from .terms import subst, subst_guard, ATOMS, TYPES
from .bdd import TRUE, FALSE

EARLIER = "earlier "


def same_state(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, DObj):
        return a.base is b.base and a.ent == b.ent
    if isinstance(a, LObj):
        return a.kind == b.kind and a.segs == b.segs
    if isinstance(a, IObj):
        return a.cls == b.cls and a.fields == b.fields
    return False


class Watch:
    def __init__(self, lab):
        self.lab = lab
        self.I = lab.I
        self.start = dict(lab.I.st.heap)
        self.found = {}
        self.ops = 0
        self.tag = ""

    def see(self, heap, pc):
        self.ops += 1
        ch = [k for k, o in self.start.items() if heap.get(k) is not o and not same_state(o, heap.get(k))]
        if ch and sat(pc):
            key = (tuple(sorted(k.id for k in ch)), self.tag)
            if key not in self.found and len(self.found) < 400:
                self.found[key] = (ch, heap, pc)

    # ------------------------------------------------------------ states

    def values(self, o):
        if isinstance(o, DObj):
            return [o.base] + [x for k, (p, v) in o.ent.items() for x in [k, p] + list(v)]
        if isinstance(o, LObj):
            return [x for s in o.segs for x in s[1:]]
        if isinstance(o, IObj):
            return list(o.fields.values())
        return []

    def reach(self, heap, roots):
        """objects, symbols and guard variables in what is left behind"""
        objs, syms, atoms, seen = [], set(), set(), set()
        todo = [heap.get(k) for k in roots]

        def guard(g):
            for v in B.support(g):
                if v not in atoms:
                    atoms.add(v)
                    for x in ATOMS[v][1:]:
                        term(x)

        def term(x):
            if isinstance(x, tuple):
                for y in x:
                    term(y)
                return
            if isinstance(x, bool) or x is None or isinstance(x, str):
                return
            if isinstance(x, int):
                guard(x) if x > 1 else None
                return
            if not isinstance(x, Term) or x in seen:
                return
            seen.add(x)
            if x.op == "sym":
                syms.add(x)
            if x.op in ("const", "class", "func", "ext", "module"):
                return
            if x not in self.start and x in heap:
                objs.append(x)
                todo.append(heap[x])
            if x.op == "gamma":
                for g, y in x.args[0]:
                    guard(g)
                    term(y)
                return
            if x.op == "cseg":
                guard(x.args[0])
                term(x.args[1])
                return
            if x.op == "map":
                term(x.args[0])
                term(x.args[1])
                guard(x.args[2])
                return
            for y in x.args:
                if isinstance(y, (Term, tuple)):
                    term(y)

        def val(x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], Term):
                guard(x[0])
                term(x[1])
            elif isinstance(x, tuple):
                for y in x:
                    val(y)
            elif isinstance(x, Term):
                term(x)
            elif isinstance(x, int) and not isinstance(x, bool):
                guard(x)

        while todo:
            o = todo.pop()
            for x in self.values(o):
                val(x)
        return objs, syms, atoms

    def rename(self, found):
        ch, heap, pc = found
        objs, syms, atoms = self.reach(heap, ch)
        if len(atoms) > 80 or len(objs) > 400:
            return None
        # what has to hold for the operation to have come this far, as far as it matters
        for v in sorted(B.support(pc) - atoms, reverse=True):
            lit = B.literal(v)
            pc = B.Or(B.restrict(pc, lit), B.restrict(pc, B.Not(lit)))
            if len(B.support(pc)) > 400:
                return None
        mp = {s: sym(EARLIER + s.args[0], *s.args[1:]) for s in syms}
        memo = {}

        def val(x):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], Term):
                return (subst_guard(x[0], mp, memo), subst(x[1], mp, memo))
            if isinstance(x, tuple):
                return tuple(val(y) for y in x)
            if isinstance(x, Term):
                return subst(x, mp, memo)
            if isinstance(x, int) and not isinstance(x, bool):
                return subst_guard(x, mp, memo)
            return x

        for t, ty in list(TYPES.items()):
            u = subst(t, mp, memo)
            if u is not t:
                TYPES.setdefault(u, ty)
        out = {}
        self.limits = TRUE
        for k in list(ch) + objs:
            o = heap[k]
            if isinstance(o, DObj):
                o = DObj(val(o.base) if o.base is not None else None, {val(a): (val(p), val(v)) for a, (p, v) in o.ent.items()})
            elif isinstance(o, LObj):
                o = LObj(o.kind, [(s[0],) + tuple(val(x) for x in s[1:]) for s in o.segs])
            elif isinstance(o, IObj):
                o = IObj(o.cls, {n: val(v) for n, v in o.fields.items()}, o.lazy)
            if k in self.start:
                o = self.counted(k, o)
            out[subst(k, mp, memo)] = o
        return set(ch), out, B.And(subst_guard(pc, mp, memo), self.limits)

    def counted(self, k, o):
        """A number an operation replaced by another number may be any later one when the next operation comes."""
        def num(v):
            t = single(v) if v else None
            return cval(t) if t is not None and is_const(t) and type(cval(t)) is int else None

        def wide(nm, a, b):
            a, b = num(a), num(b)
            if a is None or b is None or b <= a:
                return None
            t = sym("%scount of %s" % (EARLIER, nm), "int")
            TYPES[t] = "int"
            self.limits = B.And(self.limits, B.Not(g_lt(t, const(b))))
            return one(t)

        b = self.start[k]
        if isinstance(o, IObj) and isinstance(b, IObj):
            ch = {n: wide(n, b.fields.get(n), v) for n, v in o.fields.items() if v is not b.fields.get(n)}
            ch = {n: v for n, v in ch.items() if v}
            if ch:
                return IObj(o.cls, dict(o.fields, **ch), o.lazy)
        if isinstance(o, DObj) and isinstance(b, DObj):
            ch = {n: (pv[0], wide(show(n), b.ent[n][1], pv[1])) for n, pv in o.ent.items() if n in b.ent and b.ent[n] != pv}
            ch = {n: v for n, v in ch.items() if v[1]}
            if ch:
                return DObj(o.base, dict(o.ent, **ch))
        return o

    def states(self, limit=4):
        """States to ask the questions in again."""
        groups = []
        per = {}
        # the last operations of a kind first: they have seen most
        for (ids, tag), f in sorted(self.found.items(), key=lambda x: -len(x[0][0])):
            per[ids] = per.get(ids, 0) + 1
            if per[ids] > 3:
                continue
            r = self.rename(f)
            if r is None:
                continue
            for g in groups:
                if not (g[0] & r[0]) and sat(B.And(g[2], r[2])):
                    g[0].update(r[0])
                    g[1].update(r[1])
                    g[2] = B.And(g[2], r[2])
                    break
            else:
                groups.append([set(r[0]), dict(r[1]), r[2]])
        out = []
        for ch, over, pc in groups[:limit]:
            st = self.I.fresh_state()
            st.heap.update(over)
            st.pc = pc
            out.append(st)
        return out
