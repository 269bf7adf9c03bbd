"""Reduced ordered BDDs used as guards of the gated value-flow domain.

A guard is an int index.  0 is FALSE, 1 is TRUE.  Variables are created by the
atom table (terms.py) and are ordered by creation.
"""
import sys
import time

sys.setrecursionlimit(100000)

FALSE, TRUE = 0, 1
INF = 1 << 60


class Budget(BaseException):
    """The question took longer than its share of time; it stays undecided."""


class BDD:
    def __init__(self):
        self.deadline = None
        self.maxnodes = None
        self.var = [INF, INF]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo_ite = {}
        self.memo_restrict = {}
        self.memo_support = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.uniq.get(key)
        if n is None:
            n = len(self.var)
            if not n & 0xfff:
                self.tick()
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[key] = n
        return n

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("time")
        if self.maxnodes is not None and len(self.var) > self.maxnodes:
            raise Budget("size")

    def start(self, deadline, nodes):
        self.deadline, self.maxnodes = deadline, len(self.var) + nodes

    def stop(self, failed):
        self.deadline = self.maxnodes = None
        if len(self.memo_support) > 300000:
            self.memo_support.clear()
        if failed or len(self.memo_ite) > 1500000:
            self.memo_ite.clear()
            self.memo_restrict.clear()

    def literal(self, v):
        return self.mk(v, FALSE, TRUE)

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        key = (f, g, h)
        r = self.memo_ite.get(key)
        if r is not None:
            return r
        var = self.var
        v = min(var[f], var[g], var[h])
        f0, f1 = (self.lo[f], self.hi[f]) if var[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if var[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo_ite[key] = r
        return r

    def And(self, *fs):
        r = TRUE
        for f in fs:
            r = self.ite(r, f, FALSE)
            if r == FALSE:
                return r
        return r

    def Or(self, *fs):
        r = FALSE
        for f in fs:
            r = self.ite(r, TRUE, f)
            if r == TRUE:
                return r
        return r

    def Not(self, f):
        return self.ite(f, FALSE, TRUE)

    def Xor(self, f, g):
        return self.ite(f, self.Not(g), g)

    def restrict(self, f, c):
        """Generalised cofactor (Coudert/Madre restrict): agrees with f on c."""
        if c == TRUE or f <= 1:
            return f
        if c == FALSE:
            return f
        key = (f, c)
        r = self.memo_restrict.get(key)
        if r is not None:
            return r
        var = self.var
        vf, vc = var[f], var[c]
        if vc < vf:
            r = self.restrict(f, self.Or(self.lo[c], self.hi[c]))
        else:
            if vc == vf:
                c0, c1 = self.lo[c], self.hi[c]
            else:
                c0 = c1 = c
            if c0 == FALSE:
                r = self.restrict(self.hi[f], c1)
            elif c1 == FALSE:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self.memo_restrict[key] = r
        return r

    def support(self, f):
        if f <= 1:
            return frozenset()
        r = self.memo_support.get(f)
        if r is None:
            r = self.support(self.lo[f]) | self.support(self.hi[f]) | {self.var[f]}
            self.memo_support[f] = r
        return r

    def compose_vars(self, f, mapping, memo=None):
        """Replace variables by guards: mapping var -> guard."""
        if memo is None:
            memo = {}
        if f <= 1:
            return f
        if f in memo:
            return memo[f]
        lo = self.compose_vars(self.lo[f], mapping, memo)
        hi = self.compose_vars(self.hi[f], mapping, memo)
        v = self.var[f]
        g = mapping.get(v)
        if g is None:
            g = self.literal(v)
        r = self.ite(g, hi, lo)
        memo[f] = r
        return r

    def one_cube(self, f):
        """One satisfying cube as list of (var, bool)."""
        out = []
        while f > 1:
            if self.hi[f] != FALSE:
                out.append((self.var[f], True))
                f = self.hi[f]
            else:
                out.append((self.var[f], False))
                f = self.lo[f]
        return out

    def cubes(self, f, limit=64):
        out = []

        def go(n, acc):
            if len(out) >= limit:
                return
            if n == TRUE:
                out.append(list(acc))
                return
            if n == FALSE:
                return
            v = self.var[n]
            go(self.lo[n], acc + [(v, False)])
            go(self.hi[n], acc + [(v, True)])

        go(f, [])
        return out
