"""Reduced ordered BDDs over canonical atoms (no solver; plain canonical form)."""
import sys
sys.setrecursionlimit(200000)

class Budget(Exception): pass

class BDD:
    def __init__(self):
        self.limit = 1 << 60
        # node 0 = FALSE, 1 = TRUE
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.c_and = {}
        self.c_not = {0: 1, 1: 0}
        self.c_res = {}
        self.c_sup = {0: frozenset(), 1: frozenset()}
        self.c_isop = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit: raise Budget()
            self.var.append(v); self.lo.append(lo); self.hi.append(hi)
            self.uniq[k] = n
        return n

    def v(self, i):
        return self.mk(i, 0, 1)

    def neg(self, a):
        r = self.c_not.get(a)
        if r is None:
            r = self.mk(self.var[a], self.neg(self.lo[a]), self.neg(self.hi[a]))
            self.c_not[a] = r
            self.c_not[r] = a
        return r

    def conj(self, a, b):
        if a == b: return a
        if a == 0 or b == 0: return 0
        if a == 1: return b
        if b == 1: return a
        if a > b: a, b = b, a
        k = (a, b)
        r = self.c_and.get(k)
        if r is None:
            va, vb = self.var[a], self.var[b]
            v = va if va < vb else vb
            al, ah = (self.lo[a], self.hi[a]) if va == v else (a, a)
            bl, bh = (self.lo[b], self.hi[b]) if vb == v else (b, b)
            r = self.mk(v, self.conj(al, bl), self.conj(ah, bh))
            self.c_and[k] = r
        return r

    def disj(self, a, b):
        return self.neg(self.conj(self.neg(a), self.neg(b)))

    def ite(self, c, a, b):
        return self.disj(self.conj(c, a), self.conj(self.neg(c), b))

    def all(self, xs):
        r = 1
        for x in xs:
            r = self.conj(r, x)
            if r == 0: return 0
        return r

    def any(self, xs):
        r = 0
        for x in xs:
            r = self.disj(r, x)
            if r == 1: return 1
        return r

    def implies(self, a, b):
        return self.conj(a, self.neg(b)) == 0

    def restrict(self, f, c):
        """Coudert-Madre restrict: simplify f under care set c."""
        if c == 0: return f      # arbitrary
        if c == 1 or f < 2: return f
        k = (f, c)
        r = self.c_res.get(k)
        if r is not None: return r
        # quick decisions
        if self.conj(c, f) == 0: r = 0
        elif self.conj(c, self.neg(f)) == 0: r = 1
        else:
            vf, vc = self.var[f], self.var[c]
            if vc < vf:
                r = self.restrict(f, self.disj(self.lo[c], self.hi[c]))
            else:
                fl, fh = self.lo[f], self.hi[f]
                if vc == vf:
                    cl, ch = self.lo[c], self.hi[c]
                else:
                    cl = ch = c
                if cl == 0: r = self.restrict(fh, ch)
                elif ch == 0: r = self.restrict(fl, cl)
                else: r = self.mk(vf, self.restrict(fl, cl), self.restrict(fh, ch))
        self.c_res[k] = r
        return r

    def support(self, a):
        r = self.c_sup.get(a)
        if r is None:
            r = self.support(self.lo[a]) | self.support(self.hi[a]) | {self.var[a]}
            self.c_sup[a] = r
        return r

    def cofactor(self, a, v, val):
        if a < 2 or self.var[a] > v: return a
        memo = {}
        def go(n):
            if n < 2 or self.var[n] > v: return n
            if self.var[n] == v: return self.hi[n] if val else self.lo[n]
            r = memo.get(n)
            if r is None:
                r = self.mk(self.var[n], go(self.lo[n]), go(self.hi[n]))
                memo[n] = r
            return r
        return go(a)

    def exists(self, a, vs):
        for v in vs:
            a = self.disj(self.cofactor(a, v, 0), self.cofactor(a, v, 1))
        return a

    def project(self, a, keep):
        """a with every variable outside `keep` quantified away (existentially)"""
        memo = {}
        def go(n):
            if n < 2 or self.support(n) <= keep: return n
            r = memo.get(n)
            if r is None:
                l, h = go(self.lo[n]), go(self.hi[n])
                r = self.mk(self.var[n], l, h) if self.var[n] in keep else self.disj(l, h)
                memo[n] = r
            return r
        return go(a)

    def isop(self, L, U=None):
        """Minato-Morreale irredundant sum of products of any f with L<=f<=U.
        returns list of cubes; cube = tuple of (var, bool) sorted."""
        if U is None: U = L
        cubes, _ = self._isop(L, U)
        return cubes

    def _isop(self, L, U):
        if L == 0: return (), 0
        if U == 1: return ((),), 1
        k = (L, U)
        r = self.c_isop.get(k)
        if r is not None: return r
        v = min(self.var[L], self.var[U])
        L0, L1 = (self.lo[L], self.hi[L]) if self.var[L] == v else (L, L)
        U0, U1 = (self.lo[U], self.hi[U]) if self.var[U] == v else (U, U)
        c0, f0 = self._isop(self.conj(L0, self.neg(U1)), U0)
        c1, f1 = self._isop(self.conj(L1, self.neg(U0)), U1)
        Ls = self.disj(self.conj(L0, self.neg(f0)), self.conj(L1, self.neg(f1)))
        cs, fs = self._isop(Ls, self.conj(U0, U1))
        cubes = tuple(((v, False),) + c for c in c0) + tuple(((v, True),) + c for c in c1) + tuple(cs)
        x = self.v(v)
        f = self.disj(self.disj(self.conj(self.neg(x), f0), self.conj(x, f1)), fs)
        self.c_isop[k] = (cubes, f)
        return cubes, f

    def subst(self, a, fn, memo=None):
        """substitute variables by BDDs: fn(var)->bdd"""
        if memo is None: memo = {}
        def go(n):
            if n < 2: return n
            r = memo.get(n)
            if r is None:
                g = fn(self.var[n])
                r = self.ite(g, go(self.hi[n]), go(self.lo[n]))
                memo[n] = r
            return r
        return go(a)
