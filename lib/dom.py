"""Numeric domain: conjunctions of linear inequalities over integer symbols.

A linear form is (c, ((sym, coef), ...)) with sym ids ascending.  A constraint
is a linear form L with the meaning L >= 0.  Emptiness and entailment are
decided by interval propagation and Fourier-Motzkin projection (the operations
of the polyhedra abstract domain); "don't know" is answered on overflow of the
work limit, so an entailment answer of True is always right.
"""
from math import gcd


class Syms:
    """Symbol table: global bounds and defining facts of symbols."""

    def __init__(self):
        self.lo = [0]; self.hi = [0]; self.name = ["?"]; self.facts = [()]
        self.memo = {}
        self.deps = [()]

    def new(self, lo, hi, name, facts=(), deps=()):
        self.lo.append(lo); self.hi.append(hi); self.name.append(name); self.facts.append(tuple(facts)); self.deps.append(tuple(deps))
        return len(self.lo) - 1


def lin(c=0, *ts):
    return (c, tuple(ts))


def const(c):
    return (c, ())


def var(s):
    return (0, ((s, 1),))


def add(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1]:
        return (a[0] + k * b[0], b[1] if k == 1 else tuple((s, v * k) for s, v in b[1]))
    d = dict(a[1])
    for s, v in b[1]:
        n = d.get(s, 0) + k * v
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, v * k) for s, v in a[1]))


def addc(a, c):
    return (a[0] + c, a[1])


def norm(L):
    """Divides by the gcd of the coefficients, rounding the constant down (integers)."""
    c, ts = L
    if not ts:
        return L
    g = 0
    for _, v in ts:
        g = gcd(g, v)
        if g == 1:
            return L
    return (c // g, tuple((s, v // g) for s, v in ts))


def subst(L, s, R):
    """L with symbol s replaced by linear form R."""
    for t, v in L[1]:
        if t == s:
            rest = (L[0], tuple(x for x in L[1] if x[0] != s))
            return add(rest, R, v)
    return L


FM_LIMIT = 400


class Num:
    """Per-state numeric part: bounds of symbols and multi-variable constraints."""
    __slots__ = ("b", "cs", "ne", "dead", "_cache")

    def __init__(self):
        self.b = {}       # sym -> (lo, hi)
        self.cs = ()      # constraints with >= 2 variables
        self.ne = ()      # linear forms known to be non-zero
        self.dead = False
        self._cache = {}

    def copy(self):
        n = Num()
        n.b = self.b; n.cs = self.cs; n.ne = self.ne
        n._cache = self._cache
        return n

    def bounds(self, sy, s):
        r = self.b.get(s)
        if r is None:
            return sy.lo[s], sy.hi[s]
        return r

    def rng(self, sy, L):
        lo = hi = L[0]
        for s, v in L[1]:
            a, b = self.bounds(sy, s)
            if v > 0:
                lo += v * a; hi += v * b
            else:
                lo += v * b; hi += v * a
        return lo, hi

    def add_ge(self, sy, L):
        """Returns a new Num with L >= 0, or None if this is known to be empty."""
        L = norm(L)
        lo, hi = self.rng(sy, L)
        if lo >= 0:
            return self
        if hi < 0:
            return None
        n = self.copy()
        n._cache = {}
        if len(L[1]) == 1:
            (s, v), = L[1]
            a, b = self.bounds(sy, s)
            if v > 0:
                a = max(a, -(L[0] // v))     # v*s >= -c  -> s >= ceil(-c/v)
            else:
                b = min(b, L[0] // -v)
            if a > b:
                return None
            n.b = dict(self.b); n.b[s] = (a, b)
        else:
            if L in self.cs:
                return self
            n.cs = self.cs + (L,)
        comp, syms = n._component(sy, [s for s, _ in L[1]])
        if comp:
            old = {s: n.bounds(sy, s) for s in syms}
            new = tighten(comp, old)
            if new is None:
                return None
            diff = {s: v for s, v in new.items() if v != old[s]}
            if diff:
                if n.b is self.b:
                    n.b = dict(n.b)
                n.b.update(diff)
        n = n._ne(sy)
        if n is None:
            return None
        if comp and n._empty(sy, [s for s, _ in L[1]]):
            return None
        return n

    def _ne(self, sy):
        """Uses disequalities whose form touches the boundary."""
        n = self
        changed = True
        while changed:
            changed = False
            for L in n.ne:
                lo, hi = n.rng(sy, L)
                if lo > 0 or hi < 0:
                    continue
                if lo == 0 == hi:
                    return None
                rel = len(L[1]) > 1 or bool(sy.facts[L[1][0][0]])
                if lo == 0 or hi == 0 or rel:
                    M = None
                    if lo == 0 or (rel and n.entails(sy, L)):
                        M = addc(L, -1)
                    elif hi == 0 or (rel and n.entails(sy, scale(L, -1))):
                        M = addc(scale(L, -1), -1)
                    if M is not None:
                        m = n.copy(); m._cache = {}
                        m.ne = tuple(x for x in n.ne if x != L)
                        n = m.add_ge(sy, M)
                        if n is None:
                            return None
                        changed = True
                        break
        return n

    def add_ne(self, sy, L):
        lo, hi = self.rng(sy, L)
        if lo > 0 or hi < 0:
            return self
        if lo == hi == 0:
            return None
        if L in self.ne or scale(L, -1) in self.ne:
            return self
        n = self.copy(); n._cache = {}
        n.ne = self.ne + (L,)
        n = n._ne(sy)
        if n is None:
            return None
        if len(L[1]) > 1 and n.entails(sy, L) and n.entails(sy, scale(L, -1)):
            return None
        return n

    def add_eq(self, sy, L):
        n = self.add_ge(sy, L)
        return n.add_ge(sy, scale(L, -1)) if n is not None else None

    # ---- emptiness
    def _component(self, sy, seeds):
        """Constraints reachable from the seed symbols (plus defining facts)."""
        syms = set(); work = list(seeds); used = set(); out = []
        by = {}
        for L in self.cs:
            for s, _ in L[1]:
                by.setdefault(s, []).append(L)
        while work:
            s = work.pop()
            if s in syms:
                continue
            syms.add(s)
            for L in by.get(s, ()):
                if L not in used:
                    used.add(L); out.append(L)
                    work += [t for t, _ in L[1]]
            for L in sy.facts[s]:
                if L not in used:
                    used.add(L); out.append(L)
                    work += [t for t, _ in L[1]]
        return out, syms

    def _empty(self, sy, seeds, extra=()):
        seeds = list(seeds)
        for L in extra:
            seeds += [s for s, _ in L[1]]
        comp, syms = self._component(sy, seeds)
        if not comp and not extra:
            return False
        return fm_empty(list(comp) + [norm(L) for L in extra], {s: self.bounds(sy, s) for s in syms})

    def entails(self, sy, L):
        """True if L >= 0 holds in every point."""
        lo, hi = self.rng(sy, L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if len(L[1]) == 0:
            return L[0] >= 0
        r = self._cache.get(L)
        if r is None:
            neg = addc(scale(L, -1), -1)
            r = self._empty(sy, [], [neg])
            self._cache[L] = r
        return r

    def entails_eq(self, sy, L):
        return self.entails(sy, L) and self.entails(sy, scale(L, -1))

    def witness(self, sy, budget=4000):
        """An integer point of this state (dict), or None if none was found."""
        syms = set(self.b)
        for L in self.cs + self.ne:
            syms.update(s for s, _ in L[1])
        cons = list(self.cs)
        work = list(syms); seen = set()
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            for L in sy.facts[s]:
                if L not in cons:
                    cons.append(L)
                work += [t for t, _ in L[1]]
        bnd = {s: self.bounds(sy, s) for s in seen}
        return search(cons, self.ne, bnd, [budget])

    def possible(self, sy, L):
        """False if L >= 0 is impossible."""
        return not self.entails(sy, addc(scale(L, -1), -1))

    def entails_ne(self, sy, L):
        lo, hi = self.rng(sy, L)
        if lo > 0 or hi < 0:
            return True
        if L in self.ne or scale(L, -1) in self.ne:
            return True
        return self.entails(sy, addc(L, -1)) or self.entails(sy, addc(scale(L, -1), -1))


def tighten(cons, bnd):
    """Tightened bounds, or None if some become empty."""
    bnd = dict(bnd)
    # interval propagation
    for _ in range(6):
        ch = False
        for c, ts in cons:
            hi = c
            for s, v in ts:
                a, b = bnd[s]
                hi += v * (b if v > 0 else a)
            if hi < 0:
                return None
            for s, v in ts:
                a, b = bnd[s]
                rest = hi - v * (b if v > 0 else a)     # v*s >= -rest
                if v > 0:
                    x = -(rest // v)
                    if x > a:
                        bnd[s] = (x, b); ch = True
                        if x > b:
                            return None
                else:
                    x = rest // -v
                    if x < b:
                        bnd[s] = (a, x); ch = True
                        if a > x:
                            return None
                if ch:
                    hi = c
                    for t, w in ts:
                        a2, b2 = bnd[t]
                        hi += w * (b2 if w > 0 else a2)
        if not ch:
            break
    return bnd


def fm_empty(cons, bnd):
    """True if the integer points of cons with bnd are proven to be empty."""
    bnd = dict(bnd)
    bnd = tighten(cons, bnd)
    if bnd is None:
        return True
    # drop constraints implied by the bounds, substitute fixed symbols
    cs = set()
    for c, ts in cons:
        lo = c; nt = []
        for s, v in ts:
            a, b = bnd[s]
            lo += v * (a if v > 0 else b)
            if a == b:
                c += v * a
            else:
                nt.append((s, v))
        if lo >= 0:
            continue
        if not nt:
            if c < 0:
                return True
            continue
        cs.add(norm((c, tuple(nt))))
    if not cs:
        return False
    # equalities: substitute
    changed = True
    rounds = 0
    while changed and rounds < 30:
        changed = False; rounds += 1
        for L in cs:
            if scale(L, -1) in cs:
                piv = next(((s, v) for s, v in L[1] if abs(v) == 1), None)
                if piv is None:
                    g = 0
                    for _, v in L[1]:
                        g = gcd(g, v)
                    if g > 1 and L[0] % g:
                        return True
                    continue
                s, v = piv
                R = scale((L[0], tuple(x for x in L[1] if x[0] != s)), -v)   # s = -v*(rest)
                new = set()
                a, b = bnd[s]
                for M in cs:
                    if M == L or M == scale(L, -1):
                        continue
                    M2 = norm(subst(M, s, R))
                    if not M2[1]:
                        if M2[0] < 0:
                            return True
                        continue
                    new.add(M2)
                for M2 in (norm(addc(R, -a)), norm(addc(scale(R, -1), b))):
                    if not M2[1]:
                        if M2[0] < 0:
                            return True
                    else:
                        new.add(M2)
                cs = new
                changed = True
                break
    syms = set()
    for L in cs:
        for s, _ in L[1]:
            syms.add(s)
    for s in syms:
        a, b = bnd[s]
        cs.add((-a, ((s, 1),))); cs.add((b, ((s, -1),)))
    while syms:
        best = None
        occ = {}
        for L in cs:
            for s, v in L[1]:
                p = occ.setdefault(s, [0, 0])
                p[v < 0] += 1
        syms = set(occ)
        if not syms:
            break
        best = min(syms, key=lambda s: (occ[s][0] * occ[s][1] - occ[s][0] - occ[s][1], s))
        pos, neg, rest = [], [], set()
        for L in cs:
            v = dict(L[1]).get(best)
            if v is None:
                rest.add(L)
            elif v > 0:
                pos.append((L, v))
            else:
                neg.append((L, -v))
        if len(pos) * len(neg) > FM_LIMIT:
            return False
        for P, a in pos:
            for N, b in neg:
                M = norm(add(scale(P, b), N, a))
                if not M[1]:
                    if M[0] < 0:
                        return True
                else:
                    rest.add(M)
        # keep only the strongest of parallel constraints
        best_c = {}
        for c, ts in rest:
            if ts not in best_c or c < best_c[ts]:
                best_c[ts] = c
        cs = {(c, ts) for ts, c in best_c.items()}
        for ts, c in best_c.items():
            neg = tuple((s, -v) for s, v in ts)
            if neg in best_c and c + best_c[neg] < 0:
                return True
        if len(cs) > FM_LIMIT:
            return False
        syms.discard(best)
    return any(not ts and c < 0 for c, ts in cs)


def propagate(cons, bnd):
    ch = True
    n = 0
    while ch and n < 30:
        ch = False; n += 1
        for c, ts in cons:
            hi = c
            for s, v in ts:
                a, b = bnd[s]
                hi += v * (b if v > 0 else a)
            if hi < 0:
                return False
            for s, v in ts:
                a, b = bnd[s]
                rest = hi - v * (b if v > 0 else a)
                if v > 0:
                    x = -(rest // v)
                    if x > a:
                        if x > b:
                            return False
                        bnd[s] = (x, b); ch = True
                else:
                    x = rest // -v
                    if x < b:
                        if a > x:
                            return False
                        bnd[s] = (a, x); ch = True
    return True


def search(cons, ne, bnd, budget):
    """Labelling over propagated intervals: small values first."""
    bnd = dict(bnd)
    if not propagate(cons, bnd):
        return None
    for c, ts in ne:
        lo = hi = c
        for s, v in ts:
            a, b = bnd[s]
            lo += v * (a if v > 0 else b); hi += v * (b if v > 0 else a)
        if lo == hi == 0:
            return None
    free = [s for s, (a, b) in bnd.items() if a < b]
    if not free:
        return {s: a for s, (a, b) in bnd.items()}
    if budget[0] <= 0:
        return None
    s = min(free, key=lambda s: (bnd[s][1] - bnd[s][0], s))
    a, b = bnd[s]
    cand = []
    for x in (0, 1, a, b, 2, 3, a + 1, b - 1, a + 2, (a + b) // 2, 4, 5, 8, b - 2, a + 3):
        if a <= x <= b and x not in cand:
            cand.append(x)
    for x in cand:
        budget[0] -= 1
        nb = dict(bnd); nb[s] = (x, x)
        r = search(cons, ne, nb, budget)
        if r is not None:
            return r
        if budget[0] <= 0:
            return None
    return None
