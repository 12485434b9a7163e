"""Path-sensitive abstract interpreter over LLVM IR (see DESIGN.md, "Engine").

Abstract states are partitioned by control-flow history; numbers live in the
linear-inequality domain of dom.py, heap objects in a symbolic memory with
liveness, and check-specific typestates ("ghost" facts) ride along.  Nothing is
executed: inputs are arbitrary, branches the state cannot decide go both ways.
"""
import re, os
from harness import Broken
import dom
from dom import Syms, Num, add, sub, scale, addc, const, var
import ir

U = ("u",)
NULL = ("p", 0, 0, ())


def N(w, c, ts=()):
    if not ts:
        return ("n", w, c & ((1 << w) - 1), ())
    m = 1 << w
    if c >= m or c < -m:
        c = c % m
        if c >= m >> 1:
            c -= m
    if any(a >= m or a < -m or a % m == 0 for _, a in ts):
        t2 = []
        for s, a in ts:
            a = a % m
            if a >= m >> 1:
                a -= m
            if a:
                t2.append((s, a))
        ts = tuple(t2)
        if not ts:
            return ("n", w, c & (m - 1), ())
    return ("n", w, c, ts)


def sgn(c, w):
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c


class Fault(Exception):
    pass


class Giveup(Exception):
    """The analysis cannot follow the code here (answers 'undecided')."""


class Obj:
    __slots__ = ("kind", "size", "cells", "default", "meta", "ro")
    # kind: stack heap global exc param ; size: linear form or None ; default: 'u' 'z' 'top' ('g', name)

    def __init__(self, kind, size, default=U, meta=None):
        self.kind, self.size, self.default, self.meta = kind, size, default, meta
        self.cells = {}
        self.ro = False

    def copy(self):
        o = Obj(self.kind, self.size, self.default, self.meta)
        o.cells = dict(self.cells)
        o.ro = self.ro
        return o


class State:
    __slots__ = ("mem", "num", "bools", "g", "taint", "nid", "exc", "own", "freed", "path")

    def __init__(self):
        self.mem = {}
        self.num = Num()
        self.bools = {}
        self.g = {}
        self.taint = None
        self.nid = 1
        self.exc = ()
        self.own = set()      # ids of Obj this state may mutate in place
        self.freed = {}
        self.path = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.num = self.num; s.bools = dict(self.bools); s.g = dict(self.g)
        s.taint = self.taint; s.nid = self.nid; s.exc = self.exc; s.freed = dict(self.freed)
        s.own = set(); self.own = set()
        s.path = self.path
        return s

    def w(self, oid):
        """Object for writing."""
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy(); self.mem[oid] = o; self.own.add(oid)
        return o


class Frame:
    __slots__ = ("fn", "env", "allocas", "call")


class Eng:
    UNROLL = 4
    CONC = 300           # iterations of loops that are decided exactly
    MAXDEPTH = 120
    MAXREC = 3
    MAXOUT = 6000
    MAXSTEPS = 3000000

    def __init__(self, mod, ctx=None):
        self.mod = mod
        self.ctx = ctx
        self.sy = Syms()
        self.ginit = {}
        self.quot = {}          # quotient symbol -> (dividend, divisor)       # external objects with a model: name -> initialiser
        self.hooks = []       # (compiled regex on demangled name, handler)
        self.hcache = {}
        self.stack = []       # (fn, inst) call stack
        self.faults = []
        self.unmodelled = {}
        self.giveups = {}
        self.steps = 0
        self.fnseen = set()
        self.on_fault = None
        self.weak = set()
        self.genloops = True
        self.deadline = None
        self.obs = None

    # ------------------------------------------------------------ symbols
    def fresh(self, w, name, signed=False, lo=None, hi=None, facts=(), weak=False, deps=()):
        if lo is None:
            lo = -(1 << (w - 1)) if signed else 0
        if hi is None:
            hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        s = self.sy.new(lo, hi, name, facts, deps)
        if weak:
            self.weak.add(s)
        return s

    def sym(self, w, name, **k):
        s = self.fresh(w, name, **k)
        return ("n", w, 0, ((s, 1),))

    def memo(self, key, mkf):
        r = self.sy.memo.get(key)
        if r is None:
            r = self.sy.memo[key] = mkf()
        return r

    # ------------------------------------------------------------ faults
    def where(self):
        """Innermost location inside the library, plus the call chain."""
        out = []
        for fn, inst in reversed(self.stack):
            if inst is None:
                continue
            loc = self.mod.loc(inst.dbg)
            if inst.dbg is None:
                continue
            out.append((fn, loc))
        for fn, loc in out:
            if loc.startswith("Caitlyn"):
                return "%s in %s" % (loc, self.short(fn))
        return "%s in %s" % (out[0][1], self.short(out[0][0])) if out else "?"

    def short(self, fn):
        d = self.mod.dem(fn.name) if hasattr(fn, "name") else str(fn)
        d = d.replace("Caitlyn::", "")
        return d[:160]

    def fault(self, st, kind, msg):
        """A definite error on this abstract path; the path ends."""
        w = self.where()
        if st.taint is None and st.num.witness(self.sy) is None:
            st.taint = "no concrete input found for this path"
        if self.on_fault:
            self.on_fault(kind, st, w, msg)
        else:
            self.faults.append((kind, st.taint, w, msg))
        return []

    def taint(self, st, why):
        if st.taint is None:
            st.taint = why

    # ------------------------------------------------------------ numeric helpers
    def lin(self, v):
        return (v[2], v[3])

    def ge(self, st, L):
        """st with L >= 0, or None."""
        n = st.num.add_ge(self.sy, L)
        if n is None:
            return None
        if n is st.num:
            return st
        if self.weak and any(s in self.weak for s, _ in L[1]):
            self.taint(st, "depends on an approximated value")
        st.num = n
        return st

    def eq(self, st, L):
        st = self.ge(st, L)
        return self.ge(st, scale(L, -1)) if st is not None else None

    def ne(self, st, L):
        n = st.num.add_ne(self.sy, L)
        if n is None:
            return None
        if n is not st.num and self.weak and any(s in self.weak for s, _ in L[1]):
            self.taint(st, "depends on an approximated value")
        st.num = n
        return st

    def entails(self, st, L):
        return st.num.entails(self.sy, L)

    def inrange(self, st, L, lo, hi):
        a, b = st.num.rng(self.sy, L)
        if a >= lo and b <= hi:
            return True
        if b < lo or a > hi:
            return False
        return self.entails(st, addc(L, -lo)) and self.entails(st, addc(scale(L, -1), hi))

    def norm(self, st, v, signed=False):
        """[(state, linear form)] with the form equal to the (un)signed value of v."""
        w = v[1]
        L = (v[2], v[3])
        m = 1 << w
        lo, hi = (-(m >> 1), (m >> 1) - 1) if signed else (0, m - 1)
        if not L[1]:
            return [(st, const(sgn(L[0], w) if signed else L[0] % m))]
        a, b = st.num.rng(self.sy, L)
        if a >= lo and b <= hi:
            return [(st, L)]
        if self.inrange(st, L, lo, hi):
            return [(st, L)]
        k0, k1 = (a - lo) // m, (b - lo) // m
        if k1 - k0 > 3:
            s = self.memo(("wrap", w, signed, L), lambda: self.fresh(w, "wrap", lo=lo, hi=hi, weak=True))
            return [(st, var(s))]
        out = []
        for k in range(k0, k1 + 1):
            M = addc(L, -k * m)
            s2 = st.copy()
            s2 = self.ge(s2, addc(M, -lo))
            if s2 is not None:
                s2 = self.ge(s2, addc(scale(M, -1), hi))
            if s2 is not None:
                out.append((s2, M))
        return out

    def divc(self, st, L, c):
        """floor(L / c), L known non-negative."""
        if c == 1:
            return L
        q0 = L[0] // c
        cc = L[0] - q0 * c
        whole, rest = [], []
        for s, a in L[1]:
            q, r = divmod(a, c)
            if r == 0:
                whole.append((s, q))
            else:
                rest.append((s, a))
        base = (q0, tuple(whole))
        R = (cc, tuple(rest))
        if not rest:
            return base
        a, b = st.num.rng(self.sy, R)
        if a >= 0 and b < c:
            return base
        if self.inrange(st, R, 0, c - 1):
            return base
        if len(rest) == 1 and rest[0][1] == 1 and rest[0][0] in self.quot:
            R0, m = self.quot[rest[0][0]]           # floor((floor(R0/m) + k) / c) = floor((R0 + k m) / (m c))
            return add(base, self.divc(st, addc(R0, cc * m), m * c))

        def mkq():
            ga = gb = R[0]
            for s, k in R[1]:
                ga += k * (self.sy.lo[s] if k > 0 else self.sy.hi[s])
                gb += k * (self.sy.hi[s] if k > 0 else self.sy.lo[s])
            q = self.fresh(64, "div%d" % c, lo=ga // c, hi=gb // c, deps=tuple(s for s, _ in R[1]))
            f1 = add(R, var(q), -c)                     # R - c q >= 0
            f2 = addc(scale(f1, -1), c - 1)             # c q + c-1 - R >= 0
            self.sy.facts[q] = (f1, f2)
            self.quot[q] = (R, c)
            if any(s in self.weak for s, _ in R[1]):
                self.weak.add(q)
            return q
        q = self.memo(("div", R, c), mkq)
        return add(base, var(q))

    def tonum(self, st, v, w=None):
        """[(state, 'n' value)]"""
        k = v[0]
        if k == "n":
            return [(st, v)]
        if k == "z":
            return [(s, N(v[1], 1 if t else 0)) for s, t in self.split(st, v[2])]
        if k == "zs":
            return [(s, N(v[1], -1 if t else 0)) for s, t in self.split(st, v[2])]
        if k == "c":
            return [(s, N(1, 1 if t else 0)) for s, t in self.split(st, v[1])]
        if k == "p":
            return [(st, self.p2i(st, v))]
        if k == "u":
            raise Fault("use of an uninitialised value")
        if k == "f":
            x = self.memo(("f2n", v, w), lambda: self.fresh(w or 64, "fbits", weak=True))
            return [(st, ("n", w or 64, 0, ((x, 1),)))]
        raise Giveup("number from %r" % (v[0],))

    def p2i(self, st, v):
        if v[1] == 0:
            return N(64, v[2], v[3])
        b = self.memo(("addr", v[1]), lambda: self.fresh(64, "addr(%s)" % (v[1],), lo=4096, hi=1 << 47))
        L = add(var(b), (v[2], v[3]))
        return N(64, L[0], L[1])

    # ------------------------------------------------------------ conditions
    def split(self, st, cond):
        """[(state, True|False)] for both outcomes that are possible."""
        if cond is True or cond is False:
            return [(st, cond)]
        out = []
        s1 = self.assume(st.copy(), cond, True)
        out += [(s, True) for s in s1]
        out += [(s, False) for s in self.assume(st.copy(), cond, False)]
        return out

    def decide(self, st, cond):
        if cond is True or cond is False:
            return cond
        k = cond[0]
        if k == "not":
            r = self.decide(st, cond[1])
            return None if r is None else not r
        if k == "sb":
            return st.bools.get(cond[1])
        if k in ("and", "or"):
            a, b = self.decide(st, cond[1]), self.decide(st, cond[2])
            if k == "and":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        return None

    def assume(self, st, cond, truth):
        """States (possibly several) in which cond == truth; consumes st."""
        if cond is True or cond is False:
            return [st] if cond == truth else []
        k = cond[0]
        if k == "not":
            return self.assume(st, cond[1], not truth)
        if k == "sb":
            b = st.bools.get(cond[1])
            if b is None:
                st.bools[cond[1]] = truth
                if isinstance(cond[1], tuple) and cond[1] and cond[1][0] == "weak":
                    self.taint(st, "unknown condition")
                f = self.boolfact
                if f is not None:
                    return f(self, st, cond[1], truth)
                return [st]
            return [st] if b == truth else []
        if k == "and":
            if truth:
                return [s2 for s in self.assume(st, cond[1], True) for s2 in self.assume(s, cond[2], True)]
            a = self.assume(st.copy(), cond[1], False)
            b = [s2 for s in self.assume(st, cond[1], True) for s2 in self.assume(s, cond[2], False)]
            return a + b
        if k == "or":
            if not truth:
                return [s2 for s in self.assume(st, cond[1], False) for s2 in self.assume(s, cond[2], False)]
            a = self.assume(st.copy(), cond[1], True)
            b = [s2 for s in self.assume(st, cond[1], False) for s2 in self.assume(s, cond[2], True)]
            return a + b
        if k == "cmp":
            return self.assume_cmp(st, cond[1], cond[2], cond[3], truth)
        if k == "fc":
            return self.assume_fcmp(st, cond[1], cond[2], cond[3], truth)
        raise Giveup("condition %r" % (k,))

    boolfact = None
    NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt"}

    def assume_cmp(self, st, pred, a, b, truth):
        if not truth:
            pred = self.NEG[pred]
        signed = pred[0] == "s"
        out = []
        if pred in ("eq", "ne"):
            w = a[1]
            # choose the representation needing no split
            D = sub((a[2], a[3]), (b[2], b[3]))
            m = 1 << w
            lo, hi = st.num.rng(self.sy, D)
            if lo > -m and hi < m and lo > -m and hi < m and (lo > -m and hi < m):
                cands = [k for k in (-1, 0, 1) if lo <= k * m <= hi]
                if cands == [0] or not cands:
                    if pred == "eq":
                        s = self.eq(st, D) if cands else None
                    else:
                        s = self.ne(st, D) if cands else st
                    return [s] if s is not None else []
            for s, A in self.norm(st, a, False):
                for s2, B in self.norm(s, b, False):
                    s2 = s2.copy()
                    D = sub(A, B)
                    r = self.eq(s2, D) if pred == "eq" else self.ne(s2, D)
                    if r is not None:
                        out.append(r)
            return out
        for s, A in self.norm(st, a, signed):
            for s2, B in self.norm(s, b, signed):
                s2 = s2.copy()
                p = pred[1:]
                L = {"lt": addc(sub(B, A), -1), "le": sub(B, A), "gt": addc(sub(A, B), -1), "ge": sub(A, B)}[p]
                r = self.ge(s2, L)
                if r is not None:
                    out.append(r)
        return out

    # floats: relation {L, E, G, U} between two terms
    FP = {"oeq": "E", "ogt": "G", "oge": "GE", "olt": "L", "ole": "LE", "one": "LG", "ord": "LEG", "ueq": "EU", "ugt": "GU", "uge": "GEU",
          "ult": "LU", "ule": "LEU", "une": "LGU", "uno": "U", "true": "LEGU", "false": ""}

    def assume_fcmp(self, st, pred, a, b, truth):
        S = set(self.FP[pred])
        if not truth:
            S = set("LEGU") - S
        while True:                             # exact conversions keep every relation
            ka, kb = fconst(a) is not None, fconst(b) is not None
            if (a[0] == "fpext" or ka) and (b[0] == "fpext" or kb) and not (ka and kb):
                a, b = a[-1] if not ka else a, b[-1] if not kb else b
            elif (a[0] == "neg" or ka) and (b[0] == "neg" or kb) and not (ka and kb):
                a, b = ("k", -a[1]) if ka else a[1], ("k", -b[1]) if kb else b[1]
                S = {{"L": "G", "G": "L"}.get(x, x) for x in S}
            else:
                break
        if repr(a) > repr(b):
            a, b = b, a
            S = {{"L": "G", "G": "L"}.get(x, x) for x in S}
        key = ("frel", a, b)
        cur = set(st.bools.get(key, "LEGU"))
        if a == b:
            cur &= set("EU")
        fa, fb = fconst(a), fconst(b)
        if fa is not None and fb is not None:
            r = "U" if fa != fa or fb != fb else ("E" if fa == fb else "L" if fa < fb else "G")
            cur &= {r}
        else:
            for x, y in ((a, b), (b, a)):
                if ("nan", x) in st.bools:
                    cur &= {"U"} if st.bools[("nan", x)] else cur
                fy = fconst(x)
                if fy is not None and fy == fy and st.bools.get(("nan", y)) is False:
                    cur -= {"U"}
        nw = cur & S
        if not nw:
            return []
        if nw != cur and (fopaque(a) or fopaque(b)):
            self.taint(st, "comparison of a rounded floating-point result")
        st.bools[key] = "".join(sorted(nw))
        # coherence against other constants
        if fa is not None or fb is not None:
            x = b if fa is not None else a
            if fconst(x) is None:
                if not self.fcoherent(st, x):
                    return []
        return [st]

    def fcoherent(self, st, x):
        """Is some value of term x compatible with all its relations to constants?"""
        rel = []
        for k, v in st.bools.items():
            if isinstance(k, tuple) and k and k[0] == "frel":
                a, b = k[1], k[2]
                if a == x and fconst(b) is not None:
                    rel.append((fconst(b), set(v)))
                elif b == x and fconst(a) is not None:
                    rel.append((fconst(a), {{"L": "G", "G": "L"}.get(q, q) for q in v}))
        pts = sorted(set(c for c, _ in rel if c == c))
        samples = []
        inf = float("inf")
        allp = [-inf] + pts + [inf]
        for p in pts:
            samples.append(p)
        for p, q in zip(allp, allp[1:]):
            if p < q:
                samples.append(("between", p, q))
        def relof(s, c):
            if c != c:
                return "U"
            if isinstance(s, tuple):
                return "L" if s[2] <= c else "G"
            return "E" if s == c else "L" if s < c else "G"
        isnan = st.bools.get(("nan", x))
        if isnan is not True:
            for s in samples:
                if all(relof(s, c) in r for c, r in rel):
                    return True
        if isnan is not False:
            if all("U" in r for c, r in rel):
                return True
        return False

    # ------------------------------------------------------------ memory
    def alloc(self, st, kind, size, default=U, meta=None):
        oid = st.nid
        st.nid += 1
        st.mem[oid] = Obj(kind, size, default, meta)
        st.own.add(oid)
        return oid

    def gobj(self, st, name):
        oid = "g:" + name
        if oid not in st.mem:
            h = self.ginit.get(name)
            if h is not None:
                st.mem[oid] = Obj("global", None, "top")
                st.own.add(oid)
                h(st, name)
                return oid
            if name in self.mod.aliases:
                return self.gobj(st, self.mod.aliases[name])
            g = self.mod.gvar(name)
            if g is None:
                st.mem[oid] = Obj("global", None, ("g", name))
            else:
                st.mem[oid] = Obj("global", const(self.mod.size(g["type"])) if not (g["ext"] and self.mod.res(g["type"]).k == "struct" and not self.mod.res(g["type"]).a) else None, ("g", name))
                st.mem[oid].ro = g["const"]
            st.own.add(oid)
        return oid

    def access(self, st, p, n, what):
        """Checks an access of n bytes at p; returns (state, obj, const offset | None) or raises Fault."""
        if p[0] != "p":
            if p[0] == "u":
                raise Fault("%s through an uninitialised pointer" % what)
            raise Giveup("%s through %r" % (what, p[0]))
        oid = p[1]
        if oid == 0:
            raise Fault("%s through a null pointer" % what)
        if isinstance(oid, str) and oid.startswith("g:"):
            self.gobj(st, oid[2:])
        o = st.mem.get(oid)
        if o is None:
            if oid in st.freed:
                raise Fault("%s of storage that is no longer live (%s)" % (what, st.freed[oid]))
            raise Giveup("%s of unknown storage" % what)
        L = (p[2], p[3])
        if not L[1]:
            off = L[0]
        else:
            a, b = st.num.rng(self.sy, L)
            off = a if a == b else None
        if o.size is not None:
            if off is not None and not o.size[1]:
                if off < 0 or off + n > o.size[0]:
                    raise Fault("%s outside the object (offset %d, size %d)" % (what, off, o.size[0]))
            else:
                if not (self.entails(st, L) and self.entails(st, addc(sub(o.size, L), -n))):
                    raise Bounds(L, o.size, n, what)
        return o, off

    def typed_zero(self, ty):
        if ty.k == "ptr":
            return NULL
        if ty.k == "float":
            return ("f", ("k", 0.0))
        if ty.k == "int":
            return N(ty.a, 0) if ty.a > 1 else ("c", False)
        return None

    def load(self, st, p, ty):
        """[(state, value)]"""
        rt = self.mod.res(ty)
        if rt.k in ("struct", "arr"):
            offs = self.mod.offsets(rt) if rt.k == "struct" else [i * self.mod.size(rt.b) for i in range(rt.a)]
            els = rt.a if rt.k == "struct" else [rt.b] * rt.a
            res = [(st, ())]
            for o, e in zip(offs, els):
                nx = []
                for s, vs in res:
                    for s2, v in self.load(s, self.padd(p, const(o)), e):
                        nx.append((s2, vs + (v,)))
                res = nx
            return [(s, ("a", vs)) for s, vs in res]
        n = self.mod.size(ty)
        o, off = self.access(st, p, n, "read")
        if off is None:
            return self.load_sym(st, p, o, ty, n)
        return [(st, self.loadc(st, p[1], o, off, n, rt))]

    def loadc(self, st, oid, o, off, n, rt):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(st, c[1], rt)
        # inside another cell / composed of cells
        parts = []
        for co, (cn, cv) in o.cells.items():
            if co < off + n and off < co + cn:
                parts.append((co, cn, cv))
        if not parts:
            d = o.default
            if d == U:
                return U
            if d == "z":
                return self.typed_zero(rt) or U
            if isinstance(d, tuple) and d[0] == "g":
                return self.gload(st, d[1], off, n, rt)
            if d == "top":
                return self.havoc(rt, "unknown memory", st, key=("top", oid, off, n, id(o)))
            if callable(d):
                v = d(self, st, oid, off, n, rt)
                ow = st.w(oid)
                ow.cells[off] = (n, v)
                return v
            return U
        if len(parts) == 1:
            co, cn, cv = parts[0]
            if cv == ("z0",) and co <= off and off + n <= co + cn:
                return self.typed_zero(rt) or U
            if co <= off and off + n <= co + cn and cv[0] == "n" and rt.k == "int":
                sh = (off - co) * 8
                L = (cv[2], cv[3])
                for s2, A in self.norm(st, cv, False)[:1]:
                    q = self.divc(s2, A, 1 << sh) if sh else A
                    return N(rt.a, q[0], q[1])
            if cv == U:
                return U
        parts.sort()
        if rt.k == "int" and all(pv[0] == "n" or pv == ("z0",) for _, _, pv in parts) and parts[0][0] == off and \
                sum(x[1] for x in parts) == n and all(x[0] + x[1] == y[0] for x, y in zip(parts, parts[1:])):
            tot = const(0)
            for co, cn, cv in parts:
                if cv == ("z0",):
                    continue
                r = self.norm(st, cv, False)
                if len(r) != 1:
                    break
                tot = add(tot, r[0][1], 1 << ((co - off) * 8))
            else:
                return N(rt.a, tot[0], tot[1])
        if any(cv == U for _, _, cv in parts):
            return U
        self.taint(st, "partial memory access")
        return self.havoc(rt, "partial", st)

    def load_sym(self, st, p, o, ty, n):
        L = (p[2], p[3])
        rt = self.mod.res(ty)
        if o.meta and callable(o.meta.get("load") if isinstance(o.meta, dict) else None):
            return o.meta["load"](self, st, p, rt, n)
        a, b = st.num.rng(self.sy, L)
        if o.size is not None and not o.size[1]:
            a = max(a, 0); b = min(b, o.size[0] - n)
        if b - a <= 64 * n and b - a < 4096:
            out = []
            step = n
            for off in range(a, b + 1, 1):
                s = st.copy()
                s = self.eq(s, addc(L, -off))
                if s is None:
                    continue
                out.append((s, self.loadc(s, p[1], s.mem[p[1]], off, n, rt)))
            return out
        self.taint(st, "indexed read")
        return [(st, self.havoc(rt, "indexed read", st))]

    def retype(self, st, v, rt):
        k = rt.k
        if v[0] == "u":
            return v
        if v == ("z0",):
            return self.typed_zero(rt) or U
        if k == "int":
            if v[0] == "n":
                if v[1] != rt.a:
                    return N(rt.a, v[2], v[3])
                return v
            if v[0] == "z" and v[1] != rt.a:
                return ("z", rt.a, v[2])
            if v[0] == "p":
                return self.p2i(st, v)
            return v
        if k == "ptr" and v[0] == "n":
            return self.i2p(st, v)
        return v

    def i2p(self, st, v):
        if not v[3]:
            return NULL if v[2] == 0 else ("p", 0, v[2], ())
        for s, c in v[3]:
            nm = self.sy.name[s]
            if c == 1 and nm.startswith("addr("):
                for k, q in self.sy.memo.items():
                    if q == s and k[0] == "addr":
                        R = sub((v[2], v[3]), var(s))
                        return ("p", k[1], R[0], R[1])
        raise Giveup("pointer made from a number")

    def havoc(self, rt, name, st=None, key=None):
        mk = (lambda f: self.memo(key, f)) if key is not None else (lambda f: f())
        if rt.k == "int":
            if rt.a == 1:
                return ("c", ("sb", mk(lambda: ("weak", self.fresh(1, name)))))
            s = mk(lambda: self.fresh(rt.a, name, weak=True))
            return ("n", rt.a, 0, ((s, 1),))
        if rt.k == "float":
            return ("f", mk(lambda: ("x", name, self.fresh(8, name))))
        if rt.k == "ptr":
            return ("q", mk(lambda: self.fresh(64, name, weak=True)))
        if rt.k == "void":
            return U
        if rt.k == "struct":
            return ("a", tuple(self.havoc(self.mod.res(e), name, st) for e in rt.a))
        return ("x", mk(lambda: self.fresh(8, name, weak=True)))

    def store(self, st, p, v, ty):
        rt = self.mod.res(ty)
        if rt.k in ("struct", "arr") and v[0] == "a":
            offs = self.mod.offsets(rt) if rt.k == "struct" else [i * self.mod.size(rt.b) for i in range(rt.a)]
            els = rt.a if rt.k == "struct" else [rt.b] * rt.a
            for o, e, x in zip(offs, els, v[1]):
                self.store(st, self.padd(p, const(o)), x, e)
            return
        n = self.mod.size(ty)
        o, off = self.access(st, p, n, "write")
        if off is None:
            self.store_sym(st, p, o, v, n)
            return
        if v[0] == "c":
            v = ("z", 8, v[1]) if not isinstance(v[1], bool) else N(8, int(v[1]))
        self.storec(st, p[1], off, n, v)

    def store_sym(self, st, p, o, v, n):
        if o.meta and isinstance(o.meta, dict) and callable(o.meta.get("store")):
            o.meta["store"](self, st, p, v, n)
            return
        ow = st.w(p[1])
        ow.cells = {}
        ow.default = "top"
        self.taint(st, "indexed write")

    def storec(self, st, oid, off, n, v):
        o = st.w(oid)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        for co in [k for k, (cn, _) in cells.items() if k < off + n and off < k + cn]:
            cn, cv = cells.pop(co)
            if cv == ("z0",):
                if co < off:
                    cells[co] = (off - co, cv)
                if co + cn > off + n:
                    cells[off + n] = (co + cn - off - n, cv)
            elif cv[0] == "n" and cn <= 16 and not cv[3]:
                # keep the untouched bytes of a constant
                for i in range(cn):
                    if not (off <= co + i < off + n):
                        cells[co + i] = (1, N(8, cv[2] >> (8 * i)))
        cells[off] = (n, v)

    def padd(self, p, L):
        if p[0] != "p":
            if p[0] == "u":
                return U
            if p[0] == "q":
                return p
            raise Giveup("pointer arithmetic on %r" % (p[0],))
        if not L[1] and not p[3]:
            return ("p", p[1], p[2] + L[0], ())
        R = add((p[2], p[3]), L)
        return ("p", p[1], R[0], R[1])

    def free(self, st, oid, why):
        st.mem.pop(oid, None)
        st.own.discard(oid)
        st.freed[oid] = why

    # constant initialisers
    def gload(self, st, name, off, n, rt):
        g = self.mod.gvar(name)
        if g is None:
            return self.havoc(rt, name, st)
        if g["init"] is None:
            if g["ext"]:
                h = self.extglobal
                if h is not None:
                    v = h(self, st, name, off, n, rt)
                    if v is not None:
                        return v
                self.taint(st, "external variable " + name)
                return self.havoc(rt, name, st, key=("ext", name, off, n))
            return self.typed_zero(rt) or U
        return self.cread(st, g["init"], g["type"], off, n, rt)

    extglobal = None

    def cread(self, st, init, t, off, n, rt):
        r = self.mod.res(t)
        k = init[0]
        if k == "zero":
            return self.typed_zero(rt) or U
        if k == "undef":
            return U
        if k == "str":
            b = init[1][off:off + n]
            return N(rt.a, int.from_bytes(b, "little")) if rt.k == "int" else U
        if k == "agg":
            if r.k == "struct":
                offs = self.mod.offsets(r)
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= off:
                        et, ev = init[1][i]
                        if off + n <= offs[i] + self.mod.size(et):
                            return self.cread(st, ev, et, off - offs[i], n, rt)
                        return U
            else:
                es = self.mod.size(r.b)
                i = off // es
                if i < len(init[1]):
                    et, ev = init[1][i]
                    return self.cread(st, ev, et, off - i * es, n, rt)
            return U
        if off == 0 and n == self.mod.size(t):
            return self.retype(st, self.cval(st, init, t), rt)
        if k == "i" and rt.k == "int":
            return N(rt.a, (init[1] & ((1 << (8 * self.mod.size(t))) - 1)) >> (8 * off))
        return U

    def cval(self, st, v, t):
        k = v[0]
        if k == "i":
            if t.k == "int" and t.a == 1:
                return ("c", bool(v[1]))
            return N(t.a, v[1])
        if k == "null":
            return NULL
        if k == "g":
            n = v[1]
            n = self.mod.aliases.get(n, n)
            if n in self.mod.funcs:
                return ("p", "fn:" + n, 0, ())
            return ("p", "g:" + n, 0, ())
        if k == "f":
            return ("f", ("k", fparse(v[1], t)))
        if k == "undef":
            return U
        if k == "zero":
            z = self.typed_zero(self.mod.res(t))
            if z is not None:
                return z
            r = self.mod.res(t)
            if r.k == "struct":
                return ("a", tuple(self.cval(st, ("zero",), e) for e in r.a))
            return U
        if k == "agg":
            return ("a", tuple(self.cval(st, ev, et) for et, ev in v[1]))
        if k == "ce":
            if v[1] == "gep":
                base = self.cval(st, v[3][0][1], v[3][0][0])
                return self.padd(base, self.gepoff(st, None, v[2], v[3][1:]))
            if v[1] in ("ptrtoint",):
                return self.p2i(st, self.cval(st, v[3], v[2]))
            if v[1] == "inttoptr":
                return self.i2p(st, self.cval(st, v[3], v[2]))
            if v[1] in ("bitcast", "addrspacecast"):
                return self.cval(st, v[3], v[2])
            if v[1] == "sub":
                a = self.cval(st, v[3], v[2]); b = self.cval(st, v[4], v[2])
                R = sub((a[2], a[3]), (b[2], b[3]))
                return N(a[1], R[0], R[1])
            if v[1] == "trunc":
                a = self.cval(st, v[3], v[2])
                return N(v[4].a, a[2], a[3])
        raise Giveup("constant %r" % (v[:2],))

    def gepoff(self, st, env, t, idx):
        """Linear byte offset of GEP indices (values must be 'n' and already signed-normal)."""
        tot = const(0)
        cur = t
        first = True
        for it, iv in idx:
            if first:
                es = self.mod.size(cur)
                v = iv if isinstance(iv, tuple) and iv[0] == "L" else self.cval(st, iv, it)
                L = v[1] if v[0] == "L" else (sgn(v[2], v[1]), v[3])
                tot = add(tot, L, es)
                first = False
                continue
            r = self.mod.res(cur)
            if r.k == "struct":
                v = iv if iv[0] != "i" else iv
                i = iv[1] if iv[0] == "i" else iv[1][0]
                if iv[0] == "L":
                    i = iv[1][0]
                tot = addc(tot, self.mod.offsets(r)[i])
                cur = r.a[i]
            else:
                es = self.mod.size(r.b)
                v = iv if iv[0] == "L" else self.cval(st, iv, it)
                L = v[1] if v[0] == "L" else (sgn(v[2], v[1]), v[3])
                tot = add(tot, L, es)
                cur = r.b
        return tot


class Bounds(Exception):
    """An access whose bounds the state does not prove."""

    def __init__(self, off, size, n, what):
        self.off, self.size, self.n, self.what = off, size, n, what


def fparse(s, t):
    import struct
    if s.startswith("0x"):
        if s[2] in "KMLHR":
            h = s[3:]
            if s[2] == "K":
                b = int(h, 16)
                se, man = b >> 64, b & ((1 << 64) - 1)
                sign = -1.0 if se >> 15 else 1.0
                e = (se & 0x7fff) - 16383 - 63
                if (se & 0x7fff) == 0x7fff:
                    return sign * float("inf") if man << 1 & ((1 << 64) - 1) == 0 else float("nan")
                try:
                    return sign * man * 2.0 ** e
                except OverflowError:
                    return sign * float("inf")
            return float("nan")
        return struct.unpack(">d", struct.pack(">Q", int(s, 16)))[0]
    return float(s)


def fopaque(t):
    """Is the term anything but a constant or a free input (so that its relations may depend on others)?"""
    return not (isinstance(t, tuple) and t and t[0] in ("k", "x"))


def fconst(t):
    if isinstance(t, tuple) and t and t[0] == "k":
        return t[1]
    return None
