"""C string and memory functions on concrete-length memory with arbitrary bytes."""
from interp import *
from dom import sub, addc, scale, const, var
import ir


def byte(e, st, p):
    """[(state, linear form of the unsigned byte at p)]"""
    out = []
    if p[0] == "u":
        raise Fault("reads through an uninitialised pointer")
    if p[0] != "p":
        raise Giveup("C string at an unknown place")
    if p[1] == 0:
        raise Fault("null used as a C string")
    o = st.mem.get(p[1])
    if o is not None and isinstance(o.meta, dict) and "buf" in o.meta:
        raise Giveup("byte of an abstract text")
    for s, v in e.load(st, p, ir.I8):
        if v[0] == "u":
            raise Fault("reads an uninitialised byte as part of a C string")
        for s2, v2 in e.tonum(s, v):
            out += e.norm(s2, v2, False)
    return out


def strlens(e, st, p, most=200):
    """[(state, length)] of the C string at p."""
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i > most:
            raise Giveup("long C string")
        q = e.padd(p, const(i))
        for s2, L in byte(e, s, q):
            if not L[1]:
                if L[0] == 0:
                    out.append((s2, i))
                else:
                    work.append((s2, i + 1))
                continue
            z = e.eq(s2.copy(), L)
            if z is not None:
                out.append((z, i))
            nz = e.ne(s2.copy(), L)
            if nz is not None:
                work.append((nz, i + 1))
    return out


def conc(e, st, v, what):
    """[(state, integer)] for a small set of possible values."""
    out = []
    for s, L in e.norm(st, v, False):
        if not L[1]:
            out.append((s, L[0])); continue
        lo, hi = s.num.rng(e.sy, L)
        if hi - lo > 64:
            raise Giveup(what)
        for k in range(lo, hi + 1):
            s2 = e.eq(s.copy(), addc(L, -k))
            if s2 is not None:
                out.append((s2, k))
    return out


def copyb(e, st, dst, src, n):
    from interp import copy_bytes
    copy_bytes(e, st, dst, src, n)


def word(st, a, b, left):
    """Size of the integer cells at a and b if they are words of the same size."""
    if a[0] != "p" or b[0] != "p" or a[3] or b[3]:
        return None
    ca, cb = (st.mem[p[1]].cells.get(p[2]) if p[1] in st.mem else None for p in (a, b))
    if ca and cb and ca[0] == cb[0] and 1 < ca[0] <= left and ca[1][0] == "n" and cb[1][0] == "n":
        return ca[0]
    return None


def compare(e, st, a, b, n, stop):
    """memcmp/strncmp: [(state, -1|0|1, None (of either sign) or a number of the right sign)]"""
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if n is not None and i >= n:
            out.append((s, 0)); continue
        if i > 8192:
            raise Giveup("long comparison")
        w = None if stop else word(s, e.padd(a, const(i)), e.padd(b, const(i)), n - i)
        if w:
            # whole words: only whether they are equal is known
            t = ir.mk("int", 8 * w)
            for s1, xv in e.load(s, e.padd(a, const(i)), t):
                for s2, yv in e.load(s1, e.padd(b, const(i)), t):
                    for s3, x in e.norm(s2, xv, True):
                        for s4, y in e.norm(s3, yv, True):
                            z = e.eq(s4.copy(), sub(x, y))
                            if z is not None:
                                work.append((z, i + w))
                            nz = e.ne(s4, sub(x, y))
                            if nz is not None:
                                out.append((nz, None))
            continue
        for s1, x in byte(e, s, e.padd(a, const(i))):
            for s2, y in byte(e, s1, e.padd(b, const(i))):
                s3 = e.ne(s2.copy(), sub(x, y))
                if s3 is not None:
                    d = sub(x, y)
                    lo, hi = s3.num.rng(e.sy, d)
                    out.append((s3, d if lo < 0 < hi else 1 if lo >= 0 else -1))
                s3 = e.eq(s2.copy(), sub(x, y))
                if s3 is None:
                    continue
                if not stop:
                    work.append((s3, i + 1)); continue
                z = e.eq(s3.copy(), x)
                if z is not None:
                    out.append((z, 0))
                nz = e.ne(s3, x)
                if nz is not None:
                    work.append((nz, i + 1))
    return out


def cmpval(e, k, st):
    """An arbitrary value of the sign the standard promises (the difference of the bytes if the sign is not known)."""
    if isinstance(k, tuple):
        return N(32, k[0], k[1])
    if k == 0:
        return N(32, 0)
    if k is None:
        v = e.sym(32, "cmp", lo=-(1 << 31), hi=(1 << 31) - 1)
        e.ne(st, (v[2], v[3]))
        return v
    return e.sym(32, "cmp", lo=1 if k > 0 else -(1 << 31), hi=(1 << 31) - 1 if k > 0 else -1)


def install(eng):
    R = eng.rt

    def h_strlen(e, st, a, i, f):
        return [("ret", N(64, n), s) for s, n in strlens(e, st, a[0])]

    def h_strcpy(e, st, a, i, f):
        out = []
        for s, n in strlens(e, st, a[1]):
            copyb(e, s, a[0], a[1], n + 1)
            out += ret(s, a[0])
        return out

    def h_strncpy(e, st, a, i, f):
        out = []
        for s, k in conc(e, st, a[2], "strncpy of unknown length"):
            work = [(s, 0, False)]
            while work:
                s2, j, z = work.pop()
                if j == k:
                    out += ret(s2, a[0]); continue
                if z:
                    e.store(s2, e.padd(a[0], const(j)), N(8, 0), ir.I8)
                    work.append((s2, j + 1, True)); continue
                for s3, L in byte(e, s2, e.padd(a[1], const(j))):
                    for cond, zz in ((True, True), (False, False)):
                        s4 = e.eq(s3.copy(), L) if cond else e.ne(s3.copy(), L)
                        if s4 is not None:
                            e.store(s4, e.padd(a[0], const(j)), N(8, L[0], L[1]), ir.I8)
                            work.append((s4, j + 1, zz))
        return out

    def h_strcat(e, st, a, i, f):
        out = []
        for s, n in strlens(e, st, a[0]):
            for s2, m in strlens(e, s, a[1]):
                copyb(e, s2, e.padd(a[0], const(n)), a[1], m + 1)
                out += ret(s2, a[0])
        return out

    def h_cmp(stop, hasn):
        def h(e, st, a, i, f):
            out = []
            for s, n in (conc(e, st, a[2], "comparison of unknown length") if hasn else [(st, None)]):
                out += [("ret", cmpval(e, k, s2), s2) for s2, k in compare(e, s, a[0], a[1], n, stop)]
            return out
        return h

    def h_memcpy(e, st, a, i, f):
        out = []
        for s, k in conc(e, st, a[2], "block copy of unknown length"):
            if k:
                copyb(e, s, a[0], a[1], k)
            out += ret(s, a[0])
        return out

    def h_memset(e, st, a, i, f):
        out = []
        for s, k in conc(e, st, a[2], "memset of unknown length"):
            for j in range(k):
                e.store(s, e.padd(a[0], const(j)), N(8, a[1][2], a[1][3]), ir.I8)
            out += ret(s, a[0])
        return out

    def h_malloc(e, st, a, i, f):
        out = []
        for s, L in e.norm(st, a[0], False):
            out += ret(s, ("p", e.alloc(s, "malloc", L, U, {}), 0, ()))
        return out

    def h_free(e, st, a, i, f):
        p = a[0]
        if p[0] == "u":
            raise Fault("frees an uninitialised pointer")
        if p[0] != "p":
            raise Giveup("free of an unknown pointer")
        if p[1] == 0:
            return ret(st)
        o = st.mem.get(p[1])
        if o is None:
            raise Fault("frees storage twice")
        if o.kind != "malloc" or p[3] or p[2]:
            raise Fault("frees something that was not allocated with malloc")
        e.free(st, p[1], "freed")
        return ret(st)

    def h_strdup(e, st, a, i, f):
        out = []
        for s, n in strlens(e, st, a[0]):
            q = ("p", e.alloc(s, "malloc", const(n + 1), U, {}), 0, ())
            copyb(e, s, q, a[0], n + 1)
            out += ret(s, q)
        return out

    def h_memchr(e, st, a, i, f):
        out = []
        for s, n in conc(e, st, a[2], "memchr of unknown length"):
            for s1, c in e.norm(s, a[1], False):
                work = [(s1, 0)]
                while work:
                    s2, k = work.pop()
                    if k == n:
                        out += ret(s2, ("p", 0, 0, ())); continue
                    q = e.padd(a[0], const(k))
                    for s3, x in byte(e, s2, q):
                        z = e.eq(s3.copy(), sub(x, c))
                        if z is not None:
                            out += ret(z, q)
                        nz = e.ne(s3, sub(x, c))
                        if nz is not None:
                            work.append((nz, k + 1))
        return out

    def h_errno(e, st, a, i, f):
        o = st.g.get("errno")
        if o is None:
            o = e.alloc(st, "global", None, "top", {})
            e.storec(st, o, 0, 4, N(32, 0))
            st.g["errno"] = o
        return ret(st, ("p", o, 0, ()))
    R.update({"memchr": h_memchr, "__errno_location": h_errno})
    R.update({"strlen": h_strlen, "strcpy": h_strcpy, "strncpy": h_strncpy, "strcat": h_strcat, "strcmp": h_cmp(True, False), "strncmp": h_cmp(True, True),
              "memcmp": h_cmp(False, True), "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset, "malloc": h_malloc, "free": h_free, "strdup": h_strdup})
