"""Abstract texts: models of Caitlyn::Char, Caitlyn::String, std::string and string streams.

The content of a text object is a tuple of items
  ('e', v)             one character with code point v (a 32-bit engine number)
  ('x', id, lo, hi)    the characters [lo, hi) of the arbitrary text id (linear forms)
  ('r', v, n)          character v, n times (n a linear form)
  ('d', term, len)     the decimal notation of an unknown number (len: linear form)
and lives in a memory cell at the object's address, so construction, destruction and
use after either are checked like those of any other object.  A std::string is a text
in UTF-8: its length in bytes is known only where its characters are.

Checks about Char (C13) or String (C17, C18) do not install the model of the class
they are about: they analyse its code.
"""
import re
from interp import *
from dom import add, sub, scale, addc, const, var
import drv

CH = 32          # sizeof(Char) == sizeof(std::string)
STR = 24         # sizeof(String)
NPOS = (1 << 64) - 1


def cp(n):
    return N(32, n)


def lit(s):
    """Items of a Python string."""
    return tuple(("e", cp(ord(c))) for c in s)


def litof(items):
    """Python string of fully known items, else None."""
    out = []
    for it in items:
        if it[0] == "e" and not it[1][3]:
            out.append(chr(it[1][2]))
        elif it[0] == "r" and not it[1][3] and not it[2][1]:
            out.append(chr(it[1][2]) * it[2][0])
        else:
            return None
    return "".join(out)


def norm_items(items):
    """Canonical form: merges neighbouring slices and runs, drops empty ones."""
    out = []
    for it in items:
        if it[0] == "x" and it[2] == it[3]:
            continue
        if it[0] == "r":
            if it[2] == const(0):
                continue
            if not it[2][1] and it[2][0] <= 8:
                out += [("e", it[1])] * it[2][0]
                continue
        if out and it[0] == "x" and out[-1][0] == "x" and out[-1][1] == it[1] and out[-1][3] == it[2]:
            out[-1] = ("x", it[1], out[-1][2], it[3])
            continue
        out.append(it)
    return tuple(out)


def ilen(it):
    k = it[0]
    if k == "e":
        return const(1)
    if k == "x":
        return sub(it[3], it[2])
    return it[2]


def tlen(items):
    L = const(0)
    for it in items:
        L = add(L, ilen(it))
    return L


def L2N(w, L):
    return N(w, L[0], L[1])


class NotUtf8(Giveup):
    pass


class Text:
    """Operations on texts inside one engine."""

    def __init__(self, eng):
        self.e = eng
        eng.text = self

    # ------------------------------------------------------------ arbitrary texts
    def opaque(self, st, name, minlen=0, maxlen=None):
        """An arbitrary text: (items, length form)."""
        e = self.e
        n = e.memo(("tlen", name), lambda: e.fresh(64, "len(" + name + ")", lo=minlen, hi=(1 << 40) if maxlen is None else maxlen))
        return norm_items((("x", name, const(0), var(n)),)), var(n)

    def splits(self, st, L):
        """[(state, L >= 0 ?)]"""
        e = self.e
        lo, hi = st.num.rng(e.sy, L)
        if lo >= 0:
            return [(st, True)]
        if hi < 0:
            return [(st, False)]
        out = []
        a = e.ge(st.copy(), L)
        if a is not None:
            out.append((a, True))
        b = e.ge(st.copy(), addc(scale(L, -1), -1))
        if b is not None:
            out.append((b, False))
        return out

    def elem_x(self, st, tid, k):
        """Character k (linear form) of the arbitrary text tid."""
        e = self.e
        key = ("xe", tid, k)
        used = st.g.get(("ix", tid), ())
        weak = False
        if k not in used:
            for u in used:
                d = sub(u, k)
                lo, hi = st.num.rng(e.sy, d)
                if not (lo > 0 or hi < 0 or st.num.entails_ne(e.sy, d)):
                    if st.num.entails_eq(e.sy, d):
                        return e.memo(("xe", tid, u), lambda: None)
                    weak = True
            st.g[("ix", tid)] = used + (k,)
        s = e.memo(key, lambda: e.fresh(32, "%s[%s]" % (tid, e.show(k)), lo=0, hi=0x10FFFF))
        if weak:
            e.taint(st, "two positions of a text that may coincide")
        return s

    def elem_xs(self, st, tid, k):
        """[(state, symbol)]: as elem_x, with a case distinction where positions may coincide."""
        e = self.e
        used = st.g.get(("ix", tid), ())
        if k in used:
            return [(st, self.elem_x(st, tid, k))]
        open_ = []
        for u in used:
            d = sub(u, k)
            lo, hi = st.num.rng(e.sy, d)
            if not (lo > 0 or hi < 0 or st.num.entails_ne(e.sy, d)):
                if st.num.entails_eq(e.sy, d):
                    return [(st, e.memo(("xe", tid, u), lambda: None))]
                open_.append((u, d))
        if len(open_) > 3:
            return [(st, self.elem_x(st, tid, k))]
        out = []
        cur = st
        for u, d in open_:
            s = e.eq(cur.copy(), d)
            if s is not None:
                out.append((s, e.memo(("xe", tid, u), lambda: None)))
            cur = e.ne(cur, d)
            if cur is None:
                return out
        return out + [(cur, self.elem_x(cur, tid, k))]

    def elem(self, st, items, k):
        """[(state, code point value)] of character k; the caller has checked the bounds."""
        e = self.e
        res = []
        work = [(st, 0, const(0))]
        while work:
            s, i, p = work.pop()
            if i >= len(items):
                continue
            it = items[i]
            end = add(p, ilen(it))
            last = i == len(items) - 1
            for s2, inside in ([(s, True)] if last else self.splits(s, addc(sub(end, k), -1))):
                if not inside:
                    work.append((s2, i + 1, end))
                    continue
                if it[0] in ("e", "r"):
                    res.append((s2, it[1]))
                elif it[0] == "x":
                    for s3, x in self.elem_xs(s2, it[1], add(it[2], sub(k, p))):
                        res.append((s3, N(32, 0, ((x, 1),))))
                else:
                    x = e.fresh(32, "digit", lo=0x2B, hi=0x7A, weak=True)
                    res.append((s2, N(32, 0, ((x, 1),))))
        return res

    def slice(self, st, items, a, b):
        """[(state, items)] of characters [a, b); 0 <= a <= b <= length already holds."""
        if a == b:
            return [(st, ())]
        res = []
        work = [(st, 0, const(0), ())]
        while work:
            s, i, p, acc = work.pop()
            if i >= len(items):
                res.append((s, norm_items(acc)))
                continue
            it = items[i]
            end = add(p, ilen(it))
            # lower cut: max(a, p), upper cut: min(b, end)
            for s1, ale in self.splits(s, sub(p, a)):            # p >= a
                if not ale:
                    nx = self.splits(s1, sub(a, end))            # a >= end: nothing of it
                else:
                    nx = [(s1, False)]
                for s2, none in nx:
                    if none:
                        work.append((s2, i + 1, end, acc))
                        continue
                    lo = p if ale else a
                    for s3, full in self.splits(s2, sub(b, end)):   # b >= end
                        if full:
                            work.append((s3, i + 1, end, acc + self.cut(it, sub(lo, p), sub(end, p))))
                            continue
                        for s4, empty in self.splits(s3, sub(lo, b)):
                            res.append((s4, norm_items(acc if empty else acc + self.cut(it, sub(lo, p), sub(b, p)))))
        return res

    def cut(self, it, a, b):
        if it[0] == "e":
            return (it,)
        if it[0] == "x":
            return (("x", it[1], add(it[2], a), add(it[2], b)),)
        if it[0] == "r":
            return (("r", it[1], sub(b, a)),)
        if a == const(0) and b == it[2]:
            return (it,)
        return (("x", ("num",) + (it[1],), a, b),)

    def equal(self, st, A, B):
        """[(state, equal?)]"""
        e = self.e
        A, B = norm_items(A), norm_items(B)
        if A == B:
            return [(st, True)]
        sa, sb = litof(A), litof(B)
        if sa is not None and sb is not None:
            return [(st, sa == sb)]
        la, lb = tlen(A), tlen(B)
        res = []
        for s, ge in self.splits(st, sub(la, lb)):
            for s2, le in (self.splits(s, sub(lb, la)) if ge else [(s, True)]):
                if not (ge and le):
                    res.append((s2, False))
                    continue
                # equal lengths
                n = None
                for L in (la, lb):
                    lo, hi = s2.num.rng(e.sy, L)
                    if lo == hi:
                        n = lo
                if n is None or n > 40:
                    b = ("eqtext",) + tuple(sorted((A, B), key=repr))
                    known = s2.bools.get(b)
                    if known is not None:
                        res.append((s2, known)); continue
                    t = s2.copy(); t.bools[b] = True
                    f = s2; f.bools[b] = False
                    res += [(t, True), (f, False)]
                    continue
                cur = [s2]
                for i in range(n):
                    nx = []
                    for s3 in cur:
                        for s4, x in self.elem(s3, A, const(i)):
                            for s5, y in self.elem(s4, B, const(i)):
                                for s6, t in e.split(s5, self.cpeq(x, y)):
                                    if t:
                                        nx.append(s6)
                                    else:
                                        res.append((s6, False))
                    cur = nx
                res += [(s3, True) for s3 in cur]
        return res

    def cpeq(self, x, y):
        if not x[3] and not y[3]:
            return x[2] == y[2]
        return ("cmp", "eq", x, y)

    def findx(self, st, items, pat, pos):
        """First occurrence at or after pos (0 <= pos <= length): [(state, position form | None)]."""
        e = self.e
        ps = litof(pat)
        s = litof(items)
        if ps is not None and s is not None and not pos[1]:
            r = s.find(ps, pos[0])
            return [(st, const(r) if r >= 0 else None)]
        n = tlen(items)
        m = tlen(pat)
        if ps is not None and len(ps) == 1:
            c = cp(ord(ps))
            return self.find1(st, items, c, pos, n)
        e.taint(st, "search of a longer pattern")
        out = [(st.copy(), None)]
        k = e.fresh(64, "found", lo=0, hi=1 << 40, weak=True)
        s = e.ge(st, sub(var(k), pos))
        s = e.ge(s, sub(sub(n, m), var(k))) if s is not None else None
        if s is not None:
            out.append((s, var(k)))
        return out

    def find1(self, st, items, c, pos, n):
        """Item-wise search for one character: exact first occurrence."""
        e = self.e
        res = []
        work = [(st, 0, const(0))]
        while work:
            s, i, p = work.pop()
            if i >= len(items):
                res.append((s, None))
                continue
            it = items[i]
            end = add(p, ilen(it))
            for s1, before in self.splits(s, sub(pos, end)):      # the whole item lies before pos
                if before:
                    work.append((s1, i + 1, end)); continue
                if it[0] == "e":
                    for s2, t in e.split(s1, self.cpeq(it[1], c)):
                        if t:
                            res.append((s2, p))
                        else:
                            work.append((s2, i + 1, end))
                    continue
                for s2, ge in self.splits(s1, sub(p, pos)):
                    start = p if ge else pos
                    if it[0] == "r":
                        for s3, t in e.split(s2, self.cpeq(it[1], c)):
                            if t:
                                for s4, ne in self.splits(s3, addc(sub(end, start), -1)):
                                    if ne:
                                        res.append((s4, start))
                                    else:
                                        work.append((s4, i + 1, end))
                            else:
                                work.append((s3, i + 1, end))
                        continue
                    if it[0] != "x":
                        e.taint(s2, "search in a number")
                        work.append((s2.copy(), i + 1, end))
                        x = e.fresh(64, "found", lo=0, hi=1 << 40)
                        s3 = e.ge(s2, sub(var(x), start))
                        s3 = e.ge(s3, addc(sub(end, var(x)), -1)) if s3 is not None else None
                        if s3 is not None:
                            res.append((s3, var(x)))
                        continue
                    tid = it[1]
                    off = sub(it[2], p)                     # text index = position + off
                    nk = s2.g.get("nfind", 0)
                    s2.g["nfind"] = nk + 1
                    x = e.memo(("find", nk, tid), lambda: e.fresh(64, "found%d" % nk, lo=0, hi=1 << 40))
                    # not found in this item: no known character of the range equals c
                    for s3 in self.none_in(s2.copy(), tid, add(start, off), add(end, off), c):
                        work.append((s3, i + 1, end))
                    # found at one of the known positions, or at a new one
                    used = s2.g.get(("ix", tid), ())
                    for u in used:
                        s3 = s2.copy()
                        at = sub(u, off)
                        s3 = e.ge(s3, sub(at, start))
                        s3 = e.ge(s3, addc(sub(end, at), -1)) if s3 is not None else None
                        if s3 is None:
                            continue
                        ux = e.memo(("xe", tid, u), lambda: None)
                        for s4 in e.assume(s3, self.cpeq(N(32, 0, ((ux, 1),)), c), True):
                            for s5 in self.none_in(s4, tid, add(start, off), u, c):
                                res.append((s5, at))
                    s3 = e.ge(s2.copy(), sub(var(x), start))
                    s3 = e.ge(s3, addc(sub(end, var(x)), -1)) if s3 is not None else None
                    for u in used:
                        if s3 is not None:
                            s3 = e.ne(s3, sub(add(var(x), off), u))
                    if s3 is not None:
                        f = add(var(x), off)
                        for s4 in self.none_in(s3, tid, add(start, off), f, c):
                            y = self.elem_x(s4, tid, f)
                            for s5 in e.assume(s4, self.cpeq(N(32, 0, ((y, 1),)), c), True):
                                res.append((s5, var(x)))
        return res

    def none_in(self, st, tid, a, b, c):
        """States in which no known character at a text index in [a, b) equals c."""
        e = self.e
        cur = [st]
        for u in st.g.get(("ix", tid), ()):
            ux = e.memo(("xe", tid, u), lambda: None)
            nx = []
            for s in cur:
                for s1, ge in self.splits(s, sub(u, a)):
                    if not ge:
                        nx.append(s1); continue
                    for s2, lt in self.splits(s1, addc(sub(b, u), -1)):
                        if not lt:
                            nx.append(s2); continue
                        nx += e.assume(s2, self.cpeq(N(32, 0, ((ux, 1),)), c), False)
            cur = nx
        return cur

    # ------------------------------------------------------------ objects
    def put(self, st, p, size, items):
        """Content of the text object at p."""
        if p[0] != "p":
            raise Giveup("text at an unknown place") if p[0] != "u" else Fault("text at an uninitialised address")
        self.e.access(st, p, size, "constructs text in")
        if p[3]:
            raise Giveup("text at a symbolic place")
        self.e.storec(st, p[1], p[2], size, ("T", norm_items(items)))

    def get(self, st, p, size, what="uses"):
        if p[0] == "u":
            raise Fault("%s text through an uninitialised address" % what)
        if p[0] != "p":
            raise Giveup("text at an unknown place")
        o, off = self.e.access(st, p, size, what)
        if o.meta and isinstance(o.meta, dict) and "buf" in o.meta:
            raise Giveup("text object inside a character buffer")
        if off is None:
            raise Giveup("text at a symbolic place")
        c = o.cells.get(off)
        if c is None or c[1][0] != "T":
            if c is None and o.default == "top":
                raise Giveup("unknown text")
            if c is not None and c[1] != U and c[1] != ("z0",) and c[1][0] != "T":
                raise Giveup("text overlaid with something else")
            raise Fault("%s a string that is not alive" % what)
        return c[1][1]

    def kill(self, st, p, size):
        self.get(st, p, size, "destroys")
        self.drop(st, p)
        self.e.storec(st, p[1], p[2], size, U)

    def drop(self, st, p):
        """Invalidates the character buffer handed out for the object at p."""
        b = st.g.pop(("buf", p[1], p[2]), None)
        if b is not None:
            self.e.free(st, b[0], "characters of a string that was changed or destroyed")

    def set(self, st, p, size, items):
        self.drop(st, p)
        self.e.storec(st, p[1], p[2], size, ("T", norm_items(items)))

    # single characters
    def getc(self, st, p):
        """[(state, code point value or None for the empty character)]"""
        if p[0] == "u":
            raise Fault("uses a character through an uninitialised address")
        if p[0] != "p":
            raise Giveup("character at an unknown place")
        o = st.mem.get(p[1])
        if o is not None and isinstance(o.meta, dict) and "buf" in o.meta:
            self.e.access(st, p, o.meta["w"], "reads a character")
            if o.meta["w"] != CH:
                raise Giveup("character inside bytes")
            return self.elem(st, o.meta["buf"], self.e.divc(st, (p[2], p[3]), CH))
        o, off = self.e.access(st, p, CH, "reads a character")
        if off is None:
            raise Giveup("character at a symbolic place")
        c = o.cells.get(off)
        if c is None or c[1][0] != "C":
            if c is None and (o.default == "top" or (isinstance(o.meta, dict) and o.meta.get("vec"))):
                raise Giveup("unknown character")
            if c is not None and c[1] != U and c[1] != ("z0",):
                raise Giveup("character overlaid")
            raise Fault("uses a character that is not alive")
        return [(st, c[1][1])]

    def putc(self, st, p, v):
        if p[0] != "p":
            raise Giveup("character at an unknown place")
        o = st.mem.get(p[1])
        if o is not None and isinstance(o.meta, dict) and "buf" in o.meta:
            self.e.access(st, p, CH, "writes a character")
            own = o.meta.get("owner")
            k = self.e.divc(st, (p[2], p[3]), CH)
            items = o.meta["buf"]
            n = tlen(items)
            r = self.slice(st, items, const(0), k)
            if len(r) != 1 or v is None or own is None:
                raise Giveup("write of a character inside a string")
            s, pre = r[0]
            r = self.slice(s, items, addc(k, 1), n)
            if len(r) != 1 or s is not st and False:
                raise Giveup("write of a character inside a string")
            s, post = r[0]
            new = norm_items(pre + (("e", v),) + post)
            if s is not st:
                st.num = s.num
            ob = st.w(p[1])
            ob.meta = dict(ob.meta); ob.meta["buf"] = new
            self.e.storec(st, own[0], own[1], STR, ("T", new))
            st.g[("buf",) + own] = (p[1], new)
            return
        o, off = self.e.access(st, p, CH, "writes a character")
        if off is None:
            raise Giveup("character at a symbolic place")
        self.e.storec(st, p[1], off, CH, ("C", v))

    def buf(self, st, p, size, w=CH):
        """Pointer to the characters of the text object at p."""
        items = self.get(st, p, size)
        b = st.g.get(("buf", p[1], p[2]))
        if b is not None and b[0] in st.mem and st.mem[b[0]].meta["w"] == w:
            return ("p", b[0], 0, ())
        oid = self.e.alloc(st, "buf", scale(tlen(items), w) if w == CH else None, U, {"buf": items, "w": w, "owner": (p[1], p[2])})
        st.g[("buf", p[1], p[2])] = (oid, items)
        return ("p", oid, 0, ())

    def cstr(self, st, p):
        """Items of a C string."""
        if p[0] == "u":
            raise Fault("uninitialised C string")
        if p[0] != "p":
            raise Giveup("unknown C string")
        if p[1] == 0:
            raise Fault("null used as a C string")
        o = st.mem.get(p[1])
        if o is not None and isinstance(o.meta, dict) and "buf" in o.meta and o.meta["w"] == 1:
            if (p[2], p[3]) == const(0):
                return o.meta["buf"]
            raise Giveup("C string from the middle of a text")
        if o is None and p[1] in st.freed:
            raise Fault("C string of storage that is no longer live (%s)" % st.freed[p[1]])
        if p[3]:
            raise Giveup("C string at a symbolic place")
        b = bytearray()
        off = p[2]
        while True:
            r = self.e.load(st, ("p", p[1], off, ()), ir.I8)
            if len(r) != 1 or r[0][1][0] != "n" or r[0][1][3]:
                if r and r[0][1][0] == "u":
                    raise Fault("C string runs into uninitialised bytes")
                raise Giveup("C string with unknown bytes")
            v = r[0][1][2]
            if v == 0:
                break
            b.append(v)
            off += 1
            if len(b) > 100000:
                raise Giveup("C string")
        try:
            return lit(bytes(b).decode("utf-8"))
        except UnicodeDecodeError:
            raise NotUtf8("C string that is not UTF-8", bytes(b))

    def bytelen(self, st, items):
        """Length in bytes: (linear form)."""
        e = self.e
        L = const(0)
        for it in items:
            if it[0] == "e" and not it[1][3]:
                c = it[1][2]
                L = addc(L, 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4)
            elif it[0] == "d":
                L = add(L, it[2])
            elif it[0] == "r" and not it[1][3] and it[1][2] < 0x80:
                L = add(L, it[2])
            else:
                n = ilen(it)
                def mk():
                    s = e.fresh(64, "bytes", lo=0, hi=1 << 42)
                    e.sy.facts[s] = (sub(var(s), n), sub(scale(n, 4), var(s)))
                    return s
                if it[0] == "e":
                    lo, hi = st.num.rng(e.sy, (it[1][2], it[1][3]))
                    if hi < 0x80:
                        L = addc(L, 1); continue
                s = e.memo(("bytelen", it), mk)
                L = add(L, var(s))
        return L

    def number(self, st, v, kind):
        """Items of the decimal notation of a number."""
        e = self.e
        if v[0] == "n" and not v[3]:
            return lit(str(sgn(v[2], v[1]) if kind == "i" else v[2]))
        if v[0] == "z":
            raise Giveup("text of a condition")
        n = e.memo(("dlen", kind, v), lambda: e.fresh(64, "digits", lo=1, hi=400))
        return (("d", (kind, v), var(n)),)


# ---------------------------------------------------------------------------------------------
BS = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"


def method(d, cls):
    """('name', ['param', ...]) of a member function of cls, or None."""
    if not d.startswith(cls + "::"):
        return None
    r = d[len(cls) + 2:]
    # name up to the parameter list
    depth = 0
    i = 0
    if r.startswith("operator"):
        m = re.match(r"operator(\(\)|\[\]|[-+*/%<>=!&|^~]+|->| \w[^(]*)?", r)
        i = m.end()
    while i < len(r):
        c = r[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            break
        i += 1
    name = r[:i]
    name = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
    return re.sub(r"\[abi:\w+\]", "", name), params(r[i:])


def params(s):
    """Splits '(a, b) const' at top level."""
    depth = 0
    out = []
    cur = ""
    for c in s[1:]:
        if c in "(<[":
            depth += 1
        elif c in ")>]":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def install_std_string(eng):
    """Model of std::string by the abstract text."""
    T = eng.text
    cache = {}

    def sitems(st, p):
        return T.get(st, p, CH)

    def h(e, st, a, inst, f):
        m = cache.get(f.name)
        if m is None:
            m = cache[f.name] = method(e.mod.dem(f.name), BS) or ("?", [])
        name, ps = m
        # struct return: the first argument is the result slot
        sret = bool(f.params and "sret" in str(f.params[0][2]))
        if sret:
            out, this, args = a[0], a[1], list(a[2:])
        else:
            out, this, args = None, a[0], list(a[1:])
        if ps and ps[-1].endswith("allocator<char> const&"):
            ps = ps[:-1]
        sig = ",".join(ps)
        if name == "basic_string":
            if sig == "":
                T.put(st, this, CH, ()); return ret(st)
            if sig == "char const*":
                T.put(st, this, CH, T.cstr(st, args[0])); return ret(st)
            if ps[0].endswith("const&") and "basic_string" in ps[0]:
                src = sitems(st, args[0])
                if len(ps) == 1:
                    T.put(st, this, CH, src); return ret(st)
                return sub_ctor(e, st, this, src, args)
            if ps[0].endswith("&&"):
                T.put(st, this, CH, sitems(st, args[0]))
                T.set(st, args[0], CH, ()); return ret(st)
            if sig in ("unsigned long,char",):
                r = []
                for s, v in char8(e, st, args[1]):
                    T.put(s, this, CH, (("r", v, num(e, s, args[0])),))
                    r += ret(s)
                return r
            if sig == "char const*,unsigned long":
                r = []
                items = T.cstr(st, args[0])
                n = num(e, st, args[1])
                T.put(st, this, CH, T.slice(st, items, const(0), n)[0][1]); return ret(st)
            raise Giveup("std::string constructor (%s)" % sig)
        if name == "~basic_string":
            T.kill(st, this, CH); return ret(st)
        if name == "operator=":
            if "char const*" == sig:
                sitems(st, this); T.set(st, this, CH, T.cstr(st, args[0])); return ret(st, this)
            if sig == "char":
                sitems(st, this)
                r = []
                for s, v in char8(e, st, args[0]):
                    T.set(s, this, CH, (("e", v),)); r += ret(s, this)
                return r
            src = sitems(st, args[0]); sitems(st, this)
            if this != args[0]:
                T.set(st, this, CH, src)
                if ps[0].endswith("&&"):
                    T.set(st, args[0], CH, ())
            return ret(st, this)
        if name in ("size", "length"):
            return ret(st, L2N(64, T.bytelen(st, sitems(st, this))))
        if name == "empty":
            r = []
            for s, ge in T.splits(st, addc(tlen(sitems(st, this)), -1)):
                r += ret(s, ("c", not ge))
            return r
        if name == "clear":
            sitems(st, this); T.set(st, this, CH, ()); return ret(st)
        if name in ("c_str", "data"):
            return ret(st, T.buf(st, this, CH, 1))
        if name in ("operator+=", "append", "push_back") or name == "assign":
            base = () if name == "assign" else sitems(st, this)
            if sig == "char const*":
                more = [(st, T.cstr(st, args[0]))]
            elif sig == "char":
                more = [(s, (("e", v),)) for s, v in char8(e, st, args[0])]
            elif sig == "unsigned long,char":
                n = num(e, st, args[0])
                more = [(s, (("r", v, n),)) for s, v in char8(e, st, args[1])]
            elif len(ps) == 1 and "basic_string" in sig:
                more = [(st, sitems(st, args[0]))]
                if name == "assign" and sig.endswith("&&"):
                    T.set(st, args[0], CH, ())
            else:
                raise Giveup("std::string::%s(%s)" % (name, sig))
            r = []
            for s, x in more:
                T.set(s, this, CH, base + x); r += ret(s, this)
            return r
        if name == "substr":
            items = sitems(st, this)
            return sub_ctor(e, st, out, items, args)
        if name in ("operator[]", "at", "front", "back"):
            items = sitems(st, this)
            s = litof(items)
            if s is None or not all(ord(c) < 128 for c in s):
                raise Giveup("byte of an unknown std::string")
            return ret(st, T.e.padd(T.buf(st, this, CH, 1), num(e, st, args[0]) if args else const(0)))
        raise Giveup("std::string::%s(%s)" % (name, sig))

    def sub_ctor(e, st, out, items, args):
        pos = num(e, st, args[0])
        cnt = num(e, st, args[1]) if len(args) > 1 else const(NPOS)
        if litof(items) is None and not all(it[0] == "d" for it in items):
            e.taint(st, "substr of a text of unknown byte lengths")
        n = tlen(items)
        r = []
        for s, ok in T.splits(st, sub(n, pos)):
            if not ok:
                r.append(e.throw(s, "_ZTISt12out_of_range")); continue
            for s2, all_ in T.splits(s, sub(cnt, sub(n, pos))):
                for s3, x in T.slice(s2, items, pos, n if all_ else add(pos, cnt)):
                    T.put(s3, out, CH, x)
                    r += ret(s3)
        return r
    eng.hook("^" + re.escape(BS) + "::", h)

    def free_op(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        i = d.index("(", d.index(">(") if ">(" in d else 0)
        ps = params(d[i:])
        if "operator+" in d.split("<", 1)[0]:
            out, args = a[0], a[1:]
            items = ()
            res = [(st, ())]
            for p, x in zip(ps, args):
                if "char const*" in p:
                    more = T.cstr(st, x)
                    res = [(s, i + more) for s, i in res]
                elif p == "char":
                    res = [(s2, i + (("e", v),)) for s, i in res for s2, v in char8(e, s, x)]
                else:
                    more = sitems(st, x)
                    res = [(s, i + more) for s, i in res]
            r = []
            for s, i in res:
                T.put(s, out, CH, i); r += ret(s)
            return r
        op = re.search(r"operator(==|!=|<=|>=|<|>)", d)
        if op is None:
            return None
        tx = []
        for p, x in zip(ps, a):
            tx.append(T.cstr(st, x) if "char const*" in p else sitems(st, x))
        return relation(e, st, op.group(1), tx[0], tx[1])

    def relation(e, st, op, A, B):
        r = []
        for s, t in T.equal(st, A, B):
            if op in ("==", "!="):
                r += ret(s, ("c", t == (op == "=="))); continue
            if t:
                r += ret(s, ("c", op in ("<=", ">="))); continue
            la, lb = litof(A), litof(B)
            if la is not None and lb is not None:
                r += ret(s, ("c", (la < lb) == (op in ("<", "<=")))); continue
            b = ("lttext", A, B)
            for v in (True, False):
                s2 = s.copy(); s2.bools[b] = v
                e.taint(s2, "order of unknown texts")
                r += ret(s2, ("c", v if op in ("<", "<=") else not v))
        return r
    T.relation = relation
    eng.hook(r"^(std::__cxx11::basic_string<char[^(]*|bool|decltype.*)? ?std::operator(\+|==|!=|<=|>=|<|>) ?<char, std::char_traits<char>, std::allocator<char> >\(", free_op)
    eng.hook(r"^(bool )?std::operator(==|!=|<=|>=|<|>) ?<char>\(", free_op)
    noop = lambda e, st, a, inst, f: ret(st)
    eng.hook(r"^std::(allocator|__new_allocator)<char>::~?(allocator|__new_allocator)\(", noop)

    def to_string(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        ty = params(d[d.index("("):])[0]
        k = "f" if ty in ("float", "double", "long double") else ("u" if "unsigned" in ty else "i")
        T.put(st, a[0], CH, T.number(st, a[1], k))
        return ret(st)
    eng.hook(r"^std::__cxx11::to_string\(", to_string)

    def stox(e, st, a, inst, f):
        """Number of a text: an arbitrary one of the type, or an exception."""
        d = e.mod.dem(f.name)
        name = re.match(r"std::__cxx11::(\w+)\(", d).group(1)
        items = T.get(st, a[0], CH)
        s0 = litof(items)
        signed = name in ("stoi", "stol", "stoll")
        w = {"stoi": 32}.get(name, 64)
        base = a[2][2] if len(a) > 2 and a[2][0] == "n" else 10
        if s0 is not None and name not in ("stod", "stof", "stold"):
            body = s0.lstrip(" \t\n\v\f\r")
            m = re.match(r"[+-]?(0[xX](?=[0-9a-fA-F]))?[0-9a-fA-F]*" if base == 16 else r"[+-]?[0-9]*", body)
            t = m.group(0)
            try:
                v = int(t, base)
            except ValueError:
                return [e.throw(st, "_ZTISt16invalid_argument")]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (-(1 << w) + 1, (1 << w) - 1)
            if not lo <= v <= hi:
                return [e.throw(st, "_ZTISt12out_of_range")]
            if len(a) > 1 and a[1][1] != 0:
                e.store(st, a[1], N(64, len(s0) - len(body) + len(t)), ir.I64)
            return ret(st, N(w, v))
        r = [e.throw(st.copy(), "_ZTISt16invalid_argument"), e.throw(st.copy(), "_ZTISt12out_of_range")]
        if name in ("stod", "stof", "stold"):
            v = ("f", ("x", "sto", e.memo(("sto", name, items), lambda: e.fresh(8, "sto"))))
        else:
            x = e.memo(("sto", name, items), lambda: e.fresh(w, name, signed))
            v = N(w, 0, ((x, 1),))
        n = e.memo(("stoused", items), lambda: e.fresh(64, "used", lo=1, hi=1 << 40))
        L = T.bytelen(st, items)
        s = e.ge(st, sub(L, var(n)))
        if s is not None:
            if len(a) > 1 and a[1][0] == "p" and a[1][1] != 0:
                e.store(s, a[1], N(64, 0, ((n, 1),)), ir.I64)
            s.g["sto"] = s.g.get("sto", ()) + ((name, items, v, var(n)),)
            r += ret(s, v)
        return r
    eng.hook(r"^std::__cxx11::sto\w+\(", stox)

    def what(e, st, a, inst, f):
        p = a[0]
        o = st.mem.get(p[1])
        if o is None:
            raise Fault("what() of an exception that no longer exists")
        c = o.cells.get(p[2] + 8)
        items = c[1][1] if c is not None and c[1][0] == "M" else T.opaque(st, "message of an exception")[0]
        return ret(st, ("p", e.alloc(st, "global", None, U, {"buf": items, "w": 1, "owner": None}), 0, ()))
    eng.rt["vp_what"] = what

    def exc_str(e, st, a, inst, f):
        # exception constructed from a text: remember the message
        try:
            d = e.mod.dem(f.name)
            items = T.cstr(st, a[1]) if "char const*" in d else sitems(st, a[1])
            e.excvt(st, a[0])
            e.storec(st, a[0][1], a[0][2] + 8, 8, ("M", items))
            if a[0][1] in st.mem and st.mem[a[0][1]].kind == "exc":
                o = st.w(a[0][1]); o.meta = dict(o.meta); o.meta["text"] = items
        except (Giveup, IndexError):
            pass
        return ret(st)
    eng.hooks.insert(0, (re.compile(r"std::(logic_error|runtime_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error)::\w+\((char const\*|std::__cxx11::basic_string)"), exc_str))


def num(e, st, v):
    """Linear form of an unsigned argument (it must not need a split)."""
    r = e.norm(st, v, False)
    if len(r) != 1:
        raise Giveup("argument that may wrap around")
    return r[0][1]


def nums(e, st, v):
    return e.norm(st, v, False)


def char8(e, st, v):
    """[(state, code point)] of a byte; bytes past 0x7F have no code point of their own."""
    out = []
    for s, v1 in e.tonum(st, v):
        for s2, L in e.norm(s, v1, False):
            for s3, ok in e.text.splits(s2, addc(scale(L, -1), 0x7F)):
                if ok:
                    out.append((s3, N(32, L[0], L[1])))
                else:
                    raise Giveup("byte of a multi-byte character")
    return out


CHAR = "Caitlyn::Char"
STRING = "Caitlyn::String"


def install_char(eng, native=()):
    """Model of Caitlyn::Char."""
    T = eng.text
    cache = {}

    def h(e, st, a, inst, f):
        m = cache.get(f.name)
        if m is None:
            m = cache[f.name] = method(e.mod.dem(f.name), CHAR) or ("?", [])
        name, ps = m
        sig = ",".join(ps)
        this = a[0]
        bad = lambda s: e.throw(s, "_ZTISt16invalid_argument")
        if name in ("Char", "operator="):
            isop = name == "operator="
            val = this if isop else U
            if isop:
                T.getc(st, this)
            if sig == "":
                T.putc(st, this, None); return ret(st)
            if sig == "Caitlyn::Char const&":
                r = []
                for s, v in T.getc(st, a[1]):
                    T.putc(s, this, v); r += ret(s, val)
                return r
            if sig == "Caitlyn::Char&&":
                r = []
                for s, v in T.getc(st, a[1]):
                    T.putc(s, this, v)
                    if a[1] != this and not ("buf" in (s.mem[a[1][1]].meta or {}) if isinstance(s.mem[a[1][1]].meta, dict) else False):
                        T.putc(s, a[1], None)
                    r += ret(s, val)
                return r
            if sig == "char":
                r = []
                for s, v1 in e.tonum(st, a[1]):
                    for s2, L in e.norm(s, v1, False):
                        for s3, ok in T.splits(s2, addc(scale(L, -1), 0x7F)):
                            if ok:
                                T.putc(s3, this, N(32, L[0], L[1])); r += ret(s3, val)
                            else:
                                r.append(bad(s3))
                return r
            if sig in ("unsigned int", "char32_t"):
                r = []
                for s, v1 in e.tonum(st, a[1]):
                    for s2, L in e.norm(s, v1, False):
                        for s3, ok in T.splits(s2, addc(scale(L, -1), 0x10FFFF)):
                            if not ok:
                                r.append(bad(s3)); continue
                            for s4, hi in T.splits(s3, addc(L, -0xE000)):
                                for s5, lo in ([(s4, False)] if hi else T.splits(s4, addc(L, -0xD800))):
                                    if lo:
                                        r.append(bad(s5)); continue
                                    T.putc(s5, this, N(32, L[0], L[1])); r += ret(s5, val)
                return r
            if sig == "char const*" or "basic_string" in sig:
                items = T.cstr(st, a[1]) if sig == "char const*" else T.get(st, a[1], CH)
                r = []
                for s, ge1 in T.splits(st, addc(tlen(items), -1)):
                    for s2, le1 in (T.splits(s, addc(scale(tlen(items), -1), 1)) if ge1 else [(s, False)]):
                        if not (ge1 and le1):
                            r.append(bad(s2)); continue
                        for s3, v in T.elem(s2, items, const(0)):
                            T.putc(s3, this, v); r += ret(s3, val)
                return r
            raise Giveup("Char(%s)" % sig)
        if name == "~Char":
            T.getc(st, this)
            if not (isinstance(st.mem[this[1]].meta, dict) and "buf" in st.mem[this[1]].meta):
                e.storec(st, this[1], this[2], CH, U)
            return ret(st)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            r = []
            for s, x in T.getc(st, a[0]):
                for s2, y in T.getc(s, a[1]):
                    op = name[8:]
                    if x is None or y is None:
                        k = (x is not None) - (y is not None)      # empty sorts first
                        t = {"==": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]
                        r += ret(s2, ("c", t)); continue
                    if not x[3] and not y[3]:
                        k = (x[2] > y[2]) - (x[2] < y[2])
                        t = {"==": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]
                        r += ret(s2, ("c", t)); continue
                    pr = {"==": "eq", "!=": "ne", "<": "ult", ">": "ugt", "<=": "ule", ">=": "uge"}[op]
                    r += ret(s2, ("c", ("cmp", pr, x, y)))
            return r
        if name == "GetCodePoint":
            return [o for s, v in T.getc(st, this) for o in ret(s, v if v is not None else cp(0))]
        if name in ("IsEmpty", "NotEmpty"):
            return [o for s, v in T.getc(st, this) for o in ret(s, ("c", (v is None) == (name == "IsEmpty")))]
        if name in ("size", "Length"):
            r = []
            for s, v in T.getc(st, this):
                if v is None:
                    r += ret(s, N(64, 0)); continue
                L = (v[2], v[3])
                cur = [s]
                for n, top in ((1, 0x7F), (2, 0x7FF), (3, 0xFFFF)):
                    nx = []
                    for s1 in cur:
                        for s2, ok in T.splits(s1, addc(scale(L, -1), top)):
                            if ok:
                                r += ret(s2, N(64, n))
                            else:
                                nx.append(s2)
                    cur = nx
                for s1 in cur:
                    r += ret(s1, N(64, 4))
            return r
        if name == "str":
            r = []
            for s, v in T.getc(st, a[1]):
                T.put(s, a[0], CH, (("e", v),) if v is not None else ()); r += ret(s)
            return r
        if name in ("c_str", "data"):
            r = []
            for s, v in T.getc(st, this):
                oid = e.alloc(s, "buf", None, U, {"buf": (("e", v),) if v is not None else (), "w": 1})
                r += ret(s, ("p", oid, 0, ()))
            return r
        raise Giveup("Char::%s" % name)
    eng.hook(r"^Caitlyn::Char::", h)


def install_string(eng):
    """Model of Caitlyn::String."""
    T = eng.text
    cache = {}

    def S(st, p):
        return T.get(st, p, STR)

    def h(e, st, a, inst, f):
        m = cache.get(f.name)
        if m is None:
            m = cache[f.name] = method(e.mod.dem(f.name), STRING) or ("?", [])
        name, ps = m
        if "::" in name or name.startswith("Formatter"):
            return None
        sig = ",".join(ps).replace("Caitlyn::", "")
        sret = bool(f.params and "sret" in str(f.params[0][2]))
        if sret:
            out, this, args = a[0], (a[1] if len(a) > 1 else None), list(a[2:])
        else:
            out, this, args = None, a[0], list(a[1:])

        def give(s, items):
            T.put(s, out, STR, items)
            return ret(s)
        if name == "String":
            if sig == "":
                T.put(st, this, STR, ()); return ret(st)
            if sig == "char const*":
                try:
                    items = T.cstr(st, args[0])
                except NotUtf8:
                    return [e.throw(st, "_ZTISt16invalid_argument")]
                T.put(st, this, STR, items); return ret(st)
            if sig == "String const&":
                T.put(st, this, STR, S(st, args[0])); return ret(st)
            if sig == "String&&":
                T.put(st, this, STR, S(st, args[0])); T.set(st, args[0], STR, ()); return ret(st)
            if sig.startswith("std::__cxx11::basic_string<char") and len(ps) == 1:
                T.put(st, this, STR, T.get(st, args[0], CH)); return ret(st)
            if sig in ("unsigned long,char", "unsigned long,Char const&"):
                r = []
                for s0, n in nums(e, st, args[0]):
                    for s, v in (char8(e, s0, args[1]) if sig.endswith("char") else T.getc(s0, args[1])):
                        if v is None:
                            raise Giveup("string of empty characters")
                        T.put(s, this, STR, (("r", v, n),)); r += ret(s)
                return r
            raise Giveup("String(%s)" % sig)
        if name == "~String":
            T.kill(st, this, STR); return ret(st)
        if name == "operator=":
            src = S(st, args[0]); S(st, this)
            if args[0] != this:
                T.set(st, this, STR, src)
                if sig.endswith("&&"):
                    T.set(st, args[0], STR, ())
            return ret(st, this)
        if name in ("size", "Length"):
            return ret(st, L2N(64, tlen(S(st, this))))
        if name in ("IsEmpty", "NotEmpty"):
            r = []
            for s, ge in T.splits(st, addc(tlen(S(st, this)), -1)):
                r += ret(s, ("c", ge == (name == "NotEmpty")))
            return r
        if name in ("operator[]", "At"):
            items = S(st, this)
            n = tlen(items)
            r = []
            for s, k in nums(e, st, args[0]):
                for s2, ok in T.splits(s, addc(sub(n, k), -1)):
                    if ok:
                        b = T.buf(s2, this, STR)
                        r += ret(s2, e.padd(b, scale(k, CH)))
                    elif name == "At":
                        r.append(e.throw(s2, "_ZTISt12out_of_range"))
                    else:
                        e.fault(s2, "bounds", "reads character %s of a string of length %s" % (e.show(k), e.show(n)))
            return r
        if name in ("begin", "cbegin"):
            return ret(st, T.buf(st, this, STR))
        if name in ("end", "cend"):
            return ret(st, e.padd(T.buf(st, this, STR), scale(tlen(S(st, this)), CH)))
        if name in ("operator+=",):
            T.set(st, this, STR, S(st, this) + S(st, args[0])); return ret(st, this)
        if name == "operator+":
            return give(st, S(st, this) + S(st, args[0]))
        if name == "PushBack":
            r = []
            for s, v in T.getc(st, args[0]):
                if v is None:
                    raise Giveup("appending an empty character")
                T.set(s, this, STR, S(s, this) + (("e", v),)); r += ret(s)
            return r
        if name == "Append":
            base = S(st, this)
            if sig == "char const*":
                T.set(st, this, STR, base + T.cstr(st, args[0])); return ret(st)
            if sig == "unsigned long,Char const&":
                r = []
                for s, n in nums(e, st, args[0]):
                    for s2, v in T.getc(s, args[1]):
                        if v is None:
                            raise Giveup("appending empty characters")
                        T.set(s2, this, STR, base + (("r", v, n),)); r += ret(s2)
                return r
            raise Giveup("String::Append(%s)" % sig)
        if name == "Insert":
            base = S(st, this)
            r = []
            for s, pos in nums(e, st, args[0]):
                for s2, ok in T.splits(s, sub(tlen(base), pos)):
                    if not ok:
                        r.append(e.throw(s2, "_ZTISt12out_of_range")); continue
                    if sig == "unsigned long,unsigned long,Char const&":
                        more = [(s4, (("r", v, n),)) for s3, n in nums(e, s2, args[1]) for s4, v in T.getc(s3, args[2]) if v is not None]
                    elif sig.endswith("char const*"):
                        more = [(s2, T.cstr(s2, args[1]))]
                    elif sig.endswith("String const&"):
                        more = [(s2, S(s2, args[1]))]
                    else:
                        raise Giveup("String::Insert(%s)" % sig)
                    for s3, x in more:
                        for s4, pre in T.slice(s3, base, const(0), pos):
                            for s5, post in T.slice(s4, base, pos, tlen(base)):
                                T.set(s5, this, STR, pre + x + post); r += ret(s5)
            return r
        if name == "Clear":
            S(st, this); T.set(st, this, STR, ()); return ret(st)
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            B = T.cstr(st, args[0]) if sig == "char const*" else S(st, args[0])
            return T.relation(e, st, name[8:], S(st, this), B)
        if name == "str":
            T.put(st, out, CH, S(st, this)); return ret(st)
        if name == "Substring":
            items = S(st, this)
            n = tlen(items)
            r = []
            for s, pos in nums(e, st, args[0]):
                for s0, cnt in nums(e, s, args[1]):
                    for s2, ok in T.splits(s0, sub(n, pos)):
                        if not ok:
                            r.append(e.throw(s2, "_ZTISt12out_of_range")); continue
                        for s3, all_ in T.splits(s2, sub(cnt, sub(n, pos))):
                            for s4, x in T.slice(s3, items, pos, n if all_ else add(pos, cnt)):
                                r += give(s4, x)
            return r
        if name == "Find":
            items = S(st, this)
            pat = S(st, args[0])
            r = []
            for s, pos in nums(e, st, args[1]):
                for s2, ok in T.splits(s, sub(tlen(items), pos)):
                    if not ok:
                        r += ret(s2, N(64, NPOS)); continue
                    for s3, k in T.findx(s2, items, pat, pos):
                        r += ret(s3, N(64, NPOS) if k is None else L2N(64, k))
            return r
        if name == "StartsWith":
            items, pre = S(st, this), S(st, args[0])
            r = []
            for s, ok in T.splits(st, sub(tlen(items), tlen(pre))):
                if not ok:
                    r += ret(s, ("c", False)); continue
                for s2, x in T.slice(s, items, const(0), tlen(pre)):
                    for s3, t in T.equal(s2, x, pre):
                        r += ret(s3, ("c", t))
            return r
        if name == "Contains":
            r = []
            for s, k in T.findx(st, S(st, this), S(st, args[0]), const(0)):
                r += ret(s, ("c", k is not None))
            return r
        if name == "Empty":
            T.put(st, a[0], STR, ()); return ret(st)
        if name in ("ValueOf", "Format"):
            return None
        raise Giveup("String::%s(%s)" % (name, sig))
    eng.hook(r"^Caitlyn::String::(?!Formatter)", h)


def install_all(eng, string=True, char=True):
    Text(eng)
    install_std_string(eng)
    if char:
        install_char(eng)
    if string:
        install_string(eng)
    import streams, hashtab
    streams.Streams(eng)
    hashtab.install(eng)
