"""std::string analysed from its own source, with a model of std::ostringstream that collects bytes.

The driver makes the compiler instantiate std::string (NSTR below); strings then are
ordinary memory whose bytes may be arbitrary, their lengths are known."""
from interp import *
from dom import const, addc, add, scale
import cstr

NSTR = r'''
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <string>
'''
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"


def one(e, st, p, t):
    r = e.load(st, p, t)
    if len(r) != 1:
        raise Giveup("string with several layouts")
    return r[0][1]


def at(e, p, k):
    return e.padd(p, const(k))


def content(e, st, p):
    """The bytes (engine values) of the std::string at p."""
    d, n = one(e, st, p, ir.PTR), one(e, st, at(e, p, 8), ir.mk("int", 64))
    if d[0] != "p" or n[0] != "n" or n[3]:
        raise Giveup("string of unknown length")
    return [one(e, st, at(e, d, i), ir.I8) for i in range(n[2])]


def build(e, st, p, items):
    """Writes a std::string with the given bytes at p."""
    n = len(items)
    if n < 16:
        d = at(e, p, 16)
    else:
        d = ("p", e.alloc(st, "heap", const(n + 1)), 0, ())
        e.store(st, at(e, p, 16), N(64, n), ir.mk("int", 64))
    e.store(st, p, d, ir.PTR)
    e.store(st, at(e, p, 8), N(64, n), ir.mk("int", 64))
    for i, v in enumerate(items):
        e.store(st, at(e, d, i), v, ir.I8)
    e.store(st, at(e, d, n), N(8, 0), ir.I8)


def key(p):
    return ("nos", p[1], p[2])


def digits(e, st, v, signed):
    """[(state, bytes of the decimal notation of v)], by the number of digits."""
    out = []
    for s, L in e.norm(st, v, signed):
        if not L[1]:
            out.append((s, [N(8, ord(c)) for c in str(L[0])]))
            continue
        lo, hi = s.num.rng(e.sy, L)
        for neg in (False, True):
            A = scale(L, -1) if neg else L
            top = -lo if neg else hi
            if top < (1 if neg else 0):
                continue
            for n in range(1, len(str(top)) + 1):
                t = s.copy()
                t = e.ge(t, addc(A, -(10 ** (n - 1) if n > 1 or neg else 0)))
                t = t and e.ge(t, addc(scale(A, -1), 10 ** n - 1))
                if t is None:
                    continue
                d = [e.sym(32, "digit", lo=1 if k == n - 1 and (n > 1 or neg) else 0, hi=9) for k in range(n)]
                tot = scale(A, -1)
                for k, x in enumerate(d):
                    tot = add(tot, scale((x[2], x[3]), 10 ** k))
                t = e.eq(t, tot)
                if t is None:
                    continue
                out.append((t, ([N(8, 45)] if neg else []) + [N(8, x[2] + 48, x[3]) for x in reversed(d)]))
    return out


def install(eng):
    cstr.install(eng)
    import hashtab
    hashtab.install(eng)
    S = re.escape(STR)

    def disjunct(e, st, a, i, f):
        d = one(e, st, a[0], ir.PTR)
        if d[0] == "p" and a[1][0] == "p" and d[1] != a[1][1]:
            return ret(st, ("c", True))
        return None
    eng.hook(S + r"::_M_disjunct\(", disjunct)

    def cold(e, st, a, i, f):
        """_M_replace_cold for a source in another object is not reached (see disjunct)."""
        return None

    def near(st, p):
        """The key of the stream object that p denotes (its stream, output or virtual base)."""
        if p[0] != "p" or p[3]:
            raise Giveup("unknown stream")
        best = None
        for k in st.g:
            if isinstance(k, tuple) and k[0] == "nos" and k[1] == p[1] and 0 <= p[2] - k[2] < 400 and (best is None or k[2] > best[2]):
                best = k
        if best is None:
            raise Giveup("unknown string stream")
        return best

    def oss(e, st, a, i, f):
        d = e.mod.dem(f.name)
        cls, m = re.match(r"std::__cxx11::(basic_[oi]?stringstream)<char, std::char_traits<char>, std::allocator<char> >::(.*)$", d).groups()
        if m.startswith(cls + "("):
            ps = m[len(cls) + 1:]
            items = ()
            if ps.startswith("std::__cxx11::basic_string<") and "const&" in ps:
                items = tuple(content(e, st, a[1]))
                if cls != "basic_istringstream" and len(a) > 2 and (a[2][0] != "n" or a[2][3] or a[2][2] & 3):
                    raise Giveup("string stream with an initial content that is appended to")
            elif not ps.startswith(")") and not ps.startswith("std::_Ios_Openmode"):
                raise Giveup("string stream constructor " + ps)
            import streams
            streams.vptr(e, st, a[0])
            st.g[key(a[0])] = items
            st.g[("nput",) + key(a[0])] = 0 if items else None
            st.g[("nget",) + key(a[0])] = (0, 0)
            return ret(st)
        if m.startswith("~"):
            for x in ("nprec", "nput", "nget"):
                st.g.pop((x,) + key(a[0]), None)
            st.g.pop(key(a[0]), None)
            return ret(st)
        if m.startswith("str() const") or m.startswith("str[abi:cxx11]() const"):
            build(e, st, a[0], list(st.g[near(st, a[1])]))
            return ret(st)
        if m.startswith("str("):
            k = near(st, a[0])
            st.g[k] = tuple(content(e, st, a[1]))
            st.g[("nput",) + k] = 0 if st.g[k] else None
            st.g[("nget",) + k] = (0, st.g[("nget",) + k][1])
            return ret(st)
        raise Giveup(cls + "::" + m)
    eng.hook(r"std::__cxx11::basic_[oi]?stringstream<char, std::char_traits<char>, std::allocator<char> >::", oss)

    def ios(e, st, a, i, f):
        d = e.mod.dem(f.name)
        m = re.match(r"std::basic_ios<.*?>::(operator bool|operator!|\w+)\(", d)
        k = near(st, a[0])
        b = st.g[("nget",) + k][1]
        v = {"good": b == 0, "eof": bool(b & 2), "fail": bool(b & 5), "bad": bool(b & 1), "operator!": bool(b & 5), "operator bool": not b & 5}
        if not m or m.group(1) not in v:
            raise Giveup(d)
        return ret(st, ("c", v[m.group(1)]))
    eng.hook(r"std::basic_ios<char, std::char_traits<char> >::(good|eof|fail|bad|operator bool|operator!)\(\) const", ios)

    def getline(e, st, a, i, f):
        k = near(st, a[0])
        pos, bits = st.g[("nget",) + k]
        if bits:
            st.g[("nget",) + k] = (pos, bits | 4)
            return ret(st, a[0])
        items = st.g[k]
        delim = a[2] if len(a) > 2 else N(8, 10)
        out = []
        work = [(st, pos)]
        while work:
            s, j = work.pop()
            if j >= len(items):
                build(e, s, a[1], list(items[pos:]))
                s.g[("nget",) + k] = (j, 2 | (4 if j == pos else 0))
                out += ret(s, a[0])
                continue
            for c, s1 in e.icmp(s, "eq", items[j], delim):
                for s2, hit in e.split(s1, c[1]):
                    s2 = s2.copy()
                    if not hit:
                        work.append((s2, j + 1))
                        continue
                    build(e, s2, a[1], list(items[pos:j]))
                    s2.g[("nget",) + k] = (j + 1, 0)
                    out += ret(s2, a[0])
        return out
    eng.hook(r"std::basic_istream<char, std::char_traits<char> >& std::getline<", getline)

    def skip(e, st, k, j, space):
        """[(state, position of the first byte from j on that is (not) a space)]."""
        items = st.g[k]
        out, work = [], [(st, j)]
        while work:
            s, j = work.pop()
            if j >= len(items):
                out.append((s, j))
                continue
            todo = [(s, None)]
            for c in (32, 9, 10, 11, 12, 13):
                nxt = []
                for s0, _ in todo:
                    for c0, s1 in e.icmp(s0, "eq", items[j], N(8, c)):
                        for s2, hit in e.split(s1, c0[1]):
                            if not hit:
                                nxt.append((s2, None))
                            elif space:
                                work.append((s2, j + 1))
                            else:
                                out.append((s2, j))
                todo = nxt
            for s0, _ in todo:
                if space:
                    out.append((s0, j))
                else:
                    work.append((s0, j + 1))
        return [(s.copy(), j) for s, j in out]

    def word(e, st, a, i, f):
        """std::ws, and extraction of a word into a std::string."""
        d = e.mod.dem(f.name)
        if "(*)" in d:
            if a[1][0] != "p" or "_ZSt2ws" not in str(a[1][1]):
                raise Giveup("stream manipulator")
            d = "std::ws"
        k = near(st, a[0])
        pos, bits = st.g[("nget",) + k]
        if bits:
            if "std::ws" not in d:
                st.g[("nget",) + k] = (pos, bits | 4)
            return ret(st, a[0])
        out = []
        for s, j in skip(e, st, k, pos, True):
            n = len(s.g[k])
            if "std::ws" in d:
                s.g[("nget",) + k] = (j, 2 if j == n else 0)
                out += ret(s, a[0])
                continue
            for s2, m in skip(e, s, k, j, False):
                build(e, s2, a[1], list(s2.g[k][j:m]))
                s2.g[("nget",) + k] = (m, (2 if m == n else 0) | (4 if m == j else 0))
                out += ret(s2, a[0])
        return out
    eng.hook(r"std::basic_istream<char, std::char_traits<char> >& std::(ws<|operator>> ?<char, std::char_traits<char>, std::allocator<char> >)", word)
    eng.hook(r"std::basic_istream<char, std::char_traits<char> >::operator>>\(std::basic_istream<char, std::char_traits<char> >& \(\*\)", word)

    def put(e, st, p, items):
        k = near(st, p)
        at_ = st.g.get(("nput",) + k)
        if at_ is None:
            st.g[k] = st.g[k] + tuple(items)
        else:
            c = st.g[k]
            st.g[k] = c[:at_] + tuple(items) + c[at_ + len(items):]
            st.g[("nput",) + k] = at_ + len(items)

    def ins(e, st, a, i, f):
        d = e.mod.dem(f.name)
        t = d[d.rindex("operator<<"):]
        tail = d[d.rindex(">&, ") + 4:-1] if ">&, " in d else ""
        if tail in ("unsigned char", "char", "signed char"):
            put(e, st, a[0], [a[1]])
            return ret(st, a[0])
        if tail in ("char const*", "unsigned char const*", "signed char const*"):
            out = []
            for s, n in cstr.strlens(e, st, a[1]):
                put(e, s, a[0], [one(e, s, at(e, a[1], k), ir.I8) for k in range(n)])
                out.append(("ret", a[0], s))
            return out
        if "std::allocator<char> > const&" in d:
            put(e, st, a[0], content(e, st, a[1]))
            return ret(st, a[0])
        if tail == "std::_Setprecision" and a[1][0] == "n" and not a[1][3]:
            st.g[("nprec",) + near(st, a[0])] = a[1][2]
            return ret(st, a[0])
        raise Giveup("stream insertion " + tail)
    eng.hook(r"^(std::basic_ostream<char, std::char_traits<char> >& )?std::operator<< ?<", ins)

    def mkstream(e, st, a, i, f):
        """vp_stream(bytes, n): an input stream that holds the bytes."""
        import streams
        n = a[1]
        if n[0] != "n" or n[3]:
            raise Giveup("stream of unknown length")
        oid = e.alloc(st, "global", None, "z", {})
        p = ("p", oid, 0, ())
        streams.vptr(e, st, p)
        st.g[("nis", oid)] = tuple(one(e, st, at(e, a[0], k), ir.I8) for k in range(n[2]))
        return ret(st, p)
    eng.hook(r"^vp_stream$", mkstream)
    eng.hook(r"^std::(basic_ios|basic_ifstream|basic_istringstream)<char, std::char_traits<char>.*>::rdbuf\(\) const", lambda e, st, a, i, f: ret(st, a[0]) if a[0][0] == "p" and ("nis", a[0][1]) in st.g else None)

    def insnum(e, st, a, i, f):
        """Insertion of a number into a stream of default format."""
        d = e.mod.dem(f.name)
        t = d[d.rindex("(") + 1:-1]
        out = []
        if t in ("float", "double", "long double"):
            c = fconst(e.fterm(a[1]))
            if c is None:
                e.taint(st, "text of an unknown floating-point number")
                c = 2.5
            k = st.g.get(("nprec",) + near(st, a[0]), 6)
            put(e, st, a[0], [N(8, ord(x)) for x in "%.*g" % (k, c)])
            return ret(st, a[0])
        for s, items in digits(e, st, a[1], "unsigned" not in t):
            s = s.copy()
            put(e, s, a[0], items)
            out += ret(s, a[0])
        return out
    eng.hook(r"std::basic_ostream<char, std::char_traits<char> >::operator<<\((unsigned )?(long long|long|int|short|float|double|long double)\)", insnum)

    def insbuf(e, st, a, i, f):
        if a[1][0] != "p" or ("nis", a[1][1]) not in st.g:
            raise Giveup("unknown stream buffer")
        put(e, st, a[0], st.g[("nis", a[1][1])])
        st.g[("nis", a[1][1])] = ()
        return ret(st, a[0])
    eng.hook(r"std::basic_ostream<char, std::char_traits<char> >::operator<<\(std::basic_streambuf", insbuf)

    def tx(e, st, a, i, f):
        out = []
        for s, n in cstr.strlens(e, st, a[1]):
            s = s.copy()
            put(e, s, a[0], [one(e, s, at(e, a[1], k), ir.I8) for k in range(n)])
            out.append(("ret", a[0], s))
        return out
