"""Abstract standard streams: string streams, file streams, cin/cout/cerr/clog.

A stream object at (object, offset) has a record st.g[('os', object, offset)]:
  kind  'str' or 'file'
  items content of a string stream; for files the text inserted since the last flush
  pos   put position of a string stream / file position ('end' or a linear form)
  bits  state bits (1 bad, 2 eof, 4 fail), exc: exception mask
  open, mode, file   (files)
What is in a file is st.g[('dev', name items)]; it is an arbitrary text until it is
written.  Whether opening and flushing succeed is a fork of the analysis; the failures
so far are counted in st.g['iofail'].  The standard output streams keep the sequence of
('out', items) / ('flush',) in st.g[('os','cout',0)], and st.g['oslog'] orders the
flushes and reads of all of them.  The program may have untied cin from cout and cleared
unitbuf of cerr, so neither of the two flushes counts.

Characters are counted as bytes: contents that are not ASCII are out of scope of the
position arithmetic (seek, overwrite); concatenation does not depend on it.
"""
import re
from collections import namedtuple
from interp import *
from text import *
from dom import add, sub, scale, addc, const, var
import drv

Rec = namedtuple("Rec", "kind items pos bits exc open mode file gc")
NEW = Rec("str", (), "end", 0, 0, False, 0, None, 0)
BAD, EOF, FAIL = 1, 2, 4
APP, ATE, BIN, IN, OUT, TRUNC = 1, 2, 4, 8, 16, 32
STD = {"g:_ZSt4cout": "cout", "g:_ZSt4cerr": "cerr", "g:_ZSt4clog": "clog", "g:_ZSt3cin": "cin"}
FAILURE = "_ZTINSt8ios_base7failureB5cxx11E"
CT = "char, std::char_traits<char>"


def vptr(e, st, this):
    """Gives a stream object a virtual table whose base offsets are zero."""
    oid = st.g.get("vt")
    if oid is None or oid not in st.mem:
        oid = e.alloc(st, "global", None, "z", {})
        st.g["vt"] = oid
    st.mem[this[1]] = st.w(this[1])
    e.storec(st, this[1], this[2], 8, ("p", oid, 512, ()))


class Streams:
    def __init__(self, eng):
        self.e = eng
        eng.streams = self
        self.T = eng.text
        self.failures = True          # files may fail to open or to be written
        install(self)

    # ------------------------------------------------------------ records
    def key(self, st, p):
        if p[0] == "u":
            raise Fault("uses a stream through an uninitialised address")
        if p[0] != "p" or p[3]:
            raise Giveup("unknown stream")
        if p[1] in STD:
            return ("os", STD[p[1]], 0)
        best = None
        for k in st.g:
            if isinstance(k, tuple) and k[0] == "os" and k[1] == p[1] and 0 <= p[2] - k[2] < 600:
                if best is None or k[2] > best[2]:
                    best = k
        if best is None:
            if p[1] in st.freed:
                raise Fault("uses a stream that is no longer alive")
            raise Giveup("unknown stream")
        return best

    def rec(self, st, k):
        r = st.g.get(k)
        if not isinstance(r, Rec):
            return NEW._replace(kind="std", bits=st.g.get(("bits", k[1]), 0), exc=st.g.get(("excm", k[1]), 0))
        return r

    def upd(self, st, k, **kw):
        if k[1] in ("cout", "cerr", "clog", "cin"):
            if "bits" in kw:
                st.g[("bits", k[1])] = kw["bits"]
            if "exc" in kw:
                st.g[("excm", k[1])] = kw["exc"]
            return
        st.g[k] = st.g[k]._replace(**kw)

    def new(self, st, p, **kw):
        if p[0] != "p" or p[3]:
            raise Giveup("stream at an unknown place")
        self.e.access(st, p, 8, "constructs a stream in")
        if ("os", p[1], p[2]) in st.g:
            raise Fault("constructs a stream over a live one")
        st.g[("os", p[1], p[2])] = NEW._replace(**kw)
        vptr(self.e, st, p)

    def setbits(self, st, k, bits):
        """[(state, threw?)]: adds state bits; the exception mask may turn this into a throw."""
        r = self.rec(st, k)
        self.upd(st, k, bits=r.bits | bits)
        if (r.bits | bits) & r.exc and bits & r.exc:
            return [(st, True)]
        return [(st, False)]

    def fin(self, res, v):
        """Outcomes of (state, threw?) pairs."""
        out = []
        for s, t in res:
            if t:
                out.append(self.e.throw(s, FAILURE))
            else:
                out += ret(s, v)
        return out

    # ------------------------------------------------------------ devices
    def dev(self, st, name):
        d = st.g.get(("dev", name))
        if d is None:
            d = self.T.opaque(st, "content of the file")[0]
        return d

    def one(self, r):
        if len(r) != 1:
            raise Giveup("position inside a text that needs a case distinction")
        return r[0]

    def overwrite(self, st, base, pos, items):
        """[(state, content)] of base with items written at pos."""
        T = self.T
        if pos == "end" or pos == tlen(base):
            return [(st, norm_items(base + items))]
        if not items:
            return [(st, base)]
        out = []
        n, m = tlen(base), tlen(items)
        for s, inside in T.splits(st, sub(n, pos)):
            if not inside:
                self.e.taint(s, "write behind the end")
                out.append((s, norm_items(base + items))); continue
            for s1, pre in T.slice(s, base, const(0), pos):
                for s2, longer in T.splits(s1, sub(n, add(pos, m))):
                    if not longer:
                        out.append((s2, norm_items(pre + items))); continue
                    for s3, post in T.slice(s2, base, add(pos, m), n):
                        out.append((s3, norm_items(pre + items + post)))
        return out

    def sync(self, st, k, forced=False):
        """Writes pending text to the file: [(state, succeeded?)]."""
        r = self.rec(st, k)
        if r.kind != "file" or not r.open or not r.items:
            return [(st, True)]
        out = []
        if self.failures and not forced:
            f = st.copy()
            f.g["iofail"] = f.g.get("iofail", 0) + 1
            self.upd(f, k, items=())
            out.append((f, False))
        d = self.dev(st, r.file)
        pos = "end" if r.mode & APP else r.pos
        for s, c in self.overwrite(st, d, pos, r.items):
            s.g[("dev", r.file)] = c
            self.upd(s, k, items=(), pos="end" if pos == "end" else add(pos, tlen(r.items)))
            out.append((s, True))
        return out

    def open(self, st, k, name, mode):
        """[(state, succeeded?)]"""
        r = self.rec(st, k)
        if r.open:
            return [(st, False)]
        m = mode & (IN | OUT | TRUNC | APP)
        if m not in (OUT, OUT | TRUNC, APP, OUT | APP, IN, IN | OUT, IN | OUT | TRUNC, IN | APP, IN | OUT | APP):
            return [(st, False)]
        out = []
        if self.failures:
            f = st.copy()
            f.g["iofail"] = f.g.get("iofail", 0) + 1
            out.append((f, False))
        if m in (OUT, OUT | TRUNC, IN | OUT | TRUNC):
            st.g[("dev", name)] = ()
        st.g["opens"] = st.g.get("opens", ()) + ((name, mode),)
        self.upd(st, k, open=True, mode=mode, file=name, items=(), pos="end" if mode & ATE else const(0))
        out.append((st, True))
        return out

    def close(self, st, k):
        """[(state, succeeded?)]"""
        r = self.rec(st, k)
        if not r.open:
            return [(st, False)]
        out = []
        for s, ok in self.sync(st, k):
            self.upd(s, k, open=False, items=(), pos=const(0))
            out.append((s, ok))
        return out

    # ------------------------------------------------------------ inserting
    def emit(self, st, p, items):
        """Inserts a text: [(state, threw?)]."""
        k = self.key(st, p)
        r = self.rec(st, k)
        items = norm_items(tuple(items))
        if r.kind == "std":
            if k[1] == "cin":
                raise Giveup("insertion into cin")
            cur = st.g.get(k, ())
            if cur and cur[-1][0] == "out":
                cur = cur[:-1] + (("out", norm_items(cur[-1][1] + items)),)
            else:
                cur = cur + (("out", items),)
            st.g[k] = cur
            st.g["oslog"] = st.g.get("oslog", ()) + ((k[1], "out"),)
            return [(st, False)]
        if r.bits:
            return self.setbits(st, k, FAIL)
        if r.kind == "file":
            if not r.open or not r.mode & (OUT | APP):
                return self.setbits(st, k, BAD) if items else [(st, False)]
            self.upd(st, k, items=norm_items(r.items + items))
            return [(st, False)]
        out = []
        for s, c in self.overwrite(st, r.items, r.pos, items):
            self.upd(s, k, items=c, pos="end" if r.pos == "end" else add(r.pos, tlen(items)))
            out.append((s, False))
        return out

    def flush(self, st, p):
        k = self.key(st, p)
        r = self.rec(st, k)
        if r.kind == "std":
            st.g[k] = st.g.get(k, ()) + (("flush",),)
            st.g["oslog"] = st.g.get("oslog", ()) + ((k[1], "flush"),)
            return [(st, False)]
        if r.kind == "str" or r.bits:
            return [(st, False)]
        out = []
        for s, ok in self.sync(st, k):
            out += [(s, False)] if ok else self.setbits(s, k, BAD)
        return out

    # ------------------------------------------------------------ extracting
    def content(self, st, k):
        r = self.rec(st, k)
        if r.kind == "str":
            return r.items
        return self.dev(st, r.file)

    def getchar(self, st, k):
        """[(state, code point | None)]: next character of a string or file stream."""
        T = self.T
        r = self.rec(st, k)
        out = []
        for s, ok in self.sync(st, k, True):
            r = self.rec(s, k)
            if r.kind == "file" and (not r.open or not r.mode & IN):
                out.append((s, None)); continue
            c = self.content(s, k)
            n = tlen(c)
            pos = n if self.pos(r) == "end" else self.pos(r)
            for s2, more in T.splits(s, addc(sub(n, pos), -1)):
                if not more:
                    out.append((s2, None)); continue
                for s3, v in T.elem(s2, c, pos):
                    self.setpos(s3, k, addc(pos, 1))
                    out.append((s3, v))
        return out

    def pos(self, r):
        return r.pos if r.kind == "file" else (r.gc if isinstance(r.gc, tuple) else const(0))

    def setpos(self, st, k, pos):
        if self.rec(st, k).kind == "file":
            self.upd(st, k, pos=pos)
        else:
            self.upd(st, k, gc=pos)

    def log(self, st, who, what):
        st.g["oslog"] = st.g.get("oslog", ()) + ((who, what),)

    def cinline(self, st):
        """Reads a line from cin: [(state, items | None)]."""
        n = st.g.get("ncin", 0)
        st.g["ncin"] = n + 1
        self.log(st, "cin", "line")
        b = st.copy()
        items, _ = self.T.opaque(st, "cin line %d" % n)
        return [(st, items), (b, None)]


def install(S):
    e0, T = S.e, S.T

    def mkptr(st, name):
        vptr(S.e, st, ("p", "g:" + name, 0, ()))
    for n in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin"):
        e0.ginit[n] = mkptr
    SS = "std::__cxx11::basic_%sstringstream<char, std::char_traits<char>, std::allocator<char> >"
    FS = "std::basic_%sfstream<char, std::char_traits<char> >"
    cache = {}

    def meth(e, f, cls):
        m = cache.get(f.name)
        if m is None:
            m = cache[f.name] = method(e.mod.dem(f.name), cls) or ("?", [])
        return m

    def cnum(v):
        if v[0] != "n" or v[3]:
            raise Giveup("stream mode that is not known")
        return v[2]

    # ------------------------------------------------------------ string streams
    def sstr(pre):
        cls = SS % pre
        base = "basic_%sstringstream" % pre

        def h(e, st, a, inst, f):
            name, ps = meth(e, f, cls)
            sig = ",".join(ps)
            if name == base:
                if sig in ("", "std::_Ios_Openmode"):
                    S.new(st, a[0], kind="str"); return ret(st)
                if ps and "basic_string<" in ps[0] and ps[0].endswith("const&"):
                    mode = cnum(a[2]) if len(ps) > 1 else 0
                    items = T.get(st, a[1], CH)
                    S.new(st, a[0], kind="str", items=items, pos="end" if mode & (ATE | APP) else const(0))
                    return ret(st)
                if ps and ps[0].endswith("&&") and "stringstream" in ps[0]:
                    r = S.rec(st, S.key(st, a[1]))
                    S.new(st, a[0]); S.upd(st, S.key(st, a[0]), **r._asdict())
                    S.upd(st, S.key(st, a[1]), items=(), pos=const(0), gc=0)
                    return ret(st)
                raise Giveup("string stream constructor (%s)" % sig)
            if name == "~" + base:
                del st.g[S.key(st, a[0])]
                return ret(st)
            if name == "operator=":
                k, k2 = S.key(st, a[0]), S.key(st, a[1])
                if k != k2:
                    S.upd(st, k, **S.rec(st, k2)._asdict())
                    S.upd(st, k2, items=(), pos=const(0), gc=0)
                return ret(st, a[0])
            if name == "swap":
                k, k2 = S.key(st, a[0]), S.key(st, a[1])
                r, r2 = S.rec(st, k), S.rec(st, k2)
                st.g[k], st.g[k2] = r2, r
                return ret(st)
            if name == "str":
                if sig == "":
                    T.put(st, a[0], CH, S.rec(st, S.key(st, a[1])).items)
                    return ret(st)
                S.upd(st, S.key(st, a[0]), items=T.get(st, a[1], CH), pos=const(0), gc=0)
                return ret(st)
            raise Giveup("%s::%s(%s)" % (base, name, sig))
        S.e.hook("^" + re.escape(cls) + "::", h)
    for pre in ("", "o", "i"):
        sstr(pre)

    # ------------------------------------------------------------ file streams
    def fstr(pre):
        cls = FS % pre
        base = "basic_%sfstream" % pre
        dflt = {"": 0, "o": OUT, "i": IN}[pre]

        def fname(e, st, p, ty):
            return norm_items(T.cstr(st, p) if "char const*" in ty else T.get(st, p, CH))

        def h(e, st, a, inst, f):
            name, ps = meth(e, f, cls)
            sig = ",".join(ps)
            if name == base:
                if sig == "":
                    S.new(st, a[0], kind="file"); return ret(st)
                if ps[0].endswith("&&") and "fstream" in ps[0]:
                    r = S.rec(st, S.key(st, a[1]))
                    S.new(st, a[0]); S.upd(st, S.key(st, a[0]), **r._asdict())
                    S.upd(st, S.key(st, a[1]), items=(), open=False)
                    return ret(st)
                S.new(st, a[0], kind="file")
                return do_open(e, st, S.key(st, a[0]), fname(e, st, a[1], ps[0]), cnum(a[2]) | dflt)
            if name == "~" + base:
                k = S.key(st, a[0])
                out = []
                for s, ok in S.close(st, k):
                    del s.g[k]
                    out += ret(s)
                return out
            k = S.key(st, a[0])
            if name == "open":
                return do_open(e, st, k, fname(e, st, a[1], ps[0]), cnum(a[2]) | dflt)
            if name == "is_open":
                return ret(st, ("c", S.rec(st, k).open))
            if name == "close":
                res = []
                for s, ok in S.close(st, k):
                    res += [(s, False)] if ok else S.setbits(s, k, FAIL)
                return S.fin(res, U)
            raise Giveup("%s::%s(%s)" % (base, name, sig))

        def do_open(e, st, k, nm, mode):
            res = []
            for s, ok in S.open(st, k, nm, mode):
                if ok:
                    S.upd(s, k, bits=0)
                    res.append((s, False))
                else:
                    res += S.setbits(s, k, FAIL)
            return S.fin(res, U)
        S.e.hook("^" + re.escape(cls) + "::", h)
    for pre in ("", "o", "i"):
        fstr(pre)

    # ------------------------------------------------------------ state
    IOS = "std::basic_ios<%s >" % CT

    def ios(e, st, a, inst, f):
        name, ps = meth(e, f, IOS)
        k = S.key(st, a[0])
        r = S.rec(st, k)
        b = r.bits
        if name in ("good", "eof", "fail", "bad", "operator!", "operator bool"):
            v = {"good": b == 0, "eof": bool(b & EOF), "fail": bool(b & (BAD | FAIL)), "bad": bool(b & BAD), "operator!": bool(b & (BAD | FAIL)), "operator bool": not b & (BAD | FAIL)}[name]
            return ret(st, ("c", v))
        if name == "operator void*":
            return ret(st, NULL if b & (BAD | FAIL) else a[0])
        if name == "rdstate":
            return ret(st, N(32, b))
        if name == "clear":
            n = cnum(a[1])
            S.upd(st, k, bits=n)
            return [e.throw(st, FAILURE)] if n & r.exc else ret(st)
        if name == "setstate":
            n = cnum(a[1])
            S.upd(st, k, bits=b | n)
            return [e.throw(st, FAILURE)] if (n | b) & r.exc else ret(st)
        if name == "exceptions":
            if not ps:
                return ret(st, N(32, r.exc))
            n = cnum(a[1])
            S.upd(st, k, exc=n)
            return [e.throw(st, FAILURE)] if b & n else ret(st)
        raise Giveup("basic_ios::" + name)
    S.e.hook("^" + re.escape(IOS) + "::", ios)

    def iosbase(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        m = re.match(r"std::ios_base::(\w+)\(", d)
        n = m.group(1) if m else "?"
        if n in ("sync_with_stdio",):
            return ret(st, ("c", True))
        if n in ("setf", "unsetf", "flags", "precision", "width"):
            e.taint(st, "formatting flags of a stream")
            return ret(st, N(64 if n in ("precision", "width") else 32, 0)) if n != "unsetf" else ret(st)
        if n == "Init":
            return ret(st)
        return None
    S.e.hook(r"^std::ios_base::(?!failure|Init)", iosbase)

    # ------------------------------------------------------------ insertion
    def ins(e, st, p, items):
        return S.fin(S.emit(st, p, items), p)

    def free_ins(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        ps = params(d[d.rindex(">(") + 1:] if ">(" in d else d[d.index("("):])
        ty = ps[1]
        if ty == "char const*" or ty == "unsigned char const*":
            if a[1] == NULL:
                raise Fault("inserts a null pointer as a C string into a stream")
            try:
                items = T.cstr(st, a[1])
            except NotUtf8 as x:
                items = T.opaque(st, "bytes %r" % (x.args[1],))[0]
            return ins(e, st, a[0], items)
        if ty in ("char", "unsigned char", "signed char"):
            return [o for s, v in char8(e, st, a[1]) for o in ins(e, s, a[0], (("e", v),))]
        if "basic_string" in ty:
            return ins(e, st, a[0], T.get(st, a[1], CH))
        return None
    S.e.hook(r"^std::basic_ostream<char, std::char_traits<char> >& std::operator<< ?<", free_ins)

    def manip(e, st, p, fd):
        if "std::endl" in fd:
            out = []
            for s, t in S.emit(st, p, lit("\n")):
                out += [(s, True)] if t else S.flush(s, p)
            return S.fin(out, p)
        if "std::flush" in fd:
            return S.fin(S.flush(st, p), p)
        if "std::unitbuf" in fd or "std::nounitbuf" in fd:
            raise Giveup("stream manipulator " + fd[:60])
        e.taint(st, "stream manipulator " + fd[:60])
        st.g["manip"] = st.g.get("manip", ()) + (fd,)
        return ret(st, p)

    OS = "std::basic_ostream<%s >" % CT

    def mem_ins(e, st, a, inst, f):
        name, ps = meth(e, f, OS)
        if name.startswith("operator<<"):
            ty = ps[0]
            if "(*)" in ty or "(&)" in ty:
                fn = a[1]
                if fn[0] == "p" and isinstance(fn[1], str) and fn[1].startswith("fn:"):
                    return manip(e, st, a[0], e.mod.dem(fn[1][3:]))
                raise Giveup("stream manipulator")
            if ty == "bool":
                return [o for s, t in e.split(st, e.cond(a[1]) if a[1][0] != "z" else a[1][2]) for o in ins(e, s, a[0], lit("1" if t else "0"))]
            if ty == "void const*":
                return ins(e, st, a[0], (("d", ("p", a[1]), const(14)),))
            k = "f" if ty in ("float", "double", "long double") else ("u" if "unsigned" in ty else "i")
            if k == "f":
                return ins(e, st, a[0], T.number(st, a[1], k))
            return [o for s, v in e.tonum(st, a[1]) for o in ins(e, s, a[0], T.number(s, v, k))]
        if name == "flush":
            return S.fin(S.flush(st, a[0]), a[0])
        if name == "put":
            return [o for s, v in char8(e, st, a[1]) for o in ins(e, s, a[0], (("e", v),))]
        if name == "write":
            items = T.cstr(st, a[1])
            n = num(e, st, a[2])
            if n == T.bytelen(st, items) or n == tlen(items):
                return ins(e, st, a[0], items)
            s = litof(items)
            if s is not None and not n[1] and all(ord(c) < 128 for c in s) and n[0] <= len(s):
                return ins(e, st, a[0], items[:n[0]])
            raise Giveup("ostream::write of a part")
        if name in ("seekp", "tellp"):
            k = S.key(st, a[0])
            r = S.rec(st, k)
            if name == "tellp":
                if r.bits & (BAD | FAIL) or r.kind == "file" and not r.open:
                    return ret(st, ("a", (N(64, (1 << 64) - 1), N(64, 0))))
                out = []
                for s, ok in S.sync(st, k, True):
                    r = S.rec(s, k)
                    if r.kind == "std":
                        raise Giveup("position of a standard stream")
                    c = r.items if r.kind == "str" else S.content(s, k)
                    L = tlen(c) if r.pos == "end" or r.kind == "file" and r.mode & APP else r.pos
                    out += ret(s, ("a", (L2N(64, L), N(64, 0))))
                return out
            if r.bits & (BAD | FAIL):
                return ret(st, a[0])
            out = []
            for s, ok in S.sync(st, k, True):
                s = seek(e, s, k, a, ps)
                out += ret(s, a[0])
            return out
        return None
    S.e.hook("^" + re.escape(OS) + "::", mem_ins)

    def seek(e, st, k, a, ps):
        """Moves the (only) position of a file, or the put position of a string stream."""
        r = S.rec(st, k)
        off = num(e, st, a[1])
        if off[0] == (1 << 64) - 1 and not off[1]:
            raise Giveup("seek to an invalid position")
        if len(ps) == 1:
            pos = off
        else:
            w = cnum(a[2])
            if off == const(0) and w == 2:
                pos = "end"
            elif w == 0:
                pos = off
            elif w == 1 and off == const(0):
                return st
            else:
                raise Giveup("relative seek")
        if r.kind == "file" and pos != "end":
            pass
        S.upd(st, k, pos=pos)
        return st

    def free_manip(e, st, a, inst, f):
        return manip(e, st, a[0], e.mod.dem(f.name))
    S.e.hook(r"^std::basic_ostream<char, std::char_traits<char> >& std::(endl|flush)<", free_manip)

    # ------------------------------------------------------------ extraction
    IS = "std::basic_istream<%s >" % CT

    def put8(e, st, p, v):
        """Stores an extracted byte."""
        e.store(st, p, N(8, v[2], v[3]), ir.mk("int", 8))

    def mem_ext(e, st, a, inst, f):
        name, ps = meth(e, f, IS)
        if name.startswith("sentry"):
            return None
        k = S.key(st, a[0]) if name not in ("tellg",) else S.key(st, a[0])
        r = S.rec(st, k)
        sig = ",".join(ps)
        if k[1] == "cin":
            if name in ("get", "ignore", "read", "peek", "getline", "operator>>", "sync", "putback", "unget", "readsome"):
                S.log(st, "cin", "other:" + name)
                raise Giveup("cin." + name)
            raise Giveup("cin." + name)
        if name == "seekg":
            b = r.bits & ~EOF
            S.upd(st, k, bits=b)
            if b:
                return S.fin(S.setbits(st, k, FAIL), a[0]) if not b & (FAIL | BAD) else ret(st, a[0])
            out = []
            for s, ok in S.sync(st, k, True):
                if S.rec(s, k).kind == "file":
                    if not S.rec(s, k).open:
                        out += S.fin(S.setbits(s, k, FAIL), a[0]); continue
                    s = seek(e, s, k, a, ps)
                else:
                    raise Giveup("seekg of a string stream")
                out += ret(s, a[0])
            return out
        if name == "tellg":
            if r.bits & EOF and not r.bits & (BAD | FAIL):
                S.upd(st, k, bits=r.bits | FAIL)
            r = S.rec(st, k)
            if r.bits & (BAD | FAIL) or r.kind == "file" and not r.open:
                return ret(st, ("a", (N(64, (1 << 64) - 1), N(64, 0))))
            out = []
            for s, ok in S.sync(st, k, True):
                pos = S.pos(S.rec(s, k))
                L = tlen(S.content(s, k)) if pos == "end" else pos
                out += ret(s, ("a", (L2N(64, L), N(64, 0))))
            return out
        if name == "get" and sig in ("char&", ""):
            if r.bits:
                res = S.setbits(st, k, FAIL)
                return S.fin(res, a[0] if sig else N(32, (1 << 32) - 1))
            out = []
            for s, v in S.getchar(st, k):
                if v is None:
                    out += S.fin(S.setbits(s, k, EOF | FAIL), a[0] if sig else N(32, (1 << 32) - 1))
                elif sig:
                    put8(e, s, a[1], v); out += ret(s, a[0])
                else:
                    out += ret(s, v)
            return out
        if name == "peek":
            if r.bits:
                return S.fin(S.setbits(st, k, FAIL), N(32, (1 << 32) - 1))
            out = []
            for s, v in S.getchar(st, k):
                if v is None:
                    out += S.fin(S.setbits(s, k, EOF), N(32, (1 << 32) - 1))
                else:
                    S.setpos(s, k, addc(S.pos(S.rec(s, k)), -1)); out += ret(s, v)
            return out
        if name == "read":
            if r.bits:
                return S.fin(S.setbits(st, k, FAIL), a[0])
            n = num(e, st, a[2])
            out = []
            for s, ok in S.sync(st, k, True):
                r = S.rec(s, k)
                if r.kind == "file" and (not r.open or not r.mode & IN):
                    out += S.fin(S.setbits(s, k, EOF | FAIL), a[0]); continue
                c = S.content(s, k)
                L = tlen(c)
                pos = L if S.pos(r) == "end" else S.pos(r)
                for s2, full in T.splits(s, sub(sub(L, pos), n)):
                    for s3, x in T.slice(s2, c, pos, add(pos, n) if full else L):
                        buffer(e, s3, a[1], n, x if full else None)
                        S.setpos(s3, k, add(pos, n) if full else L)
                        out += S.fin([(s3, False)] if full else S.setbits(s3, k, EOF | FAIL), a[0])
            return out
        raise Giveup("istream::%s(%s)" % (name, sig))
    S.e.hook("^" + re.escape(IS) + "::", mem_ext)

    def buffer(e, st, p, n, items):
        """The n bytes at p become the text."""
        if p[0] != "p" or p[3]:
            raise Giveup("read into an unknown place")
        if n == const(0):
            return
        o = st.mem.get(p[1])
        if o is None:
            raise Fault("reads into storage that is not live")
        # all of the n bytes must be inside
        e.access(st, p, 1, "reads into")
        if o.size is not None:
            lo, hi = st.num.rng(e.sy, sub(o.size, addc(n, p[2])))
            if hi < 0:
                raise Fault("reads more than the buffer holds")
            if lo < 0:
                raise Giveup("buffer that may be too small")
        o = st.w(p[1])
        if p[2] == 0 and (o.size is None or o.size == n):
            o.cells = {}
            o.default = "top"
            if items is not None:
                st.g[("bytes", p[1])] = norm_items(items)
        else:
            o.cells = {}; o.default = "top"
            e.taint(st, "read of a part of a buffer")

    def range_ctor(e, st, a, inst, f, width=CH):
        """std::string(first, last) over bytes that were read."""
        p, q = a[1], a[2]
        if p[0] != "p":
            if p == NULL:
                T.put(st, a[0], width, ()); return ret(st)
            return None
        if p[1] == 0 and q[1] == 0:
            T.put(st, a[0], width, ()); return ret(st)
        b = st.g.get(("bytes", p[1]))
        if b is None:
            o = st.mem.get(p[1])
            if o is not None and isinstance(o.meta, dict) and "buf" in o.meta and o.meta["w"] == 1:
                b = o.meta["buf"]
            else:
                raise Giveup("text of unknown bytes")
        out = []
        for s, x in T.slice(st, b, (p[2], p[3]), (q[2], q[3])):
            T.put(s, a[0], width, x); out += ret(s)
        return out
    S.e.hooks.insert(0, (re.compile("^(void )?Caitlyn::String::String<(__gnu_cxx::__normal_iterator<char( const)?\\*|char( const)?\\*)"), lambda e, st, a, inst, f: range_ctor(e, st, a, inst, f, STR)))
    S.e.hooks.insert(0, (re.compile("^(void )?" + re.escape(BS) + r"::basic_string<(__gnu_cxx::__normal_iterator<char( const)?\*|char( const)?\*)"), range_ctor))

    def ptr_len_ctor(e, st, a, inst, f):
        b = st.g.get(("bytes", a[1][1])) if a[1][0] == "p" else None
        if b is None:
            return None
        n = num(e, st, a[2])
        out = []
        for s, x in T.slice(st, b, (a[1][2], a[1][3]), add((a[1][2], a[1][3]), n)):
            T.put(s, a[0], CH, x); out += ret(s)
        return out
    S.e.hooks.insert(0, (re.compile("^" + re.escape(BS) + r"::basic_string\(char const\*, unsigned long"), ptr_len_ctor))

    def getline(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        k = S.key(st, a[0])
        r = S.rec(st, k)
        T.get(st, a[1], CH)
        if r.bits:
            return S.fin(S.setbits(st, k, FAIL), a[0])
        delim = 10
        if len(a) > 2:
            v = a[2]
            if v[0] != "n" or v[3]:
                raise Giveup("getline with an unknown delimiter")
            delim = v[2]
        out = []
        if k[1] == "cin":
            if delim != 10:
                S.log(st, "cin", "line up to %r" % chr(delim))
            for s, items in S.cinline(st):
                T.set(s, a[1], CH, items if items is not None else ())
                out += S.fin([(s, False)] if items is not None else S.setbits(s, k, EOF | FAIL), a[0])
            return out
        for s, ok in S.sync(st, k, True):
            r = S.rec(s, k)
            T.set(s, a[1], CH, ())
            if r.kind == "file" and (not r.open or not r.mode & IN):
                out += S.fin(S.setbits(s, k, EOF | FAIL), a[0]); continue
            c = S.content(s, k)
            n = tlen(c)
            pos = n if S.pos(r) == "end" else S.pos(r)
            for s2, more in T.splits(s, addc(sub(n, pos), -1)):
                if not more:
                    out += S.fin(S.setbits(s2, k, EOF | FAIL), a[0]); continue
                for s3, at in T.findx(s2, c, (("e", cp(delim)),), pos):
                    for s4, x in T.slice(s3, c, pos, n if at is None else at):
                        T.set(s4, a[1], CH, x)
                        S.setpos(s4, k, n if at is None else addc(at, 1))
                        out += S.fin([(s4, False)] if at is not None else S.setbits(s4, k, EOF), a[0])
        return out
    S.e.hook(r"^std::basic_istream<char, std::char_traits<char> >& std::getline<", getline)

    def ext(e, st, a, inst, f):
        k = S.key(st, a[0])
        if k[1] != "cin":
            raise Giveup("formatted extraction")
        d = e.mod.dem(f.name)
        r = S.rec(st, k)
        if r.bits:
            return S.fin(S.setbits(st, k, FAIL), a[0])
        S.log(st, "cin", "ws" if "std::ws" in d or "(*)" in d else "word")
        if "basic_string" in d.split("operator>>")[-1] and "std::ws" not in d:
            n = st.g.get("ncin", 0)
            st.g["ncin"] = n + 1
            b = st.copy()
            T.set(st, a[1], CH, T.opaque(st, "cin word %d" % n)[0])
            T.set(b, a[1], CH, ())
            return ret(st, a[0]) + S.fin(S.setbits(b, k, EOF | FAIL), a[0])
        if "std::ws" in d:
            return ret(st, a[0])
        raise Giveup("extraction from cin")
    S.e.hook(r"^std::basic_istream<char, std::char_traits<char> >& std::(operator>> ?<|ws<)", ext)

    def cat(e, st, a, inst, f):
        return ret(st, ("p", "g:iostream_category", 0, ()))
    S.e.hook(r"^std::iostream_category\(", cat)

    def failure(e, st, a, inst, f):
        return ret(st)
    S.e.hook(r"^std::ios_base::failure\[abi:cxx11\]::~?failure", failure)

    # older interface
    S.e.os_emit = lambda e, st, p, items: S.emit(st, p, items)
    S.e.os_flush = lambda e, st, p: S.flush(st, p)
    S.e.osk = lambda st, p: S.key(st, p)


def install_vocabulary(S, run):
    """vp_text, vp_stdtext, vp_os, vp_same ... for drivers about texts and streams."""
    e0, T = S.e, S.T
    R = e0.rt

    def text(e, st, a, inst, f):
        nm = drv.cstr(e, st, a[1]) or "text"
        T.get(st, a[0], STR)
        T.set(st, a[0], STR, T.opaque(st, nm)[0])
        return ret(st)
    R["vp_text"] = text

    def stdtext(e, st, a, inst, f):
        nm = drv.cstr(e, st, a[1]) or "text"
        T.get(st, a[0], CH)
        T.set(st, a[0], CH, T.opaque(st, nm)[0])
        return ret(st)
    R["vp_stdtext"] = stdtext

    def ctext(e, st, a, inst, f):
        """An arbitrary C string."""
        nm = drv.cstr(e, st, a[0]) or "text"
        oid = e.alloc(st, "global", None, U, {"buf": T.opaque(st, nm)[0], "w": 1, "owner": None})
        return ret(st, ("p", oid, 0, ()))
    R["vp_ctext"] = ctext

    def os(e, st, a, inst, f):
        """What was inserted into a standard stream so far."""
        nm = drv.cstr(e, st, a[0])
        out = ()
        for x in st.g.get(("os", nm, 0), ()):
            if x[0] == "out":
                out += x[1]
        T.get(st, a[1], STR)
        T.set(st, a[1], STR, out)
        return ret(st)
    R["vp_os"] = os

    def flushed(e, st, a, inst, f):
        nm = drv.cstr(e, st, a[0])
        pend = False
        for x in st.g.get(("os", nm, 0), ()):
            pend = x[0] == "out"
        return ret(st, ("c", not pend))
    R["vp_flushed"] = flushed

    def cin(e, st, a, inst, f):
        nm = drv.cstr(e, st, a[0])
        return ret(st, N(32, sum(1 for x in st.g.get("oslog", ()) if x == ("cin", nm))))
    R["vp_cin"] = cin

    def same(e, st, a, inst, f):
        msg = drv.cstr(e, st, a[2]) or "?"
        A, B = T.get(st, a[0], STR), T.get(st, a[1], STR)
        out = []
        for s, t in T.equal(st, A, B):
            if t:
                run.ok[msg] = run.ok.get(msg, 0) + 1; out += ret(s)
            else:
                e.fault(s, "assert", "%s (%s instead of %s)" % (msg, show(e, A), show(e, B)))
        return out
    R["vp_same"] = same

    def iofail(e, st, a, inst, f):
        return ret(st, N(32, st.g.get("iofail", 0)))
    R["vp_iofail"] = iofail

    def file(e, st, a, inst, f):
        """Content of the (only) file into a String."""
        ds = [k for k in st.g if isinstance(k, tuple) and k[0] == "dev"]
        if len(ds) > 1:
            raise Giveup("several files")
        T.get(st, a[0], STR)
        T.set(st, a[0], STR, st.g[ds[0]] if ds else T.opaque(st, "content of the file")[0])
        return ret(st)
    R["vp_file"] = file

    def sub(e, st, p, n):
        """The stream inside the object at p."""
        ks = [k for k in st.g if isinstance(k, tuple) and k[0] == "os" and k[1] == p[1] and p[2] <= k[2] < p[2] + n]
        if len(ks) != 1:
            raise Giveup("object without a single stream")
        return ks[0]

    def state(e, st, a, inst, f):
        """The stream inside the object of n bytes at p is in the state (bits) at an arbitrary position."""
        k = sub(e, st, a[0], a[1][2])
        if not S.rec(st, k).open:
            raise Giveup("stream is not open")
        S.upd(st, k, bits=a[2][2])
        d = S.dev(st, S.rec(st, k).file)
        n = st.g.get("nstate", 0)
        st.g["nstate"] = n + 1
        x = e.memo(("fpos", n), lambda: e.fresh(64, "position%d" % n, lo=0, hi=1 << 40))
        st2 = e.ge(st, addc(add(tlen(d), scale(var(x), -1)), 0))
        S.upd(st2, k, pos=var(x))
        return ret(st2)
    R["vp_state"] = state

    def setfile(e, st, a, inst, f):
        """Content of the file before the program starts (no failures)."""
        nm = T.get(st, a[0], STR)
        st.g[("dev", norm_items(nm))] = T.get(st, a[1], STR)
        return ret(st)
    R["vp_setfile"] = setfile

    def settext(e, st, a, inst, f):
        """n bytes, none past 0x7F, as a String."""
        out = [(st, ())]
        for i in range(a[2][2]):
            nx = []
            for s, acc in out:
                for s1, v in e.load(s, e.padd(a[1], const(i)), ir.I8):
                    for s2, c in char8(e, s1, v):
                        nx.append((s2, acc + (("e", c),)))
            out = nx
        r = []
        for s, items in out:
            T.set(s, a[0], STR, items)
            r += ret(s)
        return r
    R["vp_settext"] = settext

    def isopen(e, st, a, inst, f):
        return ret(st, ("c", S.rec(st, sub(e, st, a[0], a[1][2])).open))
    R["vp_isopen"] = isopen

    def fmt(e, st, a, inst, f):
        """String::Format as an arbitrary function of the format and the contents of its arguments."""
        d = e.mod.dem(f.name)
        key = [T.get(st, a[1], STR)]
        for x in a[2:]:
            if x[0] != "p":
                key.append(x); continue
            o = st.mem.get(x[1])
            if o is None and isinstance(x[1], str):
                key.append(x); continue
            if o is None:
                raise Fault("formats an argument that is not alive")
            c = o.cells.get(x[2]) if not x[3] else None
            key.append(c[1] if c is not None else ("at",) + x)
        nm = e.memo(("fmt", tuple(key)), lambda: "formatted %d" % len(e.sy.memo))
        T.put(st, a[0], STR, T.opaque(st, nm)[0])
        return ret(st)
    e0.hooks.insert(0, (re.compile(r"^(Caitlyn::String )?Caitlyn::String::Format<"), fmt))


def show(e, items):
    out = []
    for it in items:
        if it[0] == "e":
            out.append(repr(chr(it[1][2])) if not it[1][3] else "<char>")
        elif it[0] == "x":
            full = it[2] == const(0)
            out.append("%s%s" % (it[1], "" if full and False else "[%s..%s)" % (e.show(it[2]), e.show(it[3]))))
        elif it[0] == "r":
            out.append("<run>")
        else:
            out.append("<number>")
    return " ".join(out) or "nothing"


VOC = r'''
extern "C" { void vp_text(Caitlyn::String*, const char*); void vp_stdtext(std::string*, const char*); const char* vp_ctext(const char*);
void vp_os(const char*, Caitlyn::String*); bool vp_flushed(const char*); int vp_cin(const char*); void vp_same(const Caitlyn::String*, const Caitlyn::String*, const char*);
int vp_iofail(); void vp_file(Caitlyn::String*); void vp_state(void*, int, int); void vp_settext(Caitlyn::String*, const char*, int); void vp_setfile(const Caitlyn::String*, const Caitlyn::String*); bool vp_isopen(const void*, int); }
static inline Caitlyn::String text(const char* n) { Caitlyn::String s; vp_text(&s, n); return s; }
static inline std::string stdtext(const char* n) { std::string s; vp_stdtext(&s, n); return s; }
static inline Caitlyn::String os(const char* n) { Caitlyn::String s; vp_os(n, &s); return s; }
static inline void same(const Caitlyn::String& a, const Caitlyn::String& b, const char* m) { vp_same(&a, &b, m); }
'''
