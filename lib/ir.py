"""Reader for textual LLVM IR (clang 18, opaque pointers).

Only what clang -O0 + mem2reg emits for C++ is understood; function bodies are
parsed lazily.  Nothing is executed here.
"""
import re, os, subprocess
from harness import sh, Broken, INC


class T:
    __slots__ = ("k", "a", "b", "_sz", "_al", "_off")
    # k: int(a=w) ptr float(a=kind) arr(a=n,b=T) vec(a=n,b=T) struct(a=tuple,b=packed) named(a=name) void func label meta token

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = self._al = self._off = None

    def __repr__(self):
        return "%s(%s)" % (self.k, self.a)


_cache = {}


def mk(k, a=None, b=None):
    key = (k, a, id(b) if isinstance(b, T) else b) if k in ("arr", "vec") else (k, a, b) if k != "struct" else None
    if key is None:
        return T(k, a, b)
    t = _cache.get(key)
    if t is None:
        t = _cache[key] = T(k, a, b)
    return t


VOID = mk("void"); PTR = mk("ptr"); LABEL = mk("label"); META = mk("meta")
I1, I8, I16, I32, I64, I128 = (mk("int", w) for w in (1, 8, 16, 32, 64, 128))

ATTR = re.compile(r"(?:noundef|nonnull|zeroext|signext|inreg|noalias|nocapture|readonly|readnone|writeonly|returned|nofree|nosync|immarg|nest|swiftself|swifterror|allocptr|allocalign|noinline|willreturn|nounwind|dead_on_unwind|writable|"
                  r"(?:align|dereferenceable|dereferenceable_or_null|sret|byval|byref|inalloca|elementtype|preallocated|memory|captures|nofpclass|range|initializes)(?:\s+\d+|\())")
TOK = re.compile(r'\s*(?:(?P<ty>i\d+\b|ptr\b|void\b|float\b|double\b|x86_fp80\b|half\b|label\b|metadata\b|token\b)|(?P<named>%(?:"[^"]*"|[-\w.$]+))|(?P<pun>[\[\]{}<>(),*])|(?P<num>\d+)|(?P<x>x\b)|(?P<dots>\.\.\.))')
NAME = re.compile(r'[%@](?:"((?:[^"\\]|\\.)*)"|([-\w.$]+))')
NUM = re.compile(r'-?\d+(?![\w.])')
FLT = re.compile(r'-?\d+\.\d*(?:[eE][+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+')


class Inst:
    __slots__ = ("op", "res", "x", "dbg", "txt")

    def __init__(self, op, res, x, dbg, txt):
        self.op, self.res, self.x, self.dbg, self.txt = op, res, x, dbg, txt

    def __repr__(self):
        return self.txt


class Block:
    __slots__ = ("name", "insts", "idx", "succs", "phis")


class Func:
    __slots__ = ("name", "ret", "params", "vararg", "blocks", "order", "entry", "dbg", "mod", "_lines", "attrs", "declared",
                 "sret", "byval", "heads", "loopof", "dem", "_n", "livein", "loops")


class P:
    """Cursor over one line."""
    __slots__ = ("s", "i", "m")

    def __init__(self, s, m, i=0):
        self.s, self.m, self.i = s, m, i

    def ws(self):
        s, i = self.s, self.i
        while i < len(s) and s[i] in " \t":
            i += 1
        self.i = i

    def peek(self, w):
        self.ws()
        return self.s.startswith(w, self.i)

    def eat(self, w):
        self.ws()
        if self.s.startswith(w, self.i):
            self.i += len(w)
            return True
        return False

    def eatw(self, w):
        self.ws()
        e = self.i + len(w)
        if self.s.startswith(w, self.i) and (e >= len(self.s) or not (self.s[e].isalnum() or self.s[e] in "_.")):
            self.i = e
            return True
        return False

    def need(self, w):
        if not self.eat(w):
            raise Broken("IR parse: expected %r at %r in %r" % (w, self.s[self.i:self.i + 40], self.s[:200]))

    def word(self):
        self.ws()
        m = re.compile(r"[\w.]+").match(self.s, self.i)
        if not m:
            raise Broken("IR parse: word at %r in %r" % (self.s[self.i:self.i + 40], self.s[:200]))
        self.i = m.end()
        return m.group(0)

    def name(self):
        self.ws()
        m = NAME.match(self.s, self.i)
        if not m:
            raise Broken("IR parse: name at %r in %r" % (self.s[self.i:self.i + 40], self.s[:200]))
        self.i = m.end()
        return m.group(1) if m.group(1) is not None else m.group(2)

    def type(self):
        self.ws()
        m = TOK.match(self.s, self.i)
        if not m:
            raise Broken("IR parse: type at %r in %r" % (self.s[self.i:self.i + 60], self.s[:200]))
        self.i = m.end()
        if m.group("ty"):
            w = m.group("ty")
            if w == "ptr":
                t = PTR
                if self.eatw("addrspace"):
                    self.need("("); self.word(); self.need(")")
            elif w == "void":
                t = VOID
            elif w == "label":
                t = LABEL
            elif w in ("metadata", "token"):
                t = META
            elif w[0] == "i":
                t = mk("int", int(w[1:]))
            else:
                t = mk("float", w)
        elif m.group("named"):
            n = m.group("named")[1:]
            if n[0] == '"':
                n = n[1:-1]
            t = mk("named", n)
        elif m.group("pun") == "[":
            n = int(self.word()); self.eatw("x"); b = self.type(); self.need("]")
            t = mk("arr", n, b)
        elif m.group("pun") == "<":
            if self.eat("{"):
                t = self._struct(True); self.need(">")
            else:
                n = int(self.word()); self.eatw("x"); b = self.type(); self.need(">")
                t = mk("vec", n, b)
        elif m.group("pun") == "{":
            t = self._struct(False)
        else:
            raise Broken("IR parse: type %r" % self.s[m.start():m.start() + 40])
        # function type
        if self.peek("("):
            depth, i = 0, self.i
            while True:
                c = self.s[i]
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        break
                i += 1
            self.i = i + 1
            return T("func", t)
        return t

    def _struct(self, packed):
        el = []
        while not self.eat("}"):
            el.append(self.type())
            self.eat(",")
        return T("struct", tuple(el), packed)

    def attrs(self):
        """Skips parameter attributes; returns the interesting ones."""
        out = {}
        while True:
            self.ws()
            m = ATTR.match(self.s, self.i)
            if not m:
                # quoted or #n attributes
                m2 = re.compile(r'(?:"[^"]*"(?:="[^"]*")?|#\d+)').match(self.s, self.i)
                if m2:
                    self.i = m2.end()
                    continue
                return out
            e = m.end()
            if e < len(self.s) and (self.s[e].isalnum() or self.s[e] == "_") and not self.s[e - 1] in "( ":
                return out
            self.i = e
            w = re.match(r"\w+", m.group(0)).group(0)
            if m.group(0).endswith("("):
                if w in ("sret", "byval", "byref"):
                    out[w] = self.type()
                    self.need(")")
                else:
                    d = 1
                    while d:
                        c = self.s[self.i]
                        d += (c == "(") - (c == ")")
                        self.i += 1

    def value(self, ty):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == "%":
            return ("l", self.name())
        if c == "@":
            return ("g", self.name())
        k = ty.k
        if c.isdigit() or c == "-":
            if k == "float":
                m = FLT.match(s, i) or NUM.match(s, i)
                self.i = m.end()
                return ("f", m.group(0))
            m = NUM.match(s, i)
            if m:
                self.i = m.end()
                return ("i", int(m.group(0)))
        if c == "c" and s.startswith('c"', i):
            j = s.index('"', i + 2)
            raw = s[i + 2:j]
            self.i = j + 1
            b = bytearray()
            q = 0
            while q < len(raw):
                if raw[q] == "\\" and raw[q + 1] == "\\":
                    b.append(92); q += 2
                elif raw[q] == "\\":
                    b.append(int(raw[q + 1:q + 3], 16)); q += 3
                else:
                    b += raw[q].encode("utf-8"); q += 1
            return ("str", bytes(b))
        if c == "[" or c == "{" or c == "<":
            self.i += 1
            packed = c == "<" and self.eat("{")
            close = {"[": "]", "{": "}", "<": ">"}[c]
            el = []
            while not self.peek("}" if packed else close):
                t = self.type(); self.attrs()
                el.append((t, self.value(t)))
                self.eat(",")
            self.i += 1
            if packed:
                self.need(">")
            return ("agg", tuple(el))
        for w, v in (("true", ("i", 1)), ("false", ("i", 0)), ("null", ("null",)), ("undef", ("undef",)), ("poison", ("undef",)),
                     ("zeroinitializer", ("zero",)), ("none", ("undef",))):
            if self.eatw(w):
                return v
        w = self.word()
        if w in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        if w == "blockaddress":
            raise Broken("blockaddress")
        if w == "asm":
            j = s.index('"', s.index('"', s.index('"', self.i) + 1) + 1)
            j = s.index('"', j + 1)
            self.i = j + 1
            return ("asm",)
        # constant expression
        while self.eatw("inbounds") or self.eatw("nuw") or self.eatw("nsw") or self.eatw("exact"):
            pass
        if self.eatw("inrange"):
            pass
        if w == "getelementptr":
            self.eatw("inbounds"); self.need("(")
            t = self.type(); args = []
            while self.eat(","):
                self.eatw("inrange")
                at = self.type(); args.append((at, self.value(at)))
            self.need(")")
            return ("ce", "gep", t, tuple(args))
        if w in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            self.need("("); t = self.type(); v = self.value(t); self.eatw("to"); t2 = self.type(); self.need(")")
            return ("ce", w, t, v, t2)
        if w in ("add", "sub", "mul", "xor", "and", "or", "shl"):
            self.need("("); t = self.type(); v = self.value(t); self.need(","); t2 = self.type(); v2 = self.value(t2); self.need(")")
            return ("ce", w, t, v, v2)
        if w in ("icmp",):
            p = self.word(); self.need("("); t = self.type(); v = self.value(t); self.need(","); t2 = self.type(); v2 = self.value(t2); self.need(")")
            return ("ce", "icmp", p, t, v, v2)
        raise Broken("IR parse: value %r in %r" % (s[i:i + 60], s[:200]))

    def tv(self):
        t = self.type()
        a = self.attrs()
        if t.k == "meta":
            # metadata operand: skip to , or )
            d = 0
            while self.i < len(self.s) and not (d == 0 and self.s[self.i] in ",)"):
                d += (self.s[self.i] in "({") - (self.s[self.i] in ")}")
                self.i += 1
            return t, ("undef",), a
        return t, self.value(t), a


FLAGS = ("nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "volatile", "atomic", "weak", "samesign")
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fptrunc", "fpext", "addrspacecast"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> dict(type, init raw, const, external)
        self.funcs = {}
        self.aliases = {}
        self.meta = {}
        self._gl = {}
        self.comdat = set()
        self._scan(text)
        self._dem = {}

    def _scan(self, text):
        lines = text.split("\n")
        self.lines = lines
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if L.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._head(L, lines, i + 1, j)
                i = j + 1
                continue
            if L.startswith("declare "):
                self._head(L, None, 0, 0)
            elif L.startswith("@"):
                p = P(L, self); nm = p.name(); p.need("=")
                self._gl[nm] = L
                if re.match(r'@[^=]*= (?:[\w]+ )*alias ', L):
                    m = re.search(r'@(?:"([^"]*)"|([-\w.$]+))\s*$', L)
                    self.aliases[nm] = m.group(1) or m.group(2)
            elif L.startswith("%"):
                p = P(L, self); nm = p.name(); p.need("="); p.eatw("type")
                if p.eatw("opaque"):
                    self.types[nm] = T("struct", (), False)
                else:
                    self.types[nm] = p.type()
            elif L.startswith("!"):
                k, _, v = L.partition(" = ")
                self.meta[k] = v
            i += 1

    def _head(self, L, lines, b, e):
        body = lines is not None
        p = P(L, self)
        p.word()
        for w in ("private", "internal", "linkonce_odr", "linkonce", "weak_odr", "weak", "available_externally", "external", "extern_weak"):
            if p.eatw(w):
                break
        for _ in range(6):
            if not any(p.eatw(w) for w in ("dso_local", "dso_preemptable", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc")):
                break
        p.attrs()
        f = Func()
        f.ret = p.type()
        f.name = p.name()
        p.need("(")
        f.params = []; f.vararg = False; f.sret = None; f.byval = {}
        n = 0
        while not p.eat(")"):
            if p.eat("..."):
                f.vararg = True
                continue
            t = p.type(); a = p.attrs()
            if t.k == "meta":
                pass
            p.ws()
            nm = None
            if p.peek("%"):
                nm = p.name()
            elif body:
                nm = str(n)
            if "sret" in a:
                f.sret = len(f.params)
            if "byval" in a:
                f.byval[len(f.params)] = a["byval"]
            f.params.append((t, nm, a))
            n += 1
            p.eat(",")
        rest = L[p.i:]
        f.attrs = rest
        m = re.search(r"!dbg (!\d+)", rest)
        f.dbg = m.group(1) if m else None
        f.mod = self
        f.blocks = None
        f._lines = (b, e) if body else None
        f.declared = not body
        f.dem = None
        f._n = len([1 for q in f.params])
        if f.name not in self.funcs or body:
            self.funcs[f.name] = f

    # --- types
    def res(self, t):
        while t.k == "named":
            t = self.types[t.a]
        return t

    def size(self, t):
        if t._sz is not None:
            return t._sz
        k = t.k
        if k == "int":
            w = t.a
            s = 1
            while s * 8 < w:
                s *= 2
            al = s if s <= 16 else 16
        elif k == "ptr":
            s = al = 8
        elif k == "float":
            s = al = {"float": 4, "double": 8, "x86_fp80": 16, "half": 2}[t.a]
        elif k == "arr":
            es = self.size(t.b); s = es * t.a; al = t.b._al
        elif k == "vec":
            es = self.size(t.b); s = es * t.a
            q = 1
            while q < s:
                q *= 2
            s = al = q
        elif k == "named":
            r = self.res(t); s = self.size(r); al = r._al; t._off = r._off
        elif k == "struct":
            off, al, offs = 0, 1, []
            for e in t.a:
                es = self.size(e); ea = 1 if t.b else e._al
                off = (off + ea - 1) // ea * ea
                offs.append(off); off += es; al = max(al, ea)
            s = (off + al - 1) // al * al
            t._off = offs
        else:
            s, al = 8, 8
        t._sz, t._al = s, al
        return s

    def offsets(self, t):
        self.size(t)
        r = self.res(t)
        self.size(r)
        return r._off

    # --- globals
    def gvar(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        L = self._gl.get(name)
        if L is None:
            return None
        p = P(L, self); p.name(); p.need("=")
        ext = False; tl = False
        for _ in range(12):
            if p.eatw("external") or p.eatw("extern_weak"):
                ext = True
            elif p.eatw("thread_local"):
                tl = True
                if p.eat("("):
                    p.word(); p.need(")")
            elif not any(p.eatw(w) for w in ("private", "internal", "linkonce_odr", "linkonce", "weak_odr", "weak", "common", "available_externally", "appending",
                                             "dso_local", "dso_preemptable", "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "externally_initialized")):
                break
        const = p.eatw("constant")
        if not const:
            p.eatw("global")
        t = p.type()
        init = None
        p.ws()
        if not ext and p.i < len(L) and L[p.i] != ",":
            init = p.value(t)
        g = dict(type=t, init=init, const=const, ext=ext, tls=tl, name=name)
        self.globals[name] = g
        return g

    # --- functions
    def body(self, f):
        if f.blocks is not None:
            return f.blocks
        b, e = f._lines
        blocks = {}; order = []
        cur = None
        first = True
        # unnamed locals numbering only matters for an unlabelled entry block
        i = b
        lines = self.lines
        while i < e:
            L = lines[i]
            if not L or L.startswith(";"):
                i += 1
                continue
            if L[0] != " ":
                m = re.match(r'(?:"((?:[^"\\]|\\.)*)"|([-\w.$]+)):', L)
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                cur = Block(); cur.name = nm; cur.insts = []; cur.succs = None
                blocks[nm] = cur; order.append(cur); first = False
                i += 1
                continue
            if first:
                cur = Block(); cur.name = str(f._n); cur.insts = []; cur.succs = None
                blocks[cur.name] = cur; order.append(cur); first = False
            s = L.strip()
            # continuation lines (invoke, landingpad, switch)
            if " = invoke " in s or s.startswith("invoke "):
                i += 1; s += " " + lines[i].strip()
            elif " landingpad " in s:
                while i + 1 < e and re.match(r"\s{10,}(?:cleanup|catch|filter)", lines[i + 1]):
                    i += 1; s += " " + lines[i].strip()
            elif s.startswith("switch "):
                while "]" not in lines[i] or not lines[i].strip().startswith("]"):
                    if s.endswith("]"):
                        break
                    i += 1; s += " " + lines[i].strip()
            elif s.startswith("#dbg"):
                i += 1
                continue
            cur.insts.append(s)
            i += 1
        for k, bl in enumerate(order):
            bl.idx = k
            bl.insts = [self._inst(s) for s in bl.insts]
            bl.insts = [x for x in bl.insts if x is not None]
            t = bl.insts[-1]
            bl.succs = self._succs(t)
            bl.phis = [x for x in bl.insts if x.op == "phi"]
            bl.insts = [x for x in bl.insts if x.op != "phi"]
        f.blocks = blocks; f.order = order; f.entry = order[0].name
        self._loops(f)
        return blocks

    def _succs(self, t):
        if t.op == "br":
            return [t.x[1], t.x[2]] if len(t.x) == 3 else [t.x[0]]
        if t.op == "switch":
            return [t.x[2]] + [l for _, l in t.x[3]]
        if t.op == "invoke":
            return [t.x[5], t.x[6]]
        return []

    def _loops(self, f):
        """Reverse post order, back edges -> natural loops (headers and bodies)."""
        seen = set(); post = []; heads = {}
        stack = [(f.entry, iter(f.blocks[f.entry].succs))]; seen.add(f.entry); onst = {f.entry}
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if s in onst:
                    heads.setdefault(s, set()).add(n)
                elif s not in seen:
                    seen.add(s); onst.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    adv = True
                    break
            if not adv:
                stack.pop(); onst.discard(n); post.append(n)
        rpo = list(reversed(post))
        for i, n in enumerate(rpo):
            f.blocks[n].idx = i
        preds = {}
        for n in rpo:
            for s in f.blocks[n].succs:
                preds.setdefault(s, []).append(n)
        f.loops = {}
        for h, tails in heads.items():
            body = {h}; st = list(tails)
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x); st += preds.get(x, [])
            f.loops[h] = body

    def _inst(self, s):
        m = re.search(r", !dbg (!\d+)", s)
        dbg = None
        if m:
            dbg = m.group(1)
        txt = s
        k = s.find(", !")
        if k > 0 and '"' not in s[k:]:
            s = s[:k]
        p = P(s, self)
        res = None
        if s[0] == "%":
            res = p.name(); p.need("=")
        op = p.word()
        if op in ("tail", "musttail", "notail"):
            op = p.word()
        fl = set()
        while True:
            for w in FLAGS:
                if p.eatw(w):
                    fl.add(w)
                    break
            else:
                break
        mkI = lambda *x: Inst(op, res, x, dbg, txt)
        if op in BIN:
            t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
            return mkI(t, a, b, fl)
        if op in CAST:
            t = p.type(); a = p.value(t); p.eatw("to"); t2 = p.type()
            return mkI(t, a, t2, fl)
        if op in ("icmp", "fcmp"):
            pr = p.word(); t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
            return mkI(pr, t, a, b)
        if op == "load":
            t = p.type(); p.need(","); t2 = p.type(); a = p.value(t2)
            return mkI(t, a, fl)
        if op == "store":
            t = p.type(); a = p.value(t); p.need(","); t2 = p.type(); b = p.value(t2)
            return mkI(t, a, b, fl)
        if op == "getelementptr":
            t = p.type(); p.need(","); bt = p.type(); base = p.value(bt); idx = []
            while p.eat(","):
                it = p.type(); idx.append((it, p.value(it)))
            return mkI(t, base, idx, bt)
        if op == "alloca":
            t = p.type(); n = ("i", 1)
            if p.eat(",") and not p.peek("align"):
                nt = p.type(); n = p.value(nt)
            return mkI(t, n)
        if op == "phi":
            t = p.type(); inc = []
            while True:
                p.need("["); v = p.value(t); p.need(","); b = p.name(); p.need("]")
                inc.append((b, v))
                if not p.eat(","):
                    break
            return Inst(op, res, (t, dict(inc)), dbg, txt)
        if op == "select":
            t = p.type(); c = p.value(t); p.need(","); t1 = p.type(); a = p.value(t1); p.need(","); t2 = p.type(); b = p.value(t2)
            return mkI(t1, c, a, b, t)
        if op == "br":
            if p.eatw("label"):
                return mkI(p.name())
            t = p.type(); c = p.value(t); p.need(","); p.eatw("label"); a = p.name(); p.need(","); p.eatw("label"); b = p.name()
            return mkI(c, a, b)
        if op == "switch":
            t = p.type(); c = p.value(t); p.need(","); p.eatw("label"); d = p.name(); p.need("[")
            cases = []
            while not p.eat("]"):
                ct = p.type(); v = p.value(ct); p.need(","); p.eatw("label"); cases.append((v[1], p.name()))
            return mkI(t, c, d, cases)
        if op == "ret":
            t = p.type()
            return mkI(t, None if t is VOID else p.value(t))
        if op in ("call", "invoke"):
            p.eatw("fastcc"); p.eatw("ccc")
            ra = p.attrs(); rt = p.type()
            if rt.k == "func":
                rt = rt.a
            p.ws()
            callee = p.value(PTR)
            p.need("(")
            args = []
            while not p.eat(")"):
                args.append(p.tv()); p.eat(",")
            if op == "invoke":
                k = s.index(" to label ", p.i)
                q = P(s, self, k + 10); n1 = q.name(); q.eatw("unwind"); q.eatw("label"); n2 = q.name()
                k2 = re.search(r"!dbg (!\d+)", txt)
                return mkI(rt, callee, args, None, None, n1, n2)
            if callee[0] == "g" and callee[1].startswith("llvm.dbg"):
                return None
            return mkI(rt, callee, args, None, None)
        if op == "landingpad":
            t = p.type(); cl = []; cleanup = False
            while True:
                if p.eatw("cleanup"):
                    cleanup = True
                elif p.eatw("catch"):
                    ct = p.type(); cl.append(("catch", p.value(ct)))
                elif p.eatw("filter"):
                    ct = p.type(); cl.append(("filter", p.value(ct)))
                else:
                    break
            return mkI(t, cl, cleanup)
        if op == "resume":
            t = p.type()
            return mkI(t, p.value(t))
        if op == "unreachable":
            return mkI()
        if op == "extractvalue":
            t = p.type(); a = p.value(t); ix = []
            while p.eat(","):
                ix.append(int(p.word()))
            return mkI(t, a, ix)
        if op == "insertvalue":
            t = p.type(); a = p.value(t); p.need(","); t2 = p.type(); b = p.value(t2); ix = []
            while p.eat(","):
                ix.append(int(p.word()))
            return mkI(t, a, t2, b, ix)
        if op == "atomicrmw":
            o = p.word(); pt = p.type(); a = p.value(pt); p.need(","); t = p.type(); b = p.value(t); order = p.word()
            return mkI(o, t, a, b, order)
        if op == "cmpxchg":
            pt = p.type(); a = p.value(pt); p.need(","); t = p.type(); b = p.value(t); p.need(","); t3 = p.type(); c = p.value(t3); o = p.word()
            return mkI(t, a, b, c, o)
        if op == "fence":
            return mkI(p.word())
        if op == "freeze":
            t = p.type()
            return mkI(t, p.value(t))
        if op == "fneg":
            t = p.type()
            return mkI(t, p.value(t))
        return mkI(s)   # unsupported: fails only when reached

    # --- debug locations
    def loc(self, dbg):
        if dbg is None:
            return "?"
        m = self.meta.get(dbg, "")
        line = re.search(r"line: (\d+)", m)
        scope = re.search(r"scope: (!\d+)", m)
        f = self._file(scope.group(1)) if scope else "?"
        return "%s:%s" % (f, line.group(1) if line else "?")

    def _file(self, sc):
        for _ in range(50):
            m = self.meta.get(sc, "")
            x = re.search(r"file: (!\d+)", m)
            if x:
                fm = self.meta.get(x.group(1), "")
                q = re.search(r'filename: "([^"]*)"', fm)
                return q.group(1).replace(INC + "/", "") if q else "?"
            y = re.search(r"scope: (!\d+)", m)
            if not y:
                return "?"
            sc = y.group(1)
        return "?"

    def demangle_all(self):
        names = list(self.funcs) + list(self._gl)
        r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        out = r.stdout.decode("utf-8", "replace").split("\n")
        self._dem = dict(zip(names, out))

    def dem(self, name):
        if not self._dem:
            self.demangle_all()
        return self._dem.get(name, name)


def compile_ir(src_text, scratch, name="driver", std="gnu++11", extra=()):
    """C++ text -> Module (clang -O0, then mem2reg)."""
    src = os.path.join(scratch, name + ".cpp")
    open(src, "w").write(src_text)
    ll = os.path.join(scratch, name + ".ll")
    rc, out, err = sh(["clang++", "-std=" + std, "-O0", "-Xclang", "-disable-O0-optnone", "-g1", "-w", "-fno-discard-value-names", "-ferror-limit=0",
                       "-I", INC, "-S", "-emit-llvm", src, "-o", ll] + list(extra))
    if rc != 0:
        b = Broken("driver %s does not compile: %s" % (name, next((l for l in err.splitlines() if "error" in l), err[:300])))
        b.log = err
        raise b
    opt = "/usr/lib/llvm-18/bin/opt"
    rc, out, err = sh([opt, "-S", "-passes=mem2reg", ll, "-o", ll])
    if rc != 0:
        raise Broken("opt: " + err[:300])
    return Module(open(ll, encoding="utf-8", errors="surrogateescape").read())
