"""std::unordered_set / std::unordered_map with integer keys, on abstract states.

The content is a tuple of (key, node) kept beside the object; a lookup with a key that
is not known is split into the cases of it being one of the keys and being none of them.
Nodes are objects with the layout of _Hash_node: link @0, value @8, so that the library's
iterators work on them.  The order of iteration is unspecified: iterating gives up."""
import re
from interp import *
from dom import const

KEYS = {"unsigned int": (32, 4), "int": (32, 4), "unsigned long": (64, 8), "long": (64, 8), "unsigned char": (8, 1), "char": (8, 1), "char32_t": (32, 4)}


def targs(d, i):
    """Template arguments from the '<' at d[i]."""
    out, depth, cur = [], 0, ""
    for c in d[i:]:
        if c in "<(":
            depth += 1
            if depth == 1:
                continue
        elif c in ">)":
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                return out
        if c == "," and depth == 1:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    return out


SIZES = {"unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8, "bool": 1, "char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "char32_t": 4}


def install(eng):
    def key(p):
        return ("um", p[1], p[2])

    def fresh_node(e, st, ksz, kw, kv, vsz, vv):
        voff = 8 + (ksz if not vsz else max(ksz, vsz))
        n = ("p", e.alloc(st, "heap", const((max(16, voff + (vsz or 0)) + 7) // 8 * 8)), 0, ())
        e.store(st, e.padd(n, (8, ())), kv, ir.mk("int", kw))
        if vsz:
            e.store(st, e.padd(n, (voff, ())), vv, ir.mk("int", 8 * vsz))
        return n

    def lookup(e, st, p, k):
        """[(state, index or None)]"""
        if key(p) not in st.g:
            raise Giveup("hash table of unknown content")
        out, cur = [], [st]
        for i, (kk, n) in enumerate(st.g[key(p)]):
            nxt = []
            for s in cur:
                for s2, t in e.split(s, (k[2] == kk[2]) if not k[3] and not kk[3] else ("cmp", "eq", k, kk)):
                    if t:
                        out.append((s2, i))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]

    def h(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        m = re.match(r"^(?:[\w:]+[&*\s]+)*std::unordered_(set|map)<", d)
        if not m:
            return None
        kind = m.group(1)
        ta = targs(d, m.end() - 1)
        if ta[0] not in KEYS or (kind == "map" and ta[1] not in SIZES):
            return None
        kw, ksz = KEYS[ta[0]]
        vsz = SIZES[ta[1]] if kind == "map" else 0
        mm = re.match(r".*?unordered_(?:set|map)<.*>::(~?[\w]+|operator\[\]|operator=)(?:\[abi:\w+\])?\(", d)
        name = mm.group(1)
        p = a[0]
        K, V = ir.mk("int", kw), ir.mk("int", 8 * vsz) if vsz else None
        IT = ir.PTR

        def one(p, t):
            r = e.load(st, p, t)
            if len(r) != 1:
                raise Giveup("table entry with several values")
            return r[0][1]
        voff = 8 + (max(ksz, vsz) if vsz else 0)
        if name in ("unordered_set", "unordered_map"):
            args = d[d.index("::" + name + "("):]
            items = []
            if "initializer_list" in args:
                n = a[2][2] if a[2][0] == "n" and not a[2][3] else None
                if n is None:
                    raise Giveup("table built from a list of unknown length")
                esz = ksz if not vsz else (2 * max(ksz, vsz))
                for i in range(n):
                    if i and (kv[3] or items[-1][0][3]):
                        raise Giveup("table built from unknown keys")
                    kv = one(e.padd(a[1], (i * esz, ())), K)
                    vv = one(e.padd(a[1], (i * esz + max(ksz, vsz), ())), V) if vsz else None
                    if all(kv != k2 for k2, _ in items):
                        items.append((kv, fresh_node(e, st, ksz, kw, kv, vsz, vv)))
            elif "unordered" in args.split("(", 1)[1]:
                raise Giveup("copy of a hash table")
            elif len(a) > 1 and "iterator" in args:
                raise Giveup("table built from a range")
            st.g[key(p)] = tuple(items)
            return ret(st)
        if name.startswith("~"):
            for _, n in st.g.pop(key(p), ()):
                e.free(st, n[1], "table destroyed")
            return ret(st)
        null = ("p", 0, 0, ())
        if name == "find":
            k = one(a[1], K)
            return [("ret", null if i is None else s.g[key(p)][i][1], s) for s, i in lookup(e, st, p, k)]
        if name == "count" or name == "contains":
            k = one(a[1], K)
            w = 64 if name == "count" else 1
            return [("ret", N(w, 0 if i is None else 1), s) for s, i in lookup(e, st, p, k)]
        if name == "end" or name == "cend":
            return ret(st, null)
        if name in ("at", "operator[]"):
            k = one(a[1], K)
            out = []
            for s, i in lookup(e, st, p, k):
                if i is None:
                    if name == "at":
                        out.append(e.throw(s, "_ZTISt12out_of_range"))
                    else:
                        n = fresh_node(e, s, ksz, kw, k, vsz, N(8 * vsz, 0))
                        s.g[key(p)] = s.g[key(p)] + ((k, n),)
                        out.append(("ret", e.padd(n, (voff, ())), s))
                else:
                    out.append(("ret", e.padd(s.g[key(p)][i][1], (voff, ())), s))
            return out
        if name == "size":
            if key(p) not in st.g:
                raise Giveup("hash table of unknown content")
            return ret(st, N(64, len(st.g[key(p)])))
        if name == "empty":
            if key(p) not in st.g:
                raise Giveup("hash table of unknown content")
            return ret(st, N(1, 0 if st.g[key(p)] else 1))
        raise Giveup("std::unordered_%s::%s" % (kind, name))
    eng.hook(r"^(?:[\w:]+[&*\s]+)*std::unordered_(set|map)<", h)
