"""Red-black tree primitives of libstdc++ (std::map, std::set) on analysed memory.

The balancing is left out: the order of the nodes, which is all that iteration,
lookup and erasure depend on, is the same in every shape of the tree.
Node layout: colour @0, parent @8, left @16, right @24; the header's parent is the
root, its left and right are the first and last node."""
from interp import *

P, L, R = 8, 16, 24


def install(eng):
    PT = ir.PTR if hasattr(ir, "PTR") else ir.mk("ptr", 0)

    def ld(e, st, p, off):
        r = e.load(st, e.padd(p, (off, ())), PT)
        if len(r) != 1 or r[0][1][0] != "p":
            raise Giveup("tree node with unknown links")
        return r[0][1]

    def sto(e, st, p, off, v):
        e.store(st, e.padd(p, (off, ())), v, PT)

    def null(p):
        return p[1] == 0

    def inc(e, st, x):
        r = ld(e, st, x, R)
        if not null(r):
            x = r
            while True:
                l = ld(e, st, x, L)
                if null(l):
                    return x
                x = l
        y = ld(e, st, x, P)
        while x == ld(e, st, y, R):
            x = y
            y = ld(e, st, y, P)
        if ld(e, st, x, R) != y:
            x = y
        return x

    def dec(e, st, x):
        # the header is red and its grandparent is itself
        if is_header(e, st, x):
            return ld(e, st, x, R)
        l = ld(e, st, x, L)
        if not null(l):
            while True:
                r = ld(e, st, l, R)
                if null(r):
                    return l
                l = r
        y = ld(e, st, x, P)
        while x == ld(e, st, y, L):
            x = y
            y = ld(e, st, y, P)
        return y

    def is_header(e, st, x):
        return ("rbh", x[1], x[2]) in st.g

    def h_inc(e, st, a, inst, f):
        return ret(st, inc(e, st, a[0]))

    def h_dec(e, st, a, inst, f):
        return ret(st, dec(e, st, a[0]))

    def h_ins(e, st, a, inst, f):
        left, x, p, hd = a
        st.g[("rbh", hd[1], hd[2])] = True
        out = []
        for s, isl in e.split(st, e.cond(left)):
            sto(e, s, x, P, p); sto(e, s, x, L, NULL); sto(e, s, x, R, NULL)
            e.store(s, x, N(32, 0), ir.I32 if hasattr(ir, "I32") else ir.mk("int", 32))
            if isl:
                sto(e, s, p, L, x)
                if p == hd:
                    sto(e, s, hd, P, x); sto(e, s, hd, R, x)
                elif p == ld(e, s, hd, L):
                    sto(e, s, hd, L, x)
            else:
                sto(e, s, p, R, x)
                if p == ld(e, s, hd, R):
                    sto(e, s, hd, R, x)
            out += ret(s)
        return out

    def h_del(e, st, a, inst, f):
        z, hd = a
        first, last = ld(e, st, hd, L), ld(e, st, hd, R)
        nf = inc(e, st, z) if first == z else first
        nl = dec(e, st, z) if last == z else last
        l, r, p = ld(e, st, z, L), ld(e, st, z, R), ld(e, st, z, P)

        def replace(par, old, new):
            if ld(e, st, hd, P) == old:
                sto(e, st, hd, P, new)
            elif ld(e, st, par, L) == old:
                sto(e, st, par, L, new)
            else:
                sto(e, st, par, R, new)
            if not null(new):
                sto(e, st, new, P, par)
        if null(l):
            replace(p, z, r)
        elif null(r):
            replace(p, z, l)
        else:
            y = r
            while not null(ld(e, st, y, L)):
                y = ld(e, st, y, L)
            if y != r:
                replace(ld(e, st, y, P), y, ld(e, st, y, R))
                sto(e, st, y, R, r); sto(e, st, r, P, y)
            replace(p, z, y)
            sto(e, st, y, L, l); sto(e, st, l, P, y)
        if null(ld(e, st, hd, P)):
            nf = nl = hd
        sto(e, st, hd, L, nf); sto(e, st, hd, R, nl)
        return ret(st, z)
    eng.rt["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"] = h_inc
    eng.rt["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"] = h_inc
    eng.rt["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"] = h_dec
    eng.rt["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"] = h_dec
    eng.rt["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = h_ins
    eng.rt["_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"] = h_del

    def now(e, st, a, inst, f):
        n = st.g.get("now", 0)
        st.g["now"] = n + 1
        x = [e.memo(("now", k), lambda: e.fresh(64, "time%d" % k, lo=0, hi=1 << 50)) for k in range(n + 1)]
        return ret(st, N(64, 0, tuple((v, 1) for v in sorted(x))))
    eng.rt["_ZNSt6chrono3_V212steady_clock3nowEv"] = now
    eng.rt["_ZNSt6chrono3_V212system_clock3nowEv"] = now
