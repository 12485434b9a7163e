import drv
from interp import *
LEVEL = "other"
EXPLANATION = ("Ownership typestate analysis (path-sensitive abstract interpretation of clang IR) of every SharedPtr operation on an opaque class. Concurrency is covered by an "
               "interference abstraction: in the t_mt_* entries other threads hold an arbitrary, ever changing number of owners, so every atomic access of the shared count sees our own "
               "contribution plus an arbitrary rest; non-atomic writes to shared bookkeeping, touching it after giving up the own reference, destroying while others may own, and missing "
               "release/acquire ordering are faults.")
ASSUMPTIONS = ["operator new does not fail", "the owned class's destructor does not throw", "other threads use their own owners only, correctly"]

SRC = r'''
#include <Caitlyn/Memory>
using namespace Caitlyn;
''' + drv.opaque("V") + r'''
using P = SharedPtr<vp::V>;
struct Node { vp::V tag; SharedPtr<Node> next; SharedPtr<Node> other; };
using PN = SharedPtr<Node>;
#define LIVE(n, m) vp_assert(vp_count("V") == (n), m)
static P make(const char* nm) { return P(vp_bool(nm) ? new vp::V(1) : nullptr); }
extern "C" {
void vp_share();
bool vp_others();
void t_scope() { { P p(new vp::V()); LIVE(1, "alive while owned"); vp_val(*p); } LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_copy() { { P a = make("a"); vp::V* r = a.Get(); int n = r != nullptr; { P b(a); vp_assert(b.Get() == r && a.Get() == r, "a copy shares the object"); LIVE(n, "copying creates nothing"); } LIVE(n, "alive while the first owner exists"); if (r) vp_val(*a); } LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_copy_outlives() { P* a = new P(new vp::V()); P b(*a); delete a; LIVE(1, "alive while the copy exists"); vp_val(*b); b.Reset(); LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_move_construct() { P a = make("a"); vp::V* r = a.Get(); int n = r != nullptr; { P b(std::move(a)); vp_assert(b.Get() == r && a.Get() == nullptr, "moving transfers ownership"); LIVE(n, "alive"); } LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_copy_assign() { P a = make("a"); P b = make("b"); vp::V* rb = b.Get(); int n = rb != nullptr; P& r = (a = b); vp_assert(&r == &a, "returns the target"); vp_assert(a.Get() == rb && b.Get() == rb, "both own the source's object"); LIVE(n, "the old object is destroyed"); b.Reset(); LIVE(n, "alive while one owner is left"); a.Reset(); LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_move_assign() { P a = make("a"); P b = make("b"); vp::V* rb = b.Get(); int n = rb != nullptr; P& r = (a = std::move(b)); vp_assert(&r == &a, "returns the target"); vp_assert(a.Get() == rb && b.Get() == nullptr, "ownership is transferred"); LIVE(n, "the old object is destroyed"); vp_reach("end"); }
void t_assign_shared_with() { P a(new vp::V()); P b(a); P c(a); a = b; LIVE(1, "assigning a co-owner keeps the object"); b = std::move(a); LIVE(1, "move-assigning a co-owner keeps the object"); c.Reset(); LIVE(1, "alive"); b.Reset(); LIVE(0, "destroyed with the last owner"); vp_reach("end"); }
void t_self_copy() { P a = make("a"); P& r = a; vp::V* o = a.Get(); int n = o != nullptr; a = r; vp_assert(a.Get() == o, "self-assignment keeps the object"); LIVE(n, "self-assignment destroys nothing"); if (o) vp_val(*a); a.Reset(); LIVE(0, "exactly one owner remained"); vp_reach("end"); }
void t_self_move() { P a = make("a"); P& r = a; vp::V* o = a.Get(); int n = o != nullptr; a = std::move(r); vp_assert(a.Get() == o, "self-move keeps the object"); LIVE(n, "self-move destroys nothing"); a.Reset(); LIVE(0, "exactly one owner remained"); vp_reach("end"); }
void t_reset() { P a = make("a"); vp::V* n = vp_bool("n") ? new vp::V(2) : nullptr; int c = n != nullptr; a.Reset(n); vp_assert(a.Get() == n, "reset takes the new object"); LIVE(c, "the old object is destroyed"); if (n) { P b(a); vp_val(*b); } vp_reach("end"); }
void t_reset_shared() { P a(new vp::V()); P b(a); a.Reset(); LIVE(1, "alive while another owner exists"); vp_assert(a.Get() == nullptr, "reset empties"); a.Reset(new vp::V()); LIVE(2, "both alive"); b.Reset(); LIVE(1, "one destroyed"); vp_reach("end"); }
void t_reset_default_twice() { P a = make("a"); a.Reset(); a.Reset(); LIVE(0, "destroyed once"); vp_assert(a.Get() == nullptr, "empty"); { P b(a); P c(std::move(b)); P d; d = c; vp_assert(d.Get() == nullptr, "copies of empty are empty"); } vp_reach("end"); }
void t_reset_same() { P a = make("a"); vp::V* o = a.Get(); int n = o != nullptr; a.Reset(o); vp_assert(a.Get() == o, "the same object"); LIVE(n, "resetting to the owned object keeps it"); vp_reach("end"); }
void t_assign_raw() { P a = make("a"); P k(a); int na = a.Get() != nullptr; vp::V* n = vp_bool("n") ? new vp::V(2) : nullptr; int c = n != nullptr; a = n; vp_assert(a.Get() == n, "takes the new object"); LIVE(c + na, "the shared old object stays alive"); k.Reset(); LIVE(c, "destroyed with its last owner"); vp_reach("end"); }
void t_assign_from_owned() { PN a(new Node()); a->next = PN(new Node()); a->next->next = PN(new Node()); LIVE(3, "three"); a = a->next; LIVE(2, "the old head is destroyed once"); a = a->next; LIVE(1, "the old head is destroyed once"); a = a->next; LIVE(0, "all destroyed"); vp_assert(a.Get() == nullptr, "empty"); vp_reach("end"); }
void t_move_from_owned() { PN a(new Node()); a->next = PN(new Node()); a->next->next = PN(new Node()); a = std::move(a->next); LIVE(2, "the old head is destroyed once"); vp_val(a->tag); a = std::move(a->next); LIVE(1, "the old head is destroyed once"); vp_val(a->tag); vp_reach("end"); }
void t_diamond() { { PN a(new Node()); PN b(new Node()); a->next = b; a->other = b; { PN c(new Node()); c->next = a; c->other = b; LIVE(3, "three nodes"); } LIVE(2, "one destroyed"); b.Reset(); LIVE(2, "kept by the other node"); a->next.Reset(); LIVE(2, "kept by the second reference"); } LIVE(0, "all destroyed once"); vp_reach("end"); }
void t_cycle_reset() { Node* n = new Node(); n->next = PN(n); LIVE(1, "an object may own itself"); n->next.Reset(); LIVE(0, "resetting the last pointer, inside the object, destroys it once"); vp_reach("end"); }
void t_cycle_assign() { Node* n = new Node(); n->next = PN(n); n->next = nullptr; LIVE(0, "assigning to the last pointer destroys the object once"); n = new Node(); n->next = PN(n); n->next = PN(); LIVE(0, "assigning to the last pointer destroys the object once"); n = new Node(); n->next = PN(n); PN m(new Node()); n->next = m; LIVE(1, "assigning to the last pointer destroys the object once"); n = new Node(); n->other = PN(n); n->next = n->other; n->other.Reset(); LIVE(2, "the other pointer inside still owns"); n->next = std::move(m); LIVE(0, "assigning to the last pointer destroys the objects once"); vp_reach("end"); }
void t_cycle_two() { PN a(new Node()); a->next = PN(new Node()); a->next->next = a; PN b(a->next); a.Reset(); LIVE(2, "two objects own each other"); b->next.Reset(); LIVE(1, "resetting breaks the cycle"); vp_val(b->tag); vp_reach("end"); }
void t_reset_inner() { PN a(new Node()); a->next = PN(new Node()); a->next->next = a->next->other; a->next.Reset(); LIVE(1, "inner owner destroyed"); vp_reach("end"); }
void t_compare() { P a = make("a"); P b = make("b"); P c(a); bool e = a == b; vp_assert(e == (a.Get() == b.Get()), "== compares the objects"); vp_assert((a != b) == !e, "!= is the opposite"); vp_assert(a == c, "a copy compares equal"); vp_assert(!(a != c), "a copy is not unequal"); LIVE((a.Get() != nullptr) + (b.Get() != nullptr), "comparing changes nothing"); vp_reach("end"); }
static void step(P& a, P& b, P& c, int op) {
    switch (op) {
    case 0: a = b; break;
    case 1: a = std::move(b); break;
    case 2: b = a; break;
    case 3: a.Reset(); break;
    case 4: b.Reset(new vp::V(3)); break;
    case 5: { P d(a); P e(d); c = e; break; }
    case 6: { P d(std::move(a)); b = d; break; }
    case 7: a.Reset(a.Get()); break;
    case 8: c = std::move(a); break;
    case 9: { P& r = b; b = r; break; }
    case 10: { P& r = a; a = std::move(r); break; }
    default: c = new vp::V(4); break;
    }
}
void t_history() {
    {
        P a = make("a"); P b(a); P c = make("c");
        step(a, b, c, vp_int("op1"));
        step(a, b, c, vp_int("op2"));
        int n = (a.Get() != nullptr) + (b.Get() != nullptr && b.Get() != a.Get()) + (c.Get() != nullptr && c.Get() != a.Get() && c.Get() != b.Get());
        LIVE(n, "exactly the owned objects are alive after any two operations");
        if (a.Get()) vp_val(*a); if (b.Get()) vp_val(*b); if (c.Get()) vp_val(*c);
        if (a.Get() && a == b) { a.Reset(); LIVE(n, "a co-owner keeps the object"); }
    }
    LIVE(0, "every object is destroyed when its last owner leaves"); vp_reach("end");
}
// --- other threads own, too
void t_mt_drop() { vp::V* o = new vp::V(); P* a = new P(o); vp_share(); delete a; vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
void t_mt_reset() { P a(new vp::V()); vp_share(); a.Reset(); vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
void t_mt_copy_drop() { P a(new vp::V()); vp_share(); { P b(a); P c(b); vp_val(*c); } vp_assert(vp_count("V") == 1, "alive while we own"); vp_val(*a); P d(std::move(a)); vp_val(*d); d.Reset(); vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
void t_mt_copy_assign() { P a(new vp::V()); vp_share(); P b; b = a; a.Reset(); vp_assert(vp_count("V") == 1, "alive while we own"); vp_val(*b); P c; b = c; vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
void t_mt_move_assign() { P a(new vp::V()); vp_share(); P b; b = std::move(a); vp_val(*b); b = P(); vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
void t_mt_assign_raw() { P a(new vp::V()); vp_share(); a = nullptr; vp_assert(vp_others() || vp_count("V") == 0, "the last owner destroys the object"); vp_assert(!vp_others() || vp_count("V") == 1, "the object stays while another thread owns it"); vp_reach("end"); }
// --- weak pointers
void t_weak_expires() { WeakPtr<vp::V> w; { P s(new vp::V()); w = s; } LIVE(0, "a weak pointer does not keep the object alive"); vp_reach("end"); }
void t_weak_balanced() { { WeakPtr<vp::V> w; { P s(new vp::V()); w = s; WeakPtr<vp::V> x(w); WeakPtr<vp::V> y(s); y = x; y = std::move(x); { P l = w.lock(); vp_val(*l); } vp_val(*w); LIVE(1, "alive while owned"); } } LIVE(0, "everything is destroyed once all pointers are gone"); vp_reach("end"); }
}
'''


def cfg(eng, run, entry):
    drv.lib_classes(eng)
    if "_mt_" in entry:
        interference(eng)
        return lambda e, r, s: (None if s.g.get("others_now") else drv.leakcheck(e, r, s))
    return drv.leakcheck


def interference(eng):
    """Other threads own the object as well: see EXPLANATION."""
    def share(e, st, a, i, f):
        live = {k[1] for k in st.g if isinstance(k, tuple) and k[0] == "live"}
        sh = frozenset(o for o, b in st.mem.items() if b.kind == "heap" and (o not in live or any(c[0] == 8 and c[1][0] == "n" for c in b.cells.values())) and not is_owner(st, o))
        st.g["shared"] = sh
        st.g["others"] = None        # unknown number >= 0
        st.g["acq"] = False
        return ret(st)

    def is_owner(st, o):
        # the SharedPtr object itself when it lives on the heap: it holds pointers only
        b = st.mem[o]
        vals = [c[1][0] for c in b.cells.values()]
        return bool(vals) and all(v == "p" for v in vals) and b.size == const(16)
    eng.rt["vp_share"] = share

    def others(e, st, a, i, f):
        v = st.g.get("others")
        out = []
        s0 = st.copy(); s0.g["others_now"] = False
        if v is None:
            s1 = st.copy(); s1.g["others_now"] = True; s1.g["others"] = "some"
            s0.g["others"] = "none"
            return [("ret", ("c", True), s1), ("ret", ("c", False), s0)]
        st.g["others_now"] = v == "some"
        return [("ret", ("c", v == "some"), st)]
    eng.rt["vp_others"] = others

    def gone(st, oid):
        return st.g.get("left") == oid

    def touch(e, st, p, what, atomic, write):
        sh = st.g.get("shared")
        if not sh or p[0] != "p" or p[1] not in sh:
            return False
        if st.g.get("left") == p[1] and st.g.get("others") != "none":
            raise Fault("touches the shared count after giving up its own reference (another owner may have destroyed it)")
        if not atomic and write and st.g.get("others") != "none":
            raise Fault("non-atomic change of bookkeeping shared with other threads")
        return True

    def rmw(e, st, o, p, v, t, order, inst):
        if not touch(e, st, p, "rmw", True, True):
            return None
        e.access(st, p, e.mod.size(t), "changes the count of")
        own = e.loadc(st, p[1], st.mem[p[1]], p[2], e.mod.size(t), e.mod.res(t))
        out = []
        for s, rest in observe(e, st):
            old = N(t.a, own[2] + rest[0], rest[1])
            k = v[2] if o == "add" else -v[2]
            if o not in ("add", "sub"):
                raise Giveup("atomic " + o)
            k = sgn(k, t.a)
            new = N(t.a, own[2] + k)
            s.w(p[1]).cells[p[2]] = (e.mod.size(t), new)
            if k < 0:
                if order not in ("release", "acq_rel", "seq_cst"):
                    raise Fault("drops its reference without release ordering")
                if order in ("acq_rel", "acquire", "seq_cst"):
                    s.g["acq"] = True
                if own[2] + k == 0:
                    s.g["left"] = p[1]
            out.append((old, s))
        return out
    eng.on_rmw = rmw

    def observe(e, st):
        """The other threads' share of the count right now: none or at least one."""
        v = st.g.get("others")
        res = []
        if v != "some":
            s = st.copy(); s.g["others"] = "none"
            res.append((s, const(0)))
        if v != "none":
            s = st.copy()
            m = e.fresh(64, "others", lo=1, hi=1 << 40)
            # they may still leave later (None), unless we have left: then only they decide
            s.g["others"] = "some" if False else None
            if s.g.get("left") is None:
                s.g["others"] = None
            res.append((s, var(m)))
        return res

    # an observation made by the decrement that gave up our reference is final
    def rmw2(e, st, o, p, v, t, order, inst):
        r = rmw(e, st, o, p, v, t, order, inst)
        if r is None:
            return None
        for old, s in r:
            if s.g.get("left") is not None:
                a, b = s.num.rng(e.sy, (old[2], old[3]))
                s.g["others"] = "none" if b <= 1 else "some"
        return r
    eng.on_rmw = rmw2

    oload, ostore = eng.load, eng.store

    def load(st, p, ty):
        inst = eng.stack[-1][1]
        atomic = inst is not None and inst.op == "load" and "atomic" in inst.x[2]
        if st.g.get("shared") and touch(eng, st, p, "load", atomic, False) and atomic:
            own = eng.loadc(st, p[1], st.mem[p[1]], p[2], eng.mod.size(ty), eng.mod.res(ty))
            if own[0] == "n":
                return [(s, N(own[1], own[2] + r[0], r[1])) for s, r in observe(eng, st)]
        return oload(st, p, ty)

    def store(st, p, v, ty):
        inst = eng.stack[-1][1]
        atomic = inst is not None and inst.op == "store" and "atomic" in inst.x[3]
        if st.g.get("shared"):
            if touch(eng, st, p, "store", atomic, True) and atomic and st.g.get("others") != "none":
                raise Fault("overwrites the shared count (updates of other threads are lost)")
        return ostore(st, p, v, ty)
    eng.load, eng.store = load, store

    def cas(e, st, p, exp, new, t, inst):
        if not touch(e, st, p, "cas", True, True):
            return None
        raise Giveup("compare-exchange on the shared count")
    eng.on_cas = cas

    od = eng.on_delete

    def ondel(e, st, oid):
        sh = st.g.get("shared")
        if sh and oid in sh and st.g.get("others") != "none":
            raise Fault("frees the shared bookkeeping while another thread may still own the object")
        od(e, st, oid)
    eng.on_delete = ondel

    dt = [h for h in eng.hooks if h[0].pattern == r"vp::\w+::"][0][1]

    def destroy(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        if "::~" in d and st.g.get("shared") is not None:
            if st.g.get("others") != "none":
                raise Fault("destroys the object while another thread may still own it")
            if not st.g.get("acq"):
                raise Fault("destroys the object without acquire ordering after the last reference was dropped")
        return dt(e, st, a, inst, f)
    eng.hooks = [(rx, destroy if fn is dt else fn) for rx, fn in eng.hooks]

    def fence(inst):
        pass
    osimple = eng.simple

    def simple(inst, env, st):
        if inst.op == "fence" and inst.x[0] in ("acquire", "acq_rel", "seq_cst"):
            st.g["acq"] = True
        return osimple(inst, env, st)
    eng.simple = simple


def run(ctx):
    mod, res = drv.settle(ctx, "shared", SRC, cfg)
    ctx.need(len(res), 28, "entries")
    for r in res:
        ctx.need(sum(r.reach.values()) + len(r.viol) + len(r.und), 1, "paths reaching the end of " + r.name)
