import drv
LEVEL = "other"
EXPLANATION = ("Path-sensitive null-state analysis (abstract interpretation of clang IR) of operator* and operator-> of Ptr, UniquePtr, SharedPtr and WeakPtr in every "
               "way of being empty and of being full; an access through null or to destroyed storage is a fault on an abstract path.")
ASSUMPTIONS = ["operator new does not fail"]

ALL = r'''
#include <Caitlyn/Memory>
using namespace Caitlyn;
''' + drv.opaque("V") + r'''
template <class P> static void empty(P& p) {
    bool t = false;
    try { vp::V& r = *p; (void)r; } catch (...) { t = true; }
    vp_assert(t, "operator* of an empty pointer throws");
    t = false;
    try { vp::V* r = p.operator->(); (void)r; } catch (...) { t = true; }
    vp_assert(t, "operator-> of an empty pointer throws");
    const P& c = p;
    t = false;
    try { (void)&*c; } catch (...) { t = true; }
    vp_assert(t, "operator* of an empty const pointer throws");
    vp_assert(c == nullptr, "an empty pointer equals null");
    vp_assert(!(c != nullptr), "an empty pointer is not unequal to null");
    vp_reach("end");
}
template <class P> static void full(P& p, vp::V* o) {
    vp_assert(&*p == o, "operator* yields the object");
    vp_assert(p.operator->() == o, "operator-> yields the object");
    p->pad_ = 1; vp_assert((*p).pad_ == 1, "the object is accessible");
    const P& c = p; vp_assert(&*c == o, "operator* of a const pointer yields the object");
    vp_assert(c != nullptr, "a full pointer is unequal to null"); vp_assert(!(c == nullptr), "a full pointer does not equal null");
    vp_reach("end");
}
'''
UNIQ = r'''
extern "C" {
#define MK(S, P) \
void t_##S##_default() { P<vp::V> p; empty(p); } \
void t_##S##_null() { P<vp::V> p(nullptr); empty(p); } \
void t_##S##_nullraw() { vp::V* n = nullptr; P<vp::V> p(n); empty(p); } \
void t_##S##_moved() { P<vp::V> p(new vp::V()); P<vp::V> q(std::move(p)); empty(p); vp::V* o = q.Get(); full(q, o); } \
void t_##S##_move_assigned() { P<vp::V> p(new vp::V()); P<vp::V> q; q = std::move(p); empty(p); vp::V* o = q.Get(); full(q, o); } \
void t_##S##_reset() { P<vp::V> p(new vp::V()); p.Reset(); empty(p); } \
void t_##S##_reset_null() { P<vp::V> p(new vp::V()); p.Reset(nullptr); empty(p); } \
void t_##S##_assign_null() { P<vp::V> p(new vp::V()); p = nullptr; empty(p); } \
void t_##S##_from_empty() { P<vp::V> e; P<vp::V> p(std::move(e)); empty(p); empty(e); P<vp::V> q(new vp::V()); q = std::move(p); empty(q); empty(p); } \
void t_##S##_full() { vp::V* o = new vp::V(); P<vp::V> p(o); full(p, o); vp_assert(p.Get() == o, "get yields the object"); } \
void t_##S##_refill() { P<vp::V> p; vp::V* o = new vp::V(); p.Reset(o); full(p, o); p.Reset(); empty(p); vp::V* o2 = new vp::V(); p = o2; full(p, o2); }
MK(unique, UniquePtr)
MK(shared, SharedPtr)
void t_unique_released() { UniquePtr<vp::V> p(new vp::V()); vp::V* o = p.Release(); empty(p); delete o; }
void t_shared_copy_empty() { SharedPtr<vp::V> e; SharedPtr<vp::V> p(e); empty(p); SharedPtr<vp::V> q(new vp::V()); q = e; empty(q); empty(e); }
void t_shared_copies() { vp::V* o = new vp::V(); SharedPtr<vp::V> p(o); SharedPtr<vp::V> q(p); full(q, o); full(p, o); p.Reset(); empty(p); full(q, o); SharedPtr<vp::V> r; r = q; full(r, o); }
void t_raw_default() { Ptr<vp::V> p; empty(p); }
void t_raw_null() { Ptr<vp::V> p(nullptr); empty(p); Ptr<vp::V> q(p); empty(q); Ptr<vp::V> r; r = q; empty(r); }
void t_raw_full() { vp::V* o = new vp::V(); Ptr<vp::V> p(o); full(p, o); Ptr<vp::V> q(p); full(q, o); Ptr<vp::V> r; r = q; full(r, o); r = nullptr; empty(r); full(q, o); q = o; full(q, o); p.Destroy(); empty(p); }
void t_raw_reset() { Ptr<vp::V> p(new vp::V()); p.Reset(); empty(p); vp::V* o = new vp::V(); p.Reset(o); full(p, o); vp_assert(vp_count("V") == 1, "reset deletes the old object"); p.Reset(nullptr); empty(p); vp_assert(vp_count("V") == 0, "reset deletes the old object"); }
void t_weak_default() { WeakPtr<vp::V> w; empty(w); vp_assert(w.expired(), "an empty weak pointer is expired"); SharedPtr<vp::V> s = w.lock(); empty(s); }
void t_weak_of_empty() { SharedPtr<vp::V> s; WeakPtr<vp::V> w(s); empty(w); WeakPtr<vp::V> x(w); empty(x); WeakPtr<vp::V> y; y = s; empty(y); y = w; empty(y); vp_assert(w.expired(), "expired"); }
void t_weak_full() { vp::V* o = new vp::V(); SharedPtr<vp::V> s(o); WeakPtr<vp::V> w(s); full(w, o); WeakPtr<vp::V> x(w); full(x, o); WeakPtr<vp::V> y; y = s; full(y, o); WeakPtr<vp::V> z; z = y; full(z, o);
    vp_assert(!w.expired(), "not expired while owned"); SharedPtr<vp::V> l = w.lock(); full(l, o); }
void t_weak_moved() { vp::V* o = new vp::V(); SharedPtr<vp::V> s(o); WeakPtr<vp::V> w(s); WeakPtr<vp::V> x(std::move(w)); empty(w); full(x, o); w = std::move(x); empty(x); full(w, o); vp_assert(x.expired(), "a moved-from weak pointer is expired"); }
}
'''
SRC = ALL + UNIQ


def cfg(eng, run, entry):
    drv.lib_classes(eng)
    return None


def run(ctx):
    mod, res = drv.settle(ctx, "deref", SRC, cfg)
    ctx.need(len(res), 30, "entries")
    for r in res:
        ctx.need(sum(r.reach.values()) + len(r.viol) + len(r.und), 1, "paths reaching the end of " + r.name)
