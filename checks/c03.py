import drv
LEVEL = "other"
EXPLANATION = ("Ownership typestate analysis (path-sensitive abstract interpretation of clang IR) of every UniquePtr operation from every state "
               "(empty, owning, owning the source) on an opaque class whose construction, move and destruction are events; double destruction, "
               "use of destroyed storage and leaks are faults on an abstract path, never observed at run time.")
ASSUMPTIONS = ["operator new does not fail", "the owned class's destructor does not throw"]

SRC = r'''
#include <Caitlyn/Memory>
using namespace Caitlyn;
''' + drv.opaque("V") + r'''
using P = UniquePtr<vp::V>;
struct Node { vp::V tag; UniquePtr<Node> next; };
using PN = UniquePtr<Node>;
#define LIVE(n, m) vp_assert(vp_count("V") == (n), m)
static P make(const char* nm) { return P(vp_bool(nm) ? new vp::V(1) : nullptr); }
extern "C" {
void t_scope() { { P p(new vp::V()); LIVE(1, "the object lives while the pointer owns it"); vp_val(*p); } LIVE(0, "destruction destroys the object"); vp_reach("end"); }
void t_empty() { { P p; P q(nullptr); vp_assert(p.Get() == nullptr && q.Get() == nullptr, "empty pointers hold nothing"); } LIVE(0, "nothing to destroy"); vp_reach("end"); }
void t_move_construct() {
    P a = make("a"); vp::V* raw = a.Get(); int n = raw != nullptr;
    { P b(std::move(a)); vp_assert(b.Get() == raw, "the new pointer owns the object"); vp_assert(a.Get() == nullptr, "the source gives the object up"); LIVE(n, "moving keeps the object alive"); }
    LIVE(0, "the object is destroyed with its new owner"); vp_reach("end");
}
void t_move_assign() {
    P a = make("a"); P b = make("b"); vp::V* rb = b.Get(); int n = rb != nullptr;
    P& r = (a = std::move(b));
    vp_assert(&r == &a, "assignment returns the target");
    vp_assert(a.Get() == rb, "the target owns the source's object"); vp_assert(b.Get() == nullptr, "the source gives the object up");
    LIVE(n, "the old object is destroyed, the new one is kept"); if (rb) vp_val(*a); vp_reach("end");
}
void t_self_move() {
    P a = make("a"); vp::V* ra = a.Get(); int n = ra != nullptr; P& alias = a;
    a = std::move(alias);
    vp_assert(a.Get() == ra, "self-move keeps the object"); LIVE(n, "self-move destroys nothing"); if (ra) vp_val(*a); vp_reach("end");
}
void t_move_twice() {
    P a(new vp::V()); P b; P c; b = std::move(a); c = std::move(b); a = std::move(c); b = std::move(c);
    LIVE(1, "the object survives a chain of moves"); vp_val(*a); vp_reach("end");
}
void t_move_from_owned() {
    PN a(new Node()); a->next = PN(new Node()); a->next->next = PN(new Node());
    LIVE(3, "three nodes");
    Node* second = a->next.Get();
    a = std::move(a->next);
    vp_assert(a.Get() == second, "the part moved out is owned now"); LIVE(2, "the old head is destroyed once");
    a = std::move(a->next); LIVE(1, "the old head is destroyed once");
    a = std::move(a->next); LIVE(0, "assigning an empty part destroys the rest"); vp_assert(a.Get() == nullptr, "empty"); vp_reach("end");
}
void t_move_into_owned() {
    PN a(new Node()); PN b(new Node()); a->next = std::move(b); LIVE(2, "both nodes alive"); a->next->next = PN(new Node()); LIVE(3, "all alive");
    a->next.Reset(); LIVE(1, "resetting an inner owner destroys its chain"); vp_reach("end");
}
void t_reset() {
    P a = make("a"); vp::V* n = vp_bool("n") ? new vp::V(2) : nullptr; int c = n != nullptr;
    a.Reset(n); vp_assert(a.Get() == n, "reset takes the new object"); LIVE(c, "reset destroys the old object only"); if (n) vp_val(*a); vp_reach("end");
}
void t_reset_default() { P a = make("a"); a.Reset(); vp_assert(a.Get() == nullptr, "reset empties"); LIVE(0, "reset destroys the object"); a.Reset(); a.Reset(nullptr); LIVE(0, "resetting an empty pointer does nothing"); vp_reach("end"); }
void t_reset_same() { P a = make("a"); vp::V* r = a.Get(); int n = r != nullptr; a.Reset(r); vp_assert(a.Get() == r, "still the same object"); LIVE(n, "resetting to the owned object keeps it alive"); if (r) vp_val(*a); vp_reach("end"); }
void t_assign_raw() { P a = make("a"); vp::V* n = vp_bool("n") ? new vp::V(2) : nullptr; int c = n != nullptr; P& r = (a = n); vp_assert(&r == &a, "assignment returns the target");
    vp_assert(a.Get() == n, "takes the new object"); LIVE(c, "the old object is destroyed only"); vp_reach("end"); }
void t_assign_same() { P a = make("a"); vp::V* r = a.Get(); int n = r != nullptr; a = r; vp_assert(a.Get() == r, "still the same object"); LIVE(n, "assigning the owned object keeps it alive"); vp_reach("end"); }
void t_release() {
    P a = make("a"); vp::V* r = a.Get(); int n = r != nullptr;
    vp::V* x = a.Release();
    vp_assert(x == r, "release hands the object over"); vp_assert(a.Get() == nullptr, "release empties the pointer"); LIVE(n, "release destroys nothing");
    { P moved(std::move(a)); } a.Reset(); LIVE(n, "the pointer never destroys a released object"); delete x; LIVE(0, "destroyed by the caller"); vp_reach("end");
}
void t_release_scope() { vp::V* x; { P a(new vp::V()); x = a.Release(); } LIVE(1, "a released object outlives the pointer"); delete x; vp_reach("end"); }
void t_release_reset() { PN a(new Node()); a->next = PN(new Node()); a.Reset(a->next.Release()); LIVE(1, "the head is destroyed, the released tail is kept"); vp_val(a->tag); vp_reach("end"); }
void t_cycle_reset() { Node* n = new Node(); n->next.Reset(n); LIVE(1, "an object may own itself"); n->next.Reset(); LIVE(0, "resetting the pointer inside destroys the object once"); vp_reach("end"); }
void t_cycle_assign() { Node* n = new Node(); n->next = PN(n); n->next = nullptr; LIVE(0, "assigning to the pointer inside destroys the object once"); n = new Node(); n->next = n; n->next = PN(); LIVE(0, "assigning to the pointer inside destroys the object once"); n = new Node(); n->next = n; PN m(new Node()); n->next = std::move(m); LIVE(0, "assigning to the pointer inside destroys the object once"); vp_reach("end"); }
void t_cycle_two() { Node* a = new Node(); a->next = new Node(); a->next->next = a; LIVE(2, "two objects own each other"); PN t = std::move(a->next); a = nullptr; LIVE(2, "moving out keeps both"); t->next.Reset(); LIVE(1, "resetting breaks the cycle"); vp_val(t->tag); vp_reach("end"); }
struct Back { vp::V tag; UniquePtr<Back>* owner; ~Back() { vp_assert(owner->Get() != this, "the owner has let go of the object when it is destroyed"); owner->Reset(); } };
void t_reentrant() { UniquePtr<Back> p(new Back()); p->owner = &p; p.Reset(); LIVE(0, "destroyed once although its destructor resets the owner"); p.Reset(new Back()); p->owner = &p; p = UniquePtr<Back>(); LIVE(0, "destroyed once although its destructor resets the owner"); vp_reach("end"); }
void t_get_does_not_own() { { P a(new vp::V()); vp::V* r = a.Get(); vp_assert(r == &*a, "get and * agree"); vp_assert(r == a.operator->(), "-> agrees"); LIVE(1, "get changes nothing"); } LIVE(0, "destroyed once"); vp_reach("end"); }
void t_compare() { P a = make("a"); P b = make("b"); const P& ca = a; bool e = ca == b; bool n = ca != b; vp_assert(e != n, "== and != are opposite"); vp_assert(e == (a.Get() == b.Get()), "== compares the objects");
    vp_assert((ca == nullptr) == (a.Get() == nullptr), "comparison with null"); vp_assert((ca != nullptr) == (a.Get() != nullptr), "comparison with null"); vp_reach("end"); }
static void step(P& a, P& b, int op, vp::V*& loose) {
    switch (op) {
    case 0: a = std::move(b); break;
    case 1: b = std::move(a); break;
    case 2: a.Reset(); break;
    case 3: a.Reset(new vp::V(3)); break;
    case 4: a.Reset(a.Get()); break;
    case 5: { vp::V* r = a.Release(); if (loose) delete loose; loose = r; break; }
    case 6: { P c(std::move(a)); break; }
    case 7: { P c(std::move(b)); a = std::move(c); break; }
    case 8: a = new vp::V(4); break;
    case 9: { P& r = b; b = std::move(r); break; }
    case 10: b = P(); break;
    default: b = P(new vp::V(5)); break;
    }
}
void t_history() {
    vp::V* loose = nullptr;
    {
        P a = make("a"); P b = make("b");
        step(a, b, vp_int("op1"), loose);
        step(a, b, vp_int("op2"), loose);
        int n = (a.Get() != nullptr) + (b.Get() != nullptr) + (loose != nullptr);
        vp_assert(a.Get() == nullptr || a.Get() != b.Get(), "two unique pointers never own the same object");
        LIVE(n, "exactly the owned objects are alive after any two operations");
        if (a.Get()) vp_val(*a); if (b.Get()) vp_val(*b); vp_reach("states");
    }
    LIVE(loose != nullptr, "leaving the scope destroys every owned object once"); delete loose; vp_reach("end");
}
}
'''


def cfg(eng, run, entry):
    drv.lib_classes(eng)
    return drv.leakcheck


def run(ctx):
    mod, res = drv.settle(ctx, "unique", SRC, cfg)
    ctx.need(len(res), 23, "entries")
    for r in res:
        ctx.need(sum(r.reach.values()) + len(r.viol) + len(r.und), 1, "paths reaching the end of " + r.name)
