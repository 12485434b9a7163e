import drv
LEVEL = "other"
EXPLANATION = ("Typestate analysis (path-sensitive abstract interpretation of clang IR) of every construction, copy, move, assignment and destruction of Expected<V,E> with opaque V and E, "
               "from both states of target and source, with and without the copy of the content throwing: live alternatives are counted against the reported state, double destruction, "
               "use of dead storage and leaks are faults on an abstract path.")
ASSUMPTIONS = ["move construction of the contents does not throw"]

SRC = r'''
#include <Caitlyn/Error>
using namespace Caitlyn;
''' + drv.opaque("V") + drv.opaque("E") + drv.opaque("W") + r'''
using R = Expected<vp::V, vp::E>;
static R make(const char* nm, int k) { if (vp_bool(nm)) return R(vp::V(k)); return R(Unexpected<vp::E>(vp::E(k + 1))); }
static int id(const R& r) { return r.HasValue() ? vp_val(r.Get()) : vp_val(r.GetError()); }
static void alive(int n, const char*) ;
#define STATE1(a) do { vp_assert(a.HasValue() != a.HasError(), "exactly one state is reported"); vp_assert(static_cast<bool>(a) == a.HasValue(), "conversion to bool agrees"); id(a); } while (0)
#define ONE(a) do { STATE1(a); vp_assert(vp_count("V") == (int)a.HasValue() && vp_count("E") == (int)a.HasError(), "exactly the reported alternative is alive"); } while (0)
#define TWO(a, b) do { STATE1(a); STATE1(b); vp_assert(vp_count("V") == (int)a.HasValue() + (int)b.HasValue() && vp_count("E") == (int)a.HasError() + (int)b.HasError(), "exactly the reported alternatives are alive"); } while (0)
extern "C" {
void t_value() { { vp::V v(7); int i = vp_val(v); { R a(v); vp_assert(a.HasValue() && !a.HasError(), "a value makes a value result"); vp_assert(vp_val(a.Get()) == i, "the value is stored"); vp_assert(vp_val(v) == i, "the argument is copied"); vp_assert(vp_count("V") == 2 && vp_count("E") == 0, "one value alive in the result"); } vp_assert(vp_count("V") == 1, "the value is destroyed"); } vp_reach("end"); }
void t_value_move() { { vp::V v(7); int i = vp_val(v); R a(std::move(v)); vp_assert(a.HasValue(), "a value makes a value result"); vp_assert(vp_val(a.Get()) == i, "the value is stored"); } vp_reach("end"); }
void t_error() { { Unexpected<vp::E> e(vp::E(7)); int i = vp_val(e.Get()); { R a(e); vp_assert(!a.HasValue() && a.HasError(), "an error makes an error result"); vp_assert(vp_val(a.GetError()) == i, "the error is stored"); vp_assert(vp_count("V") == 0 && vp_count("E") == 2, "one error alive in the result"); } vp_assert(vp_count("E") == 1, "the error is destroyed"); } vp_reach("end"); }
void t_error_move() { { Unexpected<vp::E> e(vp::E(7)); int i = vp_val(e.Get()); R a(std::move(e)); vp_assert(a.HasError(), "an error makes an error result"); vp_assert(vp_val(a.GetError()) == i, "the error is stored"); } vp_reach("end"); }
void t_copy() { R a = make("a", 1); int i = id(a); { R b(a); TWO(a, b); vp_assert(b.HasValue() == a.HasValue(), "a copy has the same state"); vp_assert(id(b) == i, "a copy has the same content"); vp_assert(id(a) == i, "the source is unchanged"); } ONE(a); vp_assert(id(a) == i, "the source is unchanged"); vp_reach("end"); }
void t_move() { R a = make("a", 1); int i = id(a); bool s = a.HasValue(); { R b(std::move(a)); TWO(a, b); vp_assert(b.HasValue() == s, "a move keeps the state"); vp_assert(id(b) == i, "a move keeps the content"); } ONE(a); vp_reach("end"); }
void t_copy_assign() { R a = make("a", 1); R b = make("b", 5); int i = id(b); R& r = (a = b); vp_assert(&r == &a, "returns the target"); TWO(a, b); vp_assert(a.HasValue() == b.HasValue(), "takes the state"); vp_assert(id(a) == i, "takes the content"); vp_assert(id(b) == i, "the source is unchanged"); vp_reach("end"); }
void t_move_assign() { R a = make("a", 1); R b = make("b", 5); int i = id(b); bool s = b.HasValue(); R& r = (a = std::move(b)); vp_assert(&r == &a, "returns the target"); TWO(a, b); vp_assert(a.HasValue() == s, "takes the state"); vp_assert(id(a) == i, "takes the content"); vp_reach("end"); }
void t_self_copy() { R a = make("a", 1); int i = id(a); R& r = a; a = r; ONE(a); vp_assert(id(a) == i, "self-assignment keeps the content"); vp_reach("end"); }
void t_self_move() { R a = make("a", 1); int i = id(a); bool s = a.HasValue(); R& r = a; a = std::move(r); ONE(a); vp_assert(a.HasValue() == s, "self-move keeps the state"); vp_assert(id(a) == i, "self-move keeps the content"); vp_reach("end"); }
void t_assign_value() { R a = make("a", 1); { vp::V v(9); int i = vp_val(v); a = v; vp_assert(a.HasValue() && vp_val(a.Get()) == i, "takes the value"); } ONE(a); vp_reach("end"); }
void t_assign_error() { R a = make("a", 1); { Unexpected<vp::E> v(vp::E(9)); int i = vp_val(v.Get()); a = v; vp_assert(a.HasError() && vp_val(a.GetError()) == i, "takes the error"); } ONE(a); vp_reach("end"); }
void t_moved_from_reuse() { R a = make("a", 1); R b(std::move(a)); a = b; TWO(a, b); vp_assert(id(a) == id(b), "a moved-from result can be assigned"); b = std::move(a); a = R(vp::V(3)); TWO(a, b); R c(a); vp_reach("end"); }
static void step(R& a, R& b, int op) {
    switch (op) {
    case 0: a = b; break;
    case 1: a = std::move(b); break;
    case 2: b = a; break;
    case 3: { R c(a); b = c; break; }
    case 4: { R c(std::move(a)); b = std::move(c); break; }
    case 5: a = R(vp::V(11)); break;
    case 6: a = R(Unexpected<vp::E>(vp::E(12))); break;
    case 7: { R& r = a; a = r; break; }
    case 8: { R& r = b; b = std::move(r); break; }
    default: std::swap(a, b); break;
    }
}
void t_history() { { R a = make("a", 1); R b = make("b", 5); step(a, b, vp_int("op1")); TWO(a, b); step(a, b, vp_int("op2")); TWO(a, b); } vp_assert(vp_count("V") == 0 && vp_count("E") == 0, "everything is destroyed at the end"); vp_reach("end"); }
void t_nested() { using N = Expected<R, vp::W>; { N a(make("a", 1)); N b(Unexpected<vp::W>(vp::W(3))); N c(a); b = a; a = N(Unexpected<vp::W>(vp::W(4))); b = std::move(a); vp_assert(b.HasError() && vp_count("W") == 2, "nested results"); a = c; vp_assert(a.HasValue(), "nested results"); } vp_assert(vp_count("V") + vp_count("E") + vp_count("W") == 0, "everything is destroyed at the end"); vp_reach("end"); }
void t_trivial() { Expected<int, vp::E> a(3); Expected<int, vp::E> b(Unexpected<vp::E>(vp::E(3))); Expected<vp::V, int> c(Unexpected<int>(4)); Expected<vp::V, int> d(vp::V(1)); a = b; vp_assert(a.HasError() && vp_count("E") == 2, "state follows"); b = Expected<int, vp::E>(5); vp_assert(b.HasValue() && b.Get() == 5 && vp_count("E") == 1, "state follows"); c = d; d = Expected<vp::V, int>(Unexpected<int>(6)); vp_assert(c.HasValue() && d.HasError() && d.GetError() == 6 && vp_count("V") == 1, "state follows"); Expected<int, int> e(1); e = Expected<int, int>(Unexpected<int>(2)); vp_assert(e.HasError() && e.GetError() == 2, "state follows"); vp_reach("end"); }
void t_factories() { auto a = MakeCorrect<vp::V, vp::E>(vp::V(2)); vp_assert(a.HasValue(), "MakeCorrect makes a value"); R b = MakeError(vp::E(2)); vp_assert(b.HasError(), "MakeError makes an error"); vp_assert(vp_count("V") == 1 && vp_count("E") == 1, "exactly the reported alternatives are alive"); vp_reach("end"); }
}
'''
# the same classes, but every copy may throw
THR = r'''
#include <Caitlyn/Error>
using namespace Caitlyn;
''' + drv.opaque("V") + drv.opaque("E") + r'''
using R = Expected<vp::V, vp::E>;
static R make(const char* nm, int k) { if (vp_bool(nm)) return R(vp::V(k)); return R(Unexpected<vp::E>(vp::E(k + 1))); }
static int id(const R& r) { return r.HasValue() ? vp_val(r.Get()) : vp_val(r.GetError()); }
extern "C" {
void t_throw_copy_assign() {
    {
        R a = make("a", 1); R b = make("b", 5); int i = id(a), j = id(b); bool s = a.HasValue(), t = b.HasValue();
        try { a = b; vp_assert(a.HasValue() == t && id(a) == j, "takes the content"); vp_reach("end"); }
        catch (...) { vp_assert(a.HasValue() == s, "a throwing copy leaves the state of the target"); vp_assert(id(a) == i, "a throwing copy leaves the content of the target"); vp_reach("thrown"); }
        vp_assert(b.HasValue() == t && id(b) == j, "the source is unchanged");
        vp_assert(vp_count("V") == (int)a.HasValue() + (int)b.HasValue() && vp_count("E") == (int)a.HasError() + (int)b.HasError(), "exactly the reported alternatives are alive");
    }
    vp_assert(vp_count("V") + vp_count("E") == 0, "everything is destroyed at the end");
}
void t_throw_copy() { { R b = make("b", 5); int j = id(b); try { R a(b); vp_assert(id(a) == j, "a copy has the content"); vp_reach("end"); } catch (...) { vp_reach("thrown"); } vp_assert(id(b) == j && vp_count("V") == (int)b.HasValue() && vp_count("E") == (int)b.HasError(), "only the source is alive"); } vp_assert(vp_count("V") + vp_count("E") == 0, "everything is destroyed at the end"); }
void t_throw_construct() { { vp::V v(1); vp::E e(2); try { R a(v); vp_reach("end"); R b{Unexpected<vp::E>(e)}; vp_reach("end"); R c(a); c = b; b = a; } catch (...) { vp_reach("thrown"); } vp_assert(vp_count("V") == 1 && vp_count("E") == 1, "nothing is left of results whose construction threw"); } vp_assert(vp_count("V") + vp_count("E") == 0, "everything is destroyed at the end"); }
void t_throw_twice() { { R a = make("a", 1); R b = make("b", 5); int i = id(a); bool s = a.HasValue(); int n = 0; try { a = b; } catch (...) { n = 1; } if (n) { vp_assert(a.HasValue() == s && id(a) == i, "a throwing copy leaves the target"); try { a = b; vp_assert(id(a) == id(b), "a later assignment succeeds"); } catch (...) { vp_assert(id(a) == i, "a throwing copy leaves the target"); } } vp_reach("end"); } vp_assert(vp_count("V") + vp_count("E") == 0, "everything is destroyed at the end"); }
}
'''


def cfg(eng, run, entry):
    drv.lib_classes(eng, throwing=("V", "E") if "_throw_" in entry else ())
    return drv.leakcheck


def run(ctx):
    mod, res = drv.settle(ctx, "result", SRC, cfg, name="plain")
    mod2, res2 = drv.settle(ctx, "result", THR, cfg, name="throwing")
    ctx.need(len(res) + len(res2), 20, "entries")
    for r in res + res2:
        ctx.need(sum(r.reach.values()) + len(r.viol) + len(r.und), 1, "paths reaching the end of " + r.name)
    for r in res2:
        if not r.viol and not r.und and "twice" not in r.name:
            ctx.need(r.reach.get("thrown", 0), 1, "throwing paths of " + r.name)
