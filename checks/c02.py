import drv, nstr
LEVEL = "other"
EXPLANATION = ("Path-sensitive analysis (abstract interpretation of clang IR) of every combinator and accessor of Expected in both states with opaque contents and user functions whose calls and "
               "arguments are recorded: calls per state, argument identity, result state, result content and lifetimes are obligations on every abstract path, including the paths on which the user function throws.")
ASSUMPTIONS = ["move construction of the contents does not throw"]

SRC = nstr.NSTR + r'''
#include <Caitlyn/Error>
using namespace Caitlyn;
''' + drv.opaque("V") + drv.opaque("E") + drv.opaque("W") + drv.opaque("X") + r'''
using R = Expected<vp::V, vp::E>;
static R make() { if (vp_bool("ok")) return R(vp::V(1)); return R(Unexpected<vp::E>(vp::E(2))); }
static int id(const R& r) { return r.HasValue() ? vp_val(r.Get()) : vp_val(r.GetError()); }
static int calls, arg, calls2, arg2;
static void boom(const char* n) { if (vp_bool(n)) throw 1; }
// user functions
struct VtoW { vp::W operator()(const vp::V& v) const { ++calls; arg = vp_val(v); boom("throws"); return vp::W(50); } };
struct EtoX { vp::X operator()(const vp::E& e) const { ++calls; arg = vp_val(e); boom("throws"); return vp::X(51); } };
struct VtoR { R operator()(const vp::V& v) const { ++calls; arg = vp_val(v); boom("throws"); if (vp_bool("fok")) return R(vp::V(60)); return R(Unexpected<vp::E>(vp::E(61))); } };
struct EtoR { R operator()(const vp::E& v) const { ++calls; arg = vp_val(v); boom("throws"); if (vp_bool("fok")) return R(vp::V(60)); return R(Unexpected<vp::E>(vp::E(61))); } };
struct EtoV { vp::V operator()(const vp::E& e) const { ++calls; arg = vp_val(e); boom("throws"); return vp::V(52); } };
struct Pred { bool operator()(const vp::V& v) const { ++calls; arg = vp_val(v); boom("throws"); return vp_bool("pred"); } };
struct Evoid { void operator()(const vp::E& e) const { ++calls; arg = vp_val(e); boom("throws"); } };
struct FoldF { vp::W operator()(vp::W w, const vp::V& v) const { ++calls; arg = vp_val(v); arg2 = vp_val(w); boom("throws"); return vp::W(54); } };
struct InsV { int operator()(const vp::V& v, int a, int b) const { ++calls; arg = vp_val(v); arg2 = a * 10 + b; return 70; } };
struct InsE { int operator()(const vp::E& e, int a, int b) const { ++calls2; arg = vp_val(e); arg2 = a * 10 + b; return 71; } };
struct Cust { int operator()(const R& r) const { ++calls; arg = id(r); return 72; } };
#define BEGIN { const R r = make(); const bool ok = r.HasValue(); const int i = id(r); calls = calls2 = arg = arg2 = 0; bool threw = false; int live = vp_count("V") + vp_count("E"); (void)i; (void)live; try {
#define END(called) } catch (int) { threw = true; } vp_assert(!threw || (called), "an exception of the user's function escapes only where it is called"); \
  vp_assert(calls == ((called) ? 1 : 0), "the function is called once in its state and never in the other"); \
  vp_assert(calls == 0 || arg == i, "the function gets the content"); \
  vp_assert(r.HasValue() == ok && id(r) == i, "the result asked is unchanged"); vp_assert(vp_count("V") + vp_count("E") == live, "no content is left over or lost"); vp_reach("end"); } \
  vp_assert(vp_count("V") + vp_count("E") + vp_count("W") + vp_count("X") == 0, "everything is destroyed at the end");
extern "C" {
void t_get() { BEGIN
    bool t = false; try { const vp::V& v = r.Get(); vp_assert(ok, "Get of an error throws"); vp_assert(vp_val(v) == i, "Get yields the value"); } catch (const std::exception&) { t = true; } vp_assert(t == !ok, "Get throws exactly without a value");
    t = false; try { const vp::E& v = r.GetError(); vp_assert(!ok, "GetError of a value throws"); vp_assert(vp_val(v) == i, "GetError yields the error"); } catch (const std::exception&) { t = true; } vp_assert(t == ok, "GetError throws exactly without an error");
    END(false) }
void t_expect() { BEGIN
    bool t = false; try { const vp::V& v = r.Expect("msg"); vp_assert(ok, "Expect of an error throws"); vp_assert(&v == &r.Get(), "Expect yields the value"); } catch (const std::exception&) { t = true; } vp_assert(t == !ok, "Expect throws exactly without a value");
    t = false; try { const vp::E& v = r.ExpectError("msg"); vp_assert(!ok, "ExpectError of a value throws"); vp_assert(&v == &r.GetError(), "ExpectError yields the error"); } catch (const std::exception&) { t = true; } vp_assert(t == ok, "ExpectError throws exactly without an error");
    END(false) }
void t_map() { BEGIN
    auto m = r.Map(VtoW{}); vp_assert(m.HasValue() == ok, "Map keeps the state"); if (ok) { vp::W w(50); vp_assert(vp_val(m.Get()) == vp_val(w), "Map yields the function's result"); } else vp_assert(vp_val(m.GetError()) == i, "Map passes the error through");
    END(ok) }
void t_map_error() { BEGIN
    auto m = r.MapError(EtoX{}); vp_assert(m.HasValue() == ok, "MapError keeps the state"); if (!ok) { vp::X w(51); vp_assert(vp_val(m.GetError()) == vp_val(w), "MapError yields the function's result"); } else vp_assert(vp_val(m.Get()) == i, "MapError passes the value through");
    END(!ok) }
void t_and_then() { BEGIN
    R m = r.AndThen(VtoR{}); if (ok) { vp_assert(m.HasValue() == vp_bool("fok"), "AndThen yields the function's result"); vp::V v(60); vp::E e(61); vp_assert(id(m) == (m.HasValue() ? vp_val(v) : vp_val(e)), "AndThen yields the function's result"); } else { vp_assert(m.HasError() && id(m) == i, "AndThen passes the error through"); }
    END(ok) }
void t_then() { BEGIN
    R m = r.Then(VtoR{}); if (ok) { vp_assert(m.HasValue() == vp_bool("fok"), "Then yields the function's result"); vp::V v(60); vp::E e(61); vp_assert(id(m) == (m.HasValue() ? vp_val(v) : vp_val(e)), "Then yields the function's result"); } else { vp_assert(m.HasError() && id(m) == i, "Then passes the error through"); }
    END(ok) }
void t_or_else() { BEGIN
    R m = r.OrElse(EtoR{}); if (!ok) { vp_assert(m.HasValue() == vp_bool("fok"), "OrElse yields the function's result"); vp::V v(60); vp::E e(61); vp_assert(id(m) == (m.HasValue() ? vp_val(v) : vp_val(e)), "OrElse yields the function's result"); } else { vp_assert(m.HasValue() && id(m) == i, "OrElse passes the value through"); }
    END(!ok) }
void t_catch_error() { BEGIN
    R m = r.CatchError(EtoR{}); if (!ok) { vp_assert(m.HasValue() == vp_bool("fok"), "CatchError yields the function's result"); vp::V v(60); vp::E e(61); vp_assert(id(m) == (m.HasValue() ? vp_val(v) : vp_val(e)), "CatchError yields the function's result"); } else { vp_assert(m.HasValue() && id(m) == i, "CatchError passes the value through"); }
    END(!ok) }
void t_unwrap_or() { BEGIN
    vp::V d(9); int di = vp_val(d); { vp::V v = r.UnwrapOr(d); vp_assert(vp_val(v) == (ok ? i : di), "UnwrapOr yields the value, or the fallback exactly if there is none"); } vp_assert(vp_val(d) == di, "the fallback is unchanged");
    END(false) }
void t_unwrap_or_else() { BEGIN
    { vp::V v = r.UnwrapOrElse(EtoV{}); vp::V f(52); vp_assert(vp_val(v) == (ok ? i : vp_val(f)), "UnwrapOrElse yields the value, or the function's result exactly if there is none"); }
    END(!ok) }
void t_unwrap_or_default() { const int before = vp_count("V"); { const R r = make(); const bool ok = r.HasValue(); const int i = id(r);
    vp::V d(9); const vp::V& v = r.UnwrapOrDefault(d); vp_assert(&v == (ok ? &r.Get() : &d), "UnwrapOrDefault(x) yields the value, or x exactly if there is none");
    const vp::V& w = r.UnwrapOrDefault(); if (ok) vp_assert(&w == &r.Get(), "UnwrapOrDefault yields the value"); else { vp::V z; vp_assert(vp_val(w) == vp_val(z), "UnwrapOrDefault yields a default constructed value"); }
    vp_assert(r.HasValue() == ok && id(r) == i, "the result asked is unchanged"); vp_reach("end"); } (void)before; }
void t_filter() { BEGIN
    R m = r.Filter(Pred{}); bool keep = ok && vp_bool("pred"); vp_assert(m.HasValue() == keep, "Filter keeps a value exactly if the predicate holds");
    if (keep) vp_assert(id(m) == i, "Filter keeps the value"); else if (!ok) vp_assert(id(m) == i, "Filter passes the error through"); else { vp::E z; vp_assert(vp_val(m.GetError()) == vp_val(z), "a filtered value becomes the default error"); }
    END(ok) }
void t_on_error() { BEGIN
    R m = r.OnError(Evoid{}); vp_assert(m.HasValue() == ok && id(m) == i, "OnError passes the result through");
    END(!ok) }
void t_fold() { BEGIN
    { vp::W init(8); int wi = vp_val(init); { vp::W w = r.Fold(init, FoldF{}); vp::W f(54); vp_assert(vp_val(w) == (ok ? vp_val(f) : wi), "Fold combines with the value, or yields the initial value exactly if there is none"); } vp_assert(calls == 0 || arg2 == wi, "Fold passes the initial value"); vp_assert(vp_val(init) == wi, "an lvalue initial value is unchanged"); }
    END(ok) }
void t_inspect() { BEGIN
    int k = r.Inspect(InsV{}, InsE{}, 4, 5); vp_assert(k == (ok ? 70 : 71), "Inspect yields the result of the matching function"); vp_assert(calls == (ok ? 1 : 0) && calls2 == (ok ? 0 : 1), "Inspect calls exactly the matching function"); vp_assert(arg == i && arg2 == 45, "Inspect passes the content and the arguments");
    calls = 0; END(false) }
void t_customize() { BEGIN
    int k = r.Customize(Cust{}); vp_assert(k == 72, "Customize yields the function's result");
    END(true) }
}
'''


def cfg(eng, run, entry):
    drv.lib_classes(eng)
    if entry.endswith("expect"):
        nstr.install(eng); eng.UNROLL = 8
    if "or_default" in entry:
        return None
    return drv.leakcheck


def run(ctx):
    mod, res = drv.settle(ctx, "combinator", SRC, cfg)
    drv.reached(ctx, res, 16)
