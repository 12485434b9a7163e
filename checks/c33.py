"""C33: random numbers are drawn from exactly the requested range."""
import re
import drv
from interp import *
from dom import sub, addc, scale, const, var
import ir
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every random generator with arbitrary bounds (minimum not above maximum). The distributions of the standard library are modelled by their contract: "
               "an integer distribution returns an arbitrary value between the two parameters it holds when it is asked. On every path the result is proved to lie between the caller's bounds and both bounds "
               "are shown to be attainable; for floating types the parameters must be the caller's bounds, of the requested type, in order. For the boolean generator the accepted probabilities are compared with 0 to 1.")
ASSUMPTIONS = ["the distributions of the standard library honour their contract"]
INTS = [("short", "s16"), ("unsigned short", "u16"), ("int", "s32"), ("unsigned", "u32"), ("long", "s64"), ("unsigned long", "u64")]
FLTS = [("float", "f32"), ("double", "f64"), ("long double", "f80")]
SRC = r'''
#include <Caitlyn/Utility>
#include <stdexcept>
using namespace Caitlyn;
extern "C" { void vp_drawn(int, const void*, const void*, const void*); void vp_bern(bool, const void*); }
template <typename T> static void ints(T lo, T hi, T lo0, T hi0) {
    vp_assume(lo0 <= hi0); (void)Random<T>(lo0, hi0);       // an earlier call with other bounds
    vp_assume(lo <= hi);
    const T r = Random<T>(lo, hi);
    vp_assert(r >= lo, "no value below the lower bound is returned");
    vp_assert(r <= hi, "no value above the upper bound is returned");
    vp_drawn(0, &r, &lo, &hi);
    vp_reach("end");
}
template <typename T> static void flts(T lo, T hi, T lo0, T hi0) {
    vp_assume(lo0 <= hi0); (void)Random<T>(lo0, hi0);
    vp_assume(lo <= hi);
    const T r = Random<T>(lo, hi);
    vp_drawn(1, &r, &lo, &hi);
    vp_reach("end");
}
extern "C" {
void t_boolean() {
    const double p = vp_f64("p"); bool threw = false, r = false;
    try { (void)RandomBoolean(vp_f64("p0")); } catch (const std::exception&) {}
    try { r = RandomBoolean(p); } catch (const std::exception&) { threw = true; }
    const bool valid = p >= 0.0 && p <= 1.0;
    if (valid) vp_assert(!threw, "a probability from zero to one is accepted"); else vp_assert(threw, "anything else is rejected with an exception");
    if (!threw) { vp_bern(r, &p); }
    vp_reach("end");
}
void t_boolean_default() { bool threw = false, r = false; try { r = RandomBoolean(); } catch (...) { threw = true; } vp_assert(!threw, "the default probability is accepted"); const double half = 0.5; if (!threw) vp_bern(r, &half); vp_reach("end"); }
'''


def cfg(eng, run, entry):
    def nop(e, st, a, inst, f):
        return ret(st, a[0] if a else U)
    eng.hook(r"^std::mersenne_twister_engine<.*::(mersenne_twister_engine|seed|discard)(<.*>)?\(", nop)
    eng.hook(r"^std::(linear_congruential_engine|random_device|seed_seq).*::~?(linear_congruential_engine|random_device|seed_seq|seed)(<.*>)?\(", nop)

    def anynum(e, st, a, inst, f):
        t = e.mod.res(f.ret)
        return ret(st, e.sym(t.a, "any", signed=False)) if t.k == "int" else None
    eng.hook(r"^std::(chrono::_V2::(steady|system)_clock::now|random_device::operator\(\))\(", anynum)
    eng.hook(r"^std::(mersenne_twister_engine|linear_congruential_engine)<.*>::operator\(\)\(\)", anynum)
    SZ = {"short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}

    def draw_int(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        m = re.search(r"std::uniform_int_distribution<([\w ]+)>::operator\(\)<", d)
        if not m or len(a) != 3:
            return None
        n = SZ[m.group(1)]
        w = 8 * n
        sg = "unsigned" not in m.group(1)
        outs = []
        for s, lo in e.load(st, a[2], f.ret):
            for s1, hi in e.load(s, e.padd(a[2], const(n)), f.ret):
                for s2, A in e.norm(s1, e.tonum(s1, lo)[0][1], sg):
                    for s3, B in e.norm(s2, e.tonum(s2, hi)[0][1], sg):
                        bad = e.ge(s3.copy(), addc(sub(A, B), -1))
                        if bad is not None:
                            e.fault(bad, "range", "asks a uniform distribution with its bounds in the wrong order")
                        s4 = e.ge(s3.copy(), sub(B, A))
                        if s4 is None:
                            continue
                        k = e.fresh(w, "drawn", signed=sg)
                        s4 = e.ge(s4, sub(var(k), A))
                        s4 = e.ge(s4, sub(B, var(k))) if s4 is not None else None
                        if s4 is not None:
                            s4.g["draws"] = s4.g.get("draws", ()) + (("n", w, 0, ((k, 1),)),)
                            outs += ret(s4, ("n", w, 0, ((k, 1),)))
        return outs
    eng.hook(r".*std::uniform_int_distribution<[\w ]+>::operator\(\)<", draw_int)

    def draw_real(e, st, a, inst, f):
        d = e.mod.dem(f.name)
        if len(a) != 3:
            return None
        m = re.search(r"std::uniform_real_distribution<([\w ]+)>::operator\(\)<", d)
        n = {"float": 4, "double": 8, "long double": 16}[m.group(1)]
        (s, lo), = e.load(st, a[2], f.ret)
        (s, hi), = e.load(s, e.padd(a[2], const(n)), f.ret)
        v = ("f", ("x", "drawn", e.fresh(8, "drawn")))
        s.g["draws"] = s.g.get("draws", ()) + (("real", v, lo, hi, m.group(1)),)
        return ret(s, v)
    eng.hook(r".*std::uniform_real_distribution<[\w ]+>::operator\(\)<", draw_real)

    def bern(e, st, a, inst, f):
        if len(a) != 3:
            return None
        (s, p), = e.load(st, a[2], ir.mk("float", "double"))
        v = ("c", ("sb", ("drawn", e.fresh(8, "drawn"))))
        s.g["draws"] = s.g.get("draws", ()) + (("bern", v, p),)
        return ret(s, v)
    eng.hook(r".*std::bernoulli_distribution::operator\(\)<", bern)

    def drawn(e, st, a, inst, f):
        fl = a[0][2]
        if not fl:
            w = 8 * st.mem[a[1][1]].size[0]
            cells = [st.mem[p[1]].cells[p[2]][1] for p in a[1:4]]
            r, lo, hi = [e.tonum(st, c)[0][1] for c in cells]
            for nm, b in (("lower", lo), ("upper", hi)):
                ok = False
                for s in e.assume(st.copy(), ("cmp", "eq", r, b), True):
                    ok = True
                msg = "the %s bound itself can be drawn" % nm
                if not ok:
                    e.fault(st.copy(), "assert", msg)
                else:
                    run.ok[msg] = run.ok.get(msg, 0) + 1
            return ret(st)
        r, lo, hi = [st.mem[p[1]].cells[p[2]][1] for p in a[1:4]]
        ds = st.g.get("draws", ())
        msg = "the result is drawn from a uniform distribution over the caller's bounds, in order and unchanged"
        for d in ds:
            if d[0] == "real" and d[1] == r:
                if d[2] == lo and d[3] == hi:
                    run.ok[msg] = run.ok.get(msg, 0) + 1
                else:
                    e.fault(st.copy(), "assert", msg)
                return ret(st)
        if r in (lo, hi) or not ds:
            e.fault(st.copy(), "assert", msg)
            return ret(st)
        run.und.append((msg, "Random", "the result is computed from what was drawn"))
        return ret(st)
    eng.rt["vp_drawn"] = drawn

    def vbern(e, st, a, inst, f):
        p = st.mem[a[1][1]].cells[a[1][2]][1]
        ds = st.g.get("draws", ())
        msg = "the boolean is drawn with the given probability"
        outs = []
        for s, t in e.split(st, e.cond(a[0])):
            d = [x for x in ds if x[0] == "bern" and x[2] == p]
            if not d:
                if ds and ds[-1][0] == "bern" and ds[-1][2][0] == "f" and ds[-1][2][1][0] == "k":
                    e.fault(s.copy(), "assert", msg)
                else:
                    run.und.append((msg, "RandomBoolean", "drawn in another way"))
            else:
                v = s.bools.get(d[-1][1][1][1])
                if v is t:
                    run.ok[msg] = run.ok.get(msg, 0) + 1
                elif v is not None:
                    e.fault(s.copy(), "assert", msg)
                else:
                    run.und.append((msg, "RandomBoolean", "drawn in another way"))
            outs += ret(s)
        return outs
    eng.rt["vp_bern"] = vbern


def run(ctx):
    src = SRC
    for t, v in INTS:
        src += 'void t_%s() { ints<%s>(vp_%s("lo"), vp_%s("hi"), vp_%s("lo0"), vp_%s("hi0")); }\n' % (t.replace(" ", "_"), t, v, v, v, v)
    for t, v in FLTS:
        src += 'void t_%s() { flts<%s>(vp_%s("lo"), vp_%s("hi"), vp_%s("lo0"), vp_%s("hi0")); }\n' % (t.replace(" ", "_"), t, v, v, v, v)
    mod, res = drv.settle(ctx, "draw", src + "}\n", cfg)
    drv.reached(ctx, res, 11)
