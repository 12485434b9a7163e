"""C31: mixed-sign integer comparisons are mathematically exact."""
import drv
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the six comparison helpers, instantiated for every ordered pair of built-in integer types, on two arbitrary operands: "
               "on every abstract path the answer is proved equal to the comparison of the operands widened to a type that holds both (128 bits).")
ASSUMPTIONS = ["the integer types of the analysed target (x86-64)"]
TYPES = [("signed char", "s8"), ("unsigned char", "u8"), ("char", "s8"), ("short", "s16"), ("unsigned short", "u16"), ("int", "s32"), ("unsigned", "u32"),
         ("long", "s64"), ("unsigned long", "u64"), ("long long", "s64"), ("unsigned long long", "u64")]
SRC = r'''
#include <Caitlyn/Utility>
using namespace Caitlyn;
template <typename T, typename U> static void chk(T t, U u) {
    const __int128 a = t, b = u;
    const T t0 = t; const U u0 = u; (void)t0; (void)u0;
    vp_assert(cmp_eq(t, u) == (a == b), "cmp_eq compares the values");
    vp_assert(cmp_ne(t, u) == (a != b), "cmp_ne compares the values");
    vp_assert(cmp_less(t, u) == (a < b), "cmp_less compares the values");
    vp_assert(cmp_greater(t, u) == (a > b), "cmp_greater compares the values");
    vp_assert(cmp_le(t, u) == (a <= b), "cmp_le compares the values");
    vp_assert(cmp_ge(t, u) == (a >= b), "cmp_ge compares the values");
    vp_reach("end");
}
extern "C" {
'''


def run(ctx):
    src = SRC
    for i, (t, ti) in enumerate(TYPES):
        for j, (u, ui) in enumerate(TYPES):
            src += 'void t_%s__%s() { chk<%s, %s>(vp_%s("t"), vp_%s("u")); }\n' % (t.replace(" ", "_"), u.replace(" ", "_"), t, u, ti, ui)
    src += "}\n"
    mod, res = drv.settle(ctx, "compare", src)
    drv.reached(ctx, res, 121)
