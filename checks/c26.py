"""C26: big integer arithmetic follows the rules of signs."""
import drv, bigint
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the big integer operations together with the source of std::vector, for operands of every length up to the bound with arbitrary signs and digits. "
               "On every path the sign of the result is compared with the sign that follows from the operands' signs, lengths and digits by linear arithmetic over the digits; order comparison is compared with the order of the values.")
ASSUMPTIONS = ["operands of up to three digits (two for division and remainder) stand for longer ones, with samples of up to 300 digits in which one or two digits or the signs are arbitrary", "quotients are truncated towards zero and a remainder has the sign of its dividend, as for the built-in integers"]
LAW = dict(
    Add='vp_assert(r.is_negative_ == (p + q < 0), "the sign of a sum is that of the larger magnitude");',
    Subtract='vp_assert(r.is_negative_ == (p - q < 0), "the sign of a difference is that of the mathematical difference");',
    Multiply='vp_assert(r.is_negative_ == ((s != t) && p != 0 && q != 0), "a product is negative exactly if one factor is");',
    Divide='vp_assert(r.is_negative_ == (s != t && (s ? -p : p) >= (t ? -q : q)), "a non-zero quotient is negative exactly if one operand is");',
    Modulo='if (!r.digits_.empty()) vp_assert(r.is_negative_ == s, "a non-zero remainder has the sign of the dividend"); else vp_assert(!r.is_negative_, "a zero remainder is not negative");')


def body(op, sy, m, n):
    if op in ("Divide", "Modulo"):
        return "if (q != 0) { const B r = x.%s(y); %s }" % (op, LAW[op])
    return "{ const B r = x.%s(y); %s } { const B r = x %s y; %s }" % (op, LAW[op], sy, LAW[op])


SRC = bigint.HEAD + "#define SAME law\n" + bigint.LARGE + 'extern "C" {\n' + bigint.binary(body, 3)
for m, n in bigint.pairs(3):
    SRC += "void t_order_%d%d() { TWO(%d, %d) vp_assert(x.LessThan(y) == (p < q), \"less is less in value\"); vp_assert(x.GreaterThan(y) == (p > q), \"greater is greater in value\"); vp_assert((x <= y) == (p <= q) && (x >= y) == (p >= q), \"the order is the order of the values\"); SAME2(%d, %d) }\n" % ((m, n) * 3)
for m in range(4):
    SRC += "void t_abs_%d() { ONE(%d) const B r = x.Abs(); vp_assert(!r.is_negative_, \"the absolute value is not negative\"); vp_assert(mag(r) == mag(x) && r.digits_.size() == %d, \"the absolute value has the same magnitude\"); SAME1(%d) }\n" % (m, m, m, m)
    if m < 3:
        SRC += "void t_sqr_%d() { ONE(%d) vp_assert(!x.Sqr().is_negative_, \"a square is not negative\"); SAME1(%d) }\n" % (m, m, m)
        for e in range(5 if m < 2 else 3):
            SRC += "void t_pow_%d_%d() { ONE(%d) %s const B y = make(a, %d, s); vp_assert(y.Pow(%d).is_negative_ == (s && %d), \"a power is negative exactly if the base is and the exponent is odd\"); holds(y, a, %d, s); vp_reach(\"end\"); }\n" % (m, e, m, "a[0] = pick(a[0]); " + ("vp_assume(a[1] == 7);" if m > 1 else "") if m else "", m, e, e % 2, m)
SRC += bigint.large(muls=((20, 17), (70, 40)), sums=((19, 20), (40, 33), (66, 65), (300, 300)), divs=((12, 9), (20, 4)))
SRC += "}"


def run(ctx):
    mod, res = drv.settle(ctx, "signs", SRC, bigint.cfg)
    drv.reached(ctx, res, 90)
