"""C90: big integer results are digit-exact."""
import drv, bigint
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the big integer operations together with the source of std::vector, with arbitrary digits and signs for every combination of lengths up to the bound. "
               "The digits of the result are linear forms over the digits of the operands on every path; their weighted sum must equal the mathematical result (for division and remainder: dividend = quotient * divisor + remainder with a remainder smaller than the divisor; "
               "for products and powers the digits of one operand, for roots those of the operand, are distinguished by cases).")
ASSUMPTIONS = ["operands of up to four digits (sum, difference), three (product, remainder) or two (root) stand for longer ones, with samples of up to 300 digits (quotients: 36) in which one or two digits or the signs are arbitrary", "quotients are truncated towards zero"]
DEEP = bigint.DEEP
SRC = bigint.HEAD + bigint.LARGE + r'''
static long absl(long v) { return v < 0 ? -v : v; }
extern "C" {
'''
for m, n in bigint.pairs(4):
    for op, sy, nm in (("Add", "+", "sum"), ("Subtract", "-", "difference")):
        SRC += "void t_%s_%d%d() { TWO(%d, %d) vp_assert(val(x %s y) == p %s q, \"the %s has the digits of the mathematical result\"); SAME2(%d, %d) }\n" % (op.lower(), m, n, m, n, sy, sy, nm, m, n)
for m, n in bigint.pairs(3):
    if m * n == 9 and not DEEP:
        continue
    k, l = (m, "a") if m <= n else (n, "b")
    pick = "".join("%s[%d] = pick(%s[%d]); " % (l, i, l, i) for i in range(k))
    if m * n == 9:
        pick = "vp_assume(a[2] == 9); a[2] = 9; vp_assume(a[1] == 0); a[1] = 0; a[0] = pick(a[0]); "
    SRC += "void t_multiply_%d%d() { TWO(%d, %d) %s const B u = make(a, %d, s), v = make(b, %d, t); vp_assert(val(u * v) == num(a, %d, s) * num(b, %d, t), \"the product has the digits of the mathematical result\"); vp_reach(\"end\"); }\n" % (m, n, m, n, pick, m, n, m, n)
DIV = r'''{ const B d = x / y; const long v = val(d); vp_assert(absl(p) - absl(v) * absl(q) >= 0 && absl(p) - absl(v) * absl(q) < absl(q), "the quotient has the digits of the mathematical result"); vp_assert(v == 0 || (v < 0) == (s != t), "the quotient has the digits of the mathematical result"); }'''
MOD = r'''{ const B d = x / y; const B r = x % y; const long v = val(d), w = val(r); vp_assert(absl(w) < absl(q), "the remainder is smaller than the divisor"); vp_assert(w == 0 || (w < 0) == s, "the remainder has the sign of the dividend"); vp_assert(w == p - v * q, "the remainder has the digits of the mathematical result"); }'''


def divs(m, n, tag, cond, setb, mod=MOD):
    return "".join("void t_%s_%s() { TWO(%d, %d) vp_assume(%s); %s %s SAME2(%d, %d) }\n" % (nm, tag, m, n, cond, setb, code, m, n) for nm, code in (("divide", DIV), ("modulo", mod)))


for m, n in ((0, 1), (0, 2), (1, 1), (1, 2)):
    SRC += divs(m, n, "%d%d" % (m, n), "true", "")
for k in range(1, 10):
    SRC += divs(2, 1, "21_%d" % k, "b[0] == %d && %s && %s" % (k, "s" if k % 2 else "!s", "t" if k % 4 > 1 else "!t"), "")
    if DEEP or k in (1, 3, 9):
        SRC += divs(2, 2, "22_%d" % k, "a[1] == %d && %s && %s" % (k, "s" if k % 2 else "!s", "t" if k % 4 > 1 else "!t"), "")
for d1, d0 in (((0, 7), (1, 3), (9, 7)) if not DEEP else ((0, 7), (0, 9), (1, 0), (1, 3), (5, 0), (9, 7))):
    n = 2 if d1 else 1
    for top in (1, 9) if not DEEP else range(1, 10):
        SRC += divs(3, n, "3%d_%d%d" % (top, d1, d0), "a[2] == %d && %s b[0] == %d && !s && !t" % (top, "b[1] == %d &&" % d1 if d1 else "", d0), "", "{ const B r = x %% y; const long w = val(r); vp_assert(w >= 0 && w < %d, \"the remainder is smaller than the divisor\"); vp_assert((p - w) %% %d == 0, \"the remainder has the digits of the mathematical result\"); }" % (d1 * 10 + d0, d1 * 10 + d0))
for m in range(3):
    for e in range(5 if m < 2 else 4):
        if m == 2 and not DEEP and e == 3:
            continue
        pick = "".join("a[%d] = pick(a[%d]); " % (i, i) for i in range(m))
        SRC += "void t_pow_%d_%d() { ONE(%d) %s const B y = make(a, %d, s); const long v = num(a, %d, s); vp_assert(val(y.Pow(%d)) == %s, \"the power has the digits of the mathematical result\"); vp_reach(\"end\"); }\n" % (m, e, m, pick, m, m, e, " * ".join(["1"] + ["v"] * e))
    SRC += "void t_sqr_%d() { ONE(%d) %s const B y = make(a, %d, s); const long v = num(a, %d, s); vp_assert(val(y.Sqr()) == v * v, \"the square has the digits of the mathematical result\"); vp_reach(\"end\"); }\n" % (m, m, pick, m, m)
ROOT = "const long v = num(a, %d, false); const long w = val(y.Sqrt()); vp_assert(w >= 0 && w * w <= v && v < (w + 1) * (w + 1), \"the square root is the largest number whose square is not larger\"); vp_reach(\"end\"); }\n"
SRC += "void t_sqrt_0() { int a[1]; const B y; " + ROOT % 0 + "void t_sqrt_1() { ONE(1) vp_assume(!s); a[0] = pick(a[0]); const B y = make(a, 1, false); " + ROOT % 1
for d in range(1, 10):
    SRC += "void t_sqrt_2_%d() { ONE(2) vp_assume(!s && a[1] == %d); a[1] = %d; a[0] = pick(a[0]); const B y = make(a, 2, false); " % (d, d, d) + ROOT % 2
SRC += bigint.large()
SRC += "}"


def run(ctx):
    mod, res = drv.settle(ctx, "digits", SRC, bigint.cfg)
    drv.reached(ctx, res, 90)
