"""C27: undefined arithmetic and invalid numerals are rejected."""
import drv, bigint
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the constructors from texts for arbitrary characters (every length up to five, Unicode included), and of division, remainder, power and square root for arbitrary operands up to the bound. "
               "On every path an exception must be thrown exactly when the text is not a numeral or the operation is undefined, and an accepted numeral must have exactly its sign and digits.")
ASSUMPTIONS = ["texts of up to five characters and operands of up to two digits stand for longer ones, with samples of 20 to 300 characters of which one is arbitrary"]
SRC = bigint.HEAD + r'''
static bool digit(int c) { return c >= '0' && c <= '9'; }
static bool numeral(const unsigned* c, int n) { const int k = n && (c[0] == '-' || c[0] == '+'); if (k == n) return false; for (int i = k; i < n; ++i) if (!digit(c[i])) return false; return true; }
static long value(const unsigned* c, int n) { long v = 0; for (int i = (c[0] == '-' || c[0] == '+'); i < n; ++i) v = v * 10 + ((long)c[i] - '0'); return c[0] == '-' ? -v : v; }
static const char* const C_[] = {"c0", "c1", "c2", "c3", "c4"};
#define NUM(MAKE, n) { bool ok = false; try { MAKE; ok = true; if (numeral(c, n)) vp_assert(val(x) == value(c, n), "a numeral has its value"); } catch (const std::exception&) {} vp_assert(ok == numeral(c, n), "exactly numerals are accepted"); vp_reach("end"); }
#define ARB(n) unsigned c[6] = {0, 0, 0, 0, 0, 0}; char b[6] = {0, 0, 0, 0, 0, 0}; for (int i = 0; i < n; ++i) { c[i] = vp_u8(C_[i]); vp_assume(c[i] > 0 && c[i] < 0x80); b[i] = (char)c[i]; }
#define THROWS(COND, ...) { bool ok = false; try { __VA_ARGS__; ok = true; } catch (const std::exception&) {} vp_assert(ok == !(COND), "exactly undefined operations throw"); }
extern "C" {
'''
for n in range(6):
    SRC += "void t_string_%d() { ARB(%d) const String s(b); NUM(const B x{s}, %d) vp_assert(s.size() == %d, \"the text is unchanged\"); }\n" % (n, n, n, n)
    if n < 4:
        SRC += "void t_cstr_%d() { ARB(%d) NUM(const B x{(const char*)b}, %d) }\n" % (n, n, n)
        SRC += "void t_literal_%d() { ARB(%d) NUM(const B x = operator\"\"_bigint(b, %d), %d) }\n" % (n, n, n, n)
        SRC += "void t_assign_%d() { ARB(%d) B x(\"5\"); NUM(x = B{(const char*)b}, %d) }\n" % (n, n, n)
for n in range(1, 4):
    SRC += r'''void t_unicode_%d() { unsigned c[4] = {'1', '2', '3', 0}; String s; for (int i = 0; i < %d; ++i) { c[i] = vp_u32(C_[i]); vp_assume(c[i] < 0x110000 && !(c[i] >= 0xD800 && c[i] < 0xE000)); if (i != %d) vp_assume(c[i] > 0 && c[i] < 0x80); else vp_assume(c[i] >= 0x80); s.PushBack(Char{(CodePoint)c[i]}); } NUM(const B x{s}, %d) }
''' % (n, n, n - 1, n)
for op in ("Divide", "Modulo"):
    sy = "/" if op == "Divide" else "%"
    for m, n in bigint.pairs(2):
        if m == 2 and n:
            for k, lim in enumerate(("!s && !t && a[1] == 1", "!s && t && a[1] == 9", "s && !t && a[1] == 5", "s && t && a[1] == 3")):
                SRC += "void t_%s_%d%d_%d() { TWO(%d, %d) vp_assume(%s); THROWS(q == 0, x.%s(y)) SAME2(%d, %d) }\n" % (op.lower(), m, n, k, m, n, lim, op, m, n)
        else:
            SRC += "void t_%s_%d%d() { TWO(%d, %d) THROWS(q == 0, x.%s(y)) THROWS(q == 0, x %s y) SAME2(%d, %d) }\n" % (op.lower(), m, n, m, n, op, sy, m, n)
for m in range(3):
    SRC += "void t_negpow_%d() { ONE(%d) const int e = vp_s32(\"e\"); vp_assume(e < 0); THROWS(true, x.Pow(e)) SAME1(%d) }\n" % (m, m, m)
    for e in range(4):
        SRC += "void t_pow_%d_%d() { ONE(%d) %s const B y = make(a, %d, s); THROWS(false, y.Pow(%d)) vp_reach(\"end\"); }\n" % (m, e, m, "a[0] = pick(a[0]);" + ("vp_assume(a[1] == 9);" if m == 2 else "") if m else "", m, e)
    SRC += "void t_negsqrt_%d() { ONE(%d) vp_assume(s); THROWS(true, x.Sqrt()) SAME1(%d) }\n" % (m, m, m) if m else ""
    SRC += "void t_sqrt_%d() { ONE(%d) vp_assume(!s); %s const B y = make(a, %d, false); THROWS(false, y.Sqrt()) vp_reach(\"end\"); }\n" % (m, m, ("a[0] = pick(a[0]);" + ("vp_assume(a[1] == 9);" if m == 2 else "") if m else ""), m)
    SRC += "void t_defined_%d() { ONE(%d) THROWS(false, x.Abs(), x.ToString(), x.Sqr(), x.Add(x), x.Subtract(x), x.Multiply(x), x.Size()) SAME1(%d) }\n" % (m, m, m)
for m, n in bigint.pairs(2):
    SRC += "void t_total_%d%d() { TWO(%d, %d) THROWS(false, x + y, x - y, x * y, x.LessThan(y), x.Equal(y)) SAME2(%d, %d) }\n" % ((m, n) * 3)
for n in (20, 40, 70, 300):
    SRC += r'''void t_large_text_%(n)d() { static char b[%(n)d + 1]; unsigned k = 5; for (int i = 0; i < %(n)d; ++i) { k = k * 75u + 74u; k %%= 65537u; b[i] = (char)('0' + k / 7u %% 10u); } b[0] = '4'; b[%(n)d / 2] = (char)vp_u8("c"); const int c = b[%(n)d / 2]; vp_assume(c > 0 && c < 128); bool ok = false; try { const B x{String(b)}; ok = true; vp_assert(!x.is_negative_ && x.digits_.size() == %(n)d, "a numeral has its digits"); for (int i = 0; i < %(n)d; ++i) vp_assert(x.digits_[%(n)d - 1 - i] == b[i] - '0', "a numeral has its digits"); } catch (const std::exception&) {} vp_assert(ok == digit(c), "exactly numerals are accepted"); vp_reach("end"); }
''' % {"n": n}
SRC += "}"


def run(ctx):
    mod, res = drv.settle(ctx, "rejection", SRC, bigint.cfg)
    drv.reached(ctx, res, 70)
