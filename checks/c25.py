"""C25: a big integer is always in canonical form."""
import drv, bigint
from harness import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every constructor, assignment and operation of the big integer class together with the source of std::vector and std::string, for operands of every length up to the bound with arbitrary signs and digits (arbitrary characters for texts). "
               "On every path every big integer produced must consist of decimal digits without a leading zero and zero must not be negative; printing must yield exactly the sign and the digits.")
ASSUMPTIONS = ["operands of up to three digits (two for division, remainder, power and square root) and texts of up to four characters stand for longer ones, with samples of up to 300 digits in which one or two digits or the signs are arbitrary", "std::to_string writes the decimal digits of its argument"]
HEAD = bigint.HEAD + "#define SAME law\n" + bigint.LARGE + r'''
static void text(const String& r, const int* a, int m, bool s) {
  if (!m) { vp_assert(r.size() == 1 && r[0].size() == 1 && r[0].data()[0] == '0', "zero is printed as 0"); return; }
  vp_assert(r.size() == (SizeType)(m + s), "a number is printed with exactly its digits");
  if (r.size() != (SizeType)(m + s)) return;
  if (s) vp_assert(r[0].data()[0] == '-', "a negative number is printed with its sign");
  for (int i = 0; i < m; ++i) vp_assert(r[m + s - 1 - i].size() == 1 && r[m + s - 1 - i].data()[0] == (char)('0' + a[i]), "the digits are printed in order");
}
extern "C" {
'''
SRC = HEAD + bigint.binary(lambda op, sy, m, n: "try { const B r = x.%s(y); canon(r); canon(x %s y); } catch (const std::invalid_argument&) {}" % (op, sy) if op not in ("Divide", "Modulo") else "try { const B r = x %s y; canon(r); } catch (const std::invalid_argument&) {}" % sy, 3)
for m in range(4):
    SRC += "void t_abs_%d() { ONE(%d) canon(x.Abs()); SAME1(%d) }\n" % (m, m, m)
    SRC += "void t_copy_%d() { ONE(%d) B y(x); canon(y); holds(y, a, %d, s); B z; z = y; canon(z); holds(z, a, %d, s); z = z; canon(z); holds(z, a, %d, s); B w(std::move(y)); canon(w); canon(y); holds(w, a, %d, s); z = std::move(w); canon(z); canon(w); holds(z, a, %d, s); SAME1(%d) }\n" % ((m,) * 8)
    SRC += "void t_overwrite_%d() { ONE(%d) B y(\"-7\"); y = x; canon(y); holds(y, a, %d, s); B z(\"-7\"); B u(x); z = std::move(u); canon(z); canon(u); holds(z, a, %d, s); B v(\"-7\"); v = B(); canon(v); SAME1(%d) }\n" % ((m,) * 5)
    SRC += "void t_print_%d() { ONE(%d) text(x.ToString(), a, %d, s); SAME1(%d) }\n" % ((m,) * 4)
    if m <= 2:
        SRC += "void t_sqr_%d() { ONE(%d) canon(x.Sqr()); SAME1(%d) }\n" % (m, m, m)
        for e in range(5):
            SRC += "void t_pow_%d_%d() { ONE(%d) %s %s const B y = make(a, %d, s); canon(y.Pow(%d)); holds(y, a, %d, s); vp_reach(\"end\"); }\n" % (m, e, m, "a[0] = pick(a[0]);" if m else "", "vp_assume(a[1] == 9);" if m > 1 else "", m, e, m)
SRC += r'''
void t_default() { B x; canon(x); vp_assert(x.digits_.empty(), "a default number is zero"); vp_reach("end"); }
void t_int() { const int64_t v = vp_s64("v"); vp_assume(v > -1000 && v < 1000); B x{v}; canon(x); vp_assert(val(x) == v, "the number has the value of the integer"); vp_reach("end"); }
void t_uint() { const uint64_t v = vp_u64("v"); vp_assume(v < 1000); B x{v}; canon(x); vp_assert(val(x) == (long)v, "the number has the value of the integer"); vp_reach("end"); }
void t_intmin() { B x{(int64_t)INT64_MIN}; canon(x); vp_assert(x.is_negative_ && x.digits_.size() == 19 && x.digits_[0] == 8 && x.digits_[18] == 9, "the number has the value of the integer"); vp_reach("end"); }
void t_uintmax() { B x{(uint64_t)UINT64_MAX}; canon(x); vp_assert(!x.is_negative_ && x.digits_.size() == 20 && x.digits_[0] == 5 && x.digits_[19] == 1, "the number has the value of the integer"); vp_reach("end"); }
'''
for n in range(1, 5):
    SRC += r'''void t_text_%d() { static const char* const nm[] = {"c0", "c1", "c2", "c3"}; char c[5] = {0, 0, 0, 0, 0}; for (int i = 0; i < %d; ++i) { c[i] = (char)vp_u8(nm[i]); vp_assume(c[i] > 0); } try { String s(c); B x{s}; canon(x); const String k = B{c}.ToString(); vp_assert(k == x.ToString(), "equal numerals print identically"); } catch (const std::invalid_argument&) {} vp_reach("end"); }
''' % (n, n)
ROOT = HEAD + r'''
'''
for d in range(10):
    ROOT += "void t_sqrt_2_%d() { ONE(2) vp_assume(!s && a[1] == %d); a[1] = %d; a[0] = a[0] = pick(a[0]); const B y = make(a, 2, false); canon(y.Sqrt()); vp_reach(\"end\"); }\n" % (d, d, d) if d else ""
ROOT += "void t_sqrt_1() { ONE(1) vp_assume(!s); a[0] = pick(a[0]); const B y = make(a, 1, false); canon(y.Sqrt()); vp_reach(\"end\"); }\nvoid t_sqrt_0() { B y; canon(y.Sqrt()); vp_reach(\"end\"); }\n"
SRC += ROOT[len(HEAD):]
SRC += bigint.large(muls=((20, 17), (70, 40)), sums=((19, 20), (40, 33), (66, 65), (300, 300)), divs=((12, 9), (20, 4)))
SRC += r'''void t_large_print() { fill(P, 70, 4); const int a = some("a", false); P.d[3] = a; const bool s = vp_bool("s"); text(big(P, s).ToString(), P.d, 70, s); vp_reach("end"); }
''' + "}"


def run(ctx):
    mod, res = drv.settle(ctx, "canonical", SRC, bigint.cfg)
    drv.reached(ctx, res, 100)
