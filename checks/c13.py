"""C13: a character is always one valid UTF-8 sequence and converts exactly."""
import drv, nstr
from harness import *
from interp import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of the character class together with the source of std::string, for an arbitrary code point and for arbitrary byte sequences of every length up to six. Every path that yields a character must hold a well-formed UTF-8 sequence "
               "(the table of the Unicode standard, written out in the driver), every path that throws must have been offered something else; code points survive the conversion in both directions.")
ASSUMPTIONS = ["std::ostringstream collects the bytes written to it", "longer byte sequences than six are treated like those of five and six bytes"]
SRC = nstr.NSTR + r'''
#include <Caitlyn/Char>
#include <Caitlyn/String>
#include <sstream>
using namespace Caitlyn;
typedef unsigned char B;
// Unicode standard, table 3-7
static bool in(B b, int lo, int hi) { return b >= lo && b <= hi; }
static bool seq(const B* b, int n) {
  if (n == 1) return b[0] <= 0x7F;
  if (n == 2) return in(b[0], 0xC2, 0xDF) && in(b[1], 0x80, 0xBF);
  if (n == 3) return ((b[0] == 0xE0 && in(b[1], 0xA0, 0xBF)) || (in(b[0], 0xE1, 0xEC) && in(b[1], 0x80, 0xBF)) || (b[0] == 0xED && in(b[1], 0x80, 0x9F)) || (in(b[0], 0xEE, 0xEF) && in(b[1], 0x80, 0xBF))) && in(b[2], 0x80, 0xBF);
  if (n == 4) return ((b[0] == 0xF0 && in(b[1], 0x90, 0xBF)) || (in(b[0], 0xF1, 0xF3) && in(b[1], 0x80, 0xBF)) || (b[0] == 0xF4 && in(b[1], 0x80, 0x8F))) && in(b[2], 0x80, 0xBF) && in(b[3], 0x80, 0xBF);
  return false;
}
static unsigned decode(const B* b, int n) {
  return n == 1 ? b[0] : n == 2 ? (b[0] - 0xC0u) * 64 + (b[1] - 0x80u) : n == 3 ? ((b[0] - 0xE0u) * 64 + (b[1] - 0x80u)) * 64 + (b[2] - 0x80u) : (((b[0] - 0xF0u) * 64 + (b[1] - 0x80u)) * 64 + (b[2] - 0x80u)) * 64 + (b[3] - 0x80u);
}
static bool scalar(unsigned c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
static int length(unsigned c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
static void holds(const Char& x, const B* b, int n, const char*) {
  vp_assert(x.size() == (SizeType)n && x.Length() == (SizeType)n, "the character has the length of the sequence");
  if (x.size() == (SizeType)n) for (int i = 0; i <= n; ++i) vp_assert((B)x.data()[i] == (i < n ? b[i] : 0), "the character holds the sequence");
  vp_assert(!x.IsEmpty() && x.NotEmpty(), "the character is not empty");
}
static void encoded(const Char& x, unsigned c) {
  const int n = length(c);
  vp_assert(x.size() == (SizeType)n, "the character has the length of its code point");
  if (x.size() == (SizeType)n) { B b[4]; for (int i = 0; i < n; ++i) b[i] = (B)x.data()[i]; vp_assert(seq(b, n), "the character is a well-formed sequence"); vp_assert(decode(b, n) == c, "the sequence denotes the code point"); }
}
static void bytes(B* b, int n, bool zero) { static const char* nm[] = {"b0", "b1", "b2", "b3", "b4", "b5"}; for (int i = 0; i < 6; ++i) b[i] = 0; b[6] = b[7] = 0; for (int i = 0; i < n; ++i) { b[i] = vp_u8(nm[i]); if (!zero) vp_assume(b[i] != 0); } }
static const char* tight(const B* b, int n) { char* p = new char[n + 1]; for (int i = 0; i <= n; ++i) p[i] = (char)b[i]; return p; }
static bool text(const B* b, int n) { int p = 0; while (p < n) { if (seq(b + p, 1)) p += 1; else if (p + 2 <= n && seq(b + p, 2)) p += 2; else if (p + 3 <= n && seq(b + p, 3)) p += 3; else if (p + 4 <= n && seq(b + p, 4)) p += 4; else return false; } return true; }
static void spells(const String& s, const B* b, int n) { int k = 0; for (SizeType i = 0; i < s.size(); ++i) for (SizeType j = 0; j < s[i].size(); ++j) { if (k < n) vp_assert((B)s[i].data()[j] == b[k], "the string holds the bytes in order"); ++k; } vp_assert(k == n, "the string holds all the bytes"); }
#define TEXT(MAKE, N) { bool ok = false; try { MAKE; ok = true; spells(x, b, N); for (SizeType i = 0; i < x.size(); ++i) { const int l = (int)x[i].size(); vp_assert(l >= 1 && l <= 4 && seq((const B*)x[i].data(), l), "every character of a string is one valid sequence"); } } catch (const std::exception&) {} vp_assert(ok == text(b, N), "exactly well-formed text is accepted"); vp_reach("end"); }
#define TRY(MAKE, HOLDS, OK, BAD) { bool ok = false; try { MAKE; ok = true; HOLDS; } catch (const std::invalid_argument&) {} vp_assert(!ok || (OK), "only a valid sequence becomes a character"); vp_assert(ok || !(OK), "every valid sequence is accepted"); BAD; vp_reach("end"); }
extern "C" {
void t_codepoint() { unsigned c = vp_u32("c"); TRY(Char x{(CodePoint)c}, { encoded(x, c); vp_assert(x.GetCodePoint() == c, "the code point is read back"); }, scalar(c), ) }
void t_assign_codepoint() { unsigned c = vp_u32("c"); Char x("k"); TRY(x = (CodePoint)c, { encoded(x, c); vp_assert(x.GetCodePoint() == c, "the code point is read back"); }, scalar(c), if (!ok) vp_assert(x.size() == 1 && x.data()[0] == 'k', "a failed assignment leaves the character")) }
void t_byte() { B b[8]; bytes(b, 1, true); TRY(Char x{(char)b[0]}, holds(x, b, 1, ""); vp_assert(x.GetCodePoint() == decode(b, 1), "the code point of the sequence"), seq(b, 1), ) }
void t_assign_byte() { B b[8]; bytes(b, 1, true); Char x("k"); TRY(x = (char)b[0], holds(x, b, 1, ""), seq(b, 1), if (!ok) vp_assert(x.size() == 1 && x.data()[0] == 'k', "a failed assignment leaves the character")) }
void t_empty() { Char x; vp_assert(x.IsEmpty() && !x.NotEmpty() && x.size() == 0, "a default character is empty"); vp_reach("end"); }
void t_copy() { unsigned c = vp_u32("c"); vp_assume(scalar(c)); Char x{(CodePoint)c}; Char y(x); encoded(y, c); Char z; z = y; encoded(z, c); encoded(x, c); vp_reach("end"); }
'''
N_ = ""
for n in range(0, 7):
    N_ += 'void t_cstr_%d() { B b[8]; bytes(b, %d, false); TRY(Char x{tight(b, %d)}, holds(x, b, %d, ""); vp_assert(x.GetCodePoint() == decode(b, %d), "the code point of the sequence"), %d && seq(b, %d), ) }\n' % ((n,) * 7)
    N_ += 'void t_string_%d() { B b[8]; bytes(b, %d, true); std::string s((const char*)b, %d); TRY(Char x{s}, holds(x, b, %d, ""), %d && seq(b, %d), ) }\n' % ((n,) * 6)
    N_ += 'void t_assign_cstr_%d() { B b[8]; bytes(b, %d, false); Char x("k"); TRY(x = tight(b, %d), holds(x, b, %d, ""), %d && seq(b, %d), if (!ok) vp_assert(x.size() == 1 && x.data()[0] == \'k\', "a failed assignment leaves the character")) }\n' % ((n,) * 6)
    N_ += 'void t_assign_string_%d() { B b[8]; bytes(b, %d, true); std::string s((const char*)b, %d); Char x("k"); TRY(x = s, holds(x, b, %d, ""), %d && seq(b, %d), if (!ok) vp_assert(x.size() == 1 && x.data()[0] == \'k\', "a failed assignment leaves the character")) }\n' % ((n,) * 6)
    N_ += 'void t_literal_%d() { B b[8]; bytes(b, %d, false); TRY(Char x = operator""_char(tight(b, %d), %d), holds(x, b, %d, ""), %d && seq(b, %d), ) }\n' % ((n,) * 7)
    if n <= 4:
        N_ += 'void t_text_%d() { B b[8]; bytes(b, %d, false); TEXT(String x(tight(b, %d)), %d) }\n' % ((n,) * 4)
        N_ += 'void t_texts_%d() { B b[8]; bytes(b, %d, false); std::string s((const char*)b, %d); TEXT(String x(s), %d) }\n' % ((n,) * 4)
        N_ += 'void t_append_%d() { B b[8]; bytes(b, %d, false); TEXT(String x; x.Append(tight(b, %d)), %d) }\n' % ((n,) * 4)
SRC += N_ + r'''
}
'''


def cfg(eng, run, entry):
    nstr.install(eng)
    eng.UNROLL = 7


def run(ctx):
    mod, res = drv.settle(ctx, "utf8", SRC, cfg)
    drv.reached(ctx, res, 56)
