"""C16: relational operators are coherent."""
import drv, cstr, text, nstr
from harness import *
from interp import *
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every comparison operator on pairs of operands: characters (all pairs of code points, with std::string analysed from its source), strings and C strings of arbitrary characters, "
               "big integers of every length up to three digits with arbitrary signs and digits, and smart pointers that own or watch the same, different or no objects. On every path the six operators must agree with each other and equality with the identity of the contents.")
ASSUMPTIONS = ["strings and big integers of up to three elements stand for longer ones", "std::vector, std::string and the memory functions behave as the C++ standard says (vector and string are analysed from their source)"]
HEAD = r'''
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <type_traits>
#include <utility>
'''
LAWS = r'''
static bool scalar(unsigned c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
template <class A, class B> static void eqlaw(const A& a, const B& b, bool same) {
  const bool e = a == b, n = a != b;
  vp_assert(e == same, "equality holds exactly for equal content");
  vp_assert(n == !e, "inequality is the negation of equality");
}
template <class A, class B> static void laws(const A& a, const B& b, bool same) {
  eqlaw(a, b, same);
  const bool l = a < b, g = a > b, le = a <= b, ge = a >= b;
  vp_assert((int)l + (int)g + (int)same == 1, "exactly one of less, equal and greater holds");
  vp_assert(le == (l || same), "less-or-equal is less or equal");
  vp_assert(ge == (g || same), "greater-or-equal is greater or equal");
}
template <class A> static void both(const A& a, const A& b, bool same) {
  laws(a, b, same); laws(b, a, same);
  vp_assert((a < b) == (b > a), "less in one order is greater in the other");
  laws(a, a, true);
}
'''
CHARS = nstr.NSTR + HEAD + r'''
#define private public
#include <Caitlyn/Char>
#undef private
using namespace Caitlyn;
''' + LAWS + r'''
typedef unsigned char B;
static Char make(const B* b, int n) { Char x; x.data_ = std::string((const char*)b, n); return x; }
static void arb(B* b, const char* const* nm, int n) { for (int i = 0; i < n; ++i) { b[i] = vp_u8(nm[i]); if (n > 1) vp_assume(b[i] >= 0x80); else vp_assume(b[i] < 0x80); } }
static bool equal(const B* a, int m, const B* b, int n) { if (m != n) return false; for (int i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static void holds(const Char& x, const B* b, int n) { vp_assert(x.size() == (SizeType)n, "comparing leaves the operands"); for (int i = 0; i < n; ++i) vp_assert((B)x.data()[i] == b[i], "comparing leaves the operands"); }
static const char* const A_[] = {"a0", "a1", "a2", "a3"}; static const char* const B_[] = {"b0", "b1", "b2", "b3"};
#define CHR(m, n) { B a[4], b[4]; arb(a, A_, m); arb(b, B_, n); const Char x = make(a, m), y = make(b, n); both(x, y, equal(a, m, b, n)); holds(x, a, m); holds(y, b, n); vp_reach("end"); }
extern "C" {
'''
for m in range(5):
    for n in range(m, 5):
        CHARS += "void t_char_%d%d() CHR(%d, %d)\n" % (m, n, m, n)
CHARS += "}\n"
STRS = HEAD + r'''
#include <Caitlyn/String>
using namespace Caitlyn;
''' + LAWS + r'''
static String make(const unsigned* c, int n) { String s; for (int i = 0; i < n; ++i) s.PushBack(Char{(CodePoint)c[i]}); return s; }
static bool equal(const unsigned* a, int m, const unsigned* b, int n) { if (m != n) return false; for (int i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static void holds(const String& s, const unsigned* c, int n) { vp_assert(s.size() == (SizeType)n, "comparing leaves the operands"); for (int i = 0; i < n; ++i) vp_assert(s[i].GetCodePoint() == c[i], "comparing leaves the operands"); }
static void arb(unsigned* c, const char* const* nm, int n, unsigned lim) { for (int i = 0; i < n; ++i) { c[i] = vp_u32(nm[i]); vp_assume(c[i] > 0 && c[i] < lim && scalar(c[i])); } }
static const char* const A_[] = {"a0", "a1", "a2"}; static const char* const B_[] = {"b0", "b1", "b2"};
#define STR(m, n) { unsigned a[3], b[3]; arb(a, A_, m, 0x110000); arb(b, B_, n, 0x110000); const String x = make(a, m), y = make(b, n); both(x, y, equal(a, m, b, n)); holds(x, a, m); holds(y, b, n); vp_reach("end"); }
extern "C" {
'''
for m in range(4):
    for n in range(4):
        if m <= n:
            STRS += "void t_str_%d%d() STR(%d, %d)\n" % (m, n, m, n)
STRS += "}\n"
CSTRS = nstr.NSTR + HEAD + r'''
#include <Caitlyn/String>
using namespace Caitlyn;
''' + LAWS + r'''
typedef unsigned char B;
static void arb(B* b, const char* const* nm, int n) { for (int i = 0; i < n; ++i) { b[i] = vp_u8(nm[i]); vp_assume(b[i] > 0 && b[i] < 0x80); } }
static bool equal(const B* a, int m, const B* b, int n) { if (m != n) return false; for (int i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static const char* const A_[] = {"a0", "a1", "a2"}; static const char* const B_[] = {"b0", "b1", "b2"};
#define CSTR(m, n) { B a[3], b[3]; arb(a, A_, m); arb(b, B_, n); String x; for (int i = 0; i < m; ++i) x.PushBack(Char{(char)a[i]}); char p[n + 1]; for (int i = 0; i < n; ++i) p[i] = (char)b[i]; p[n] = 0; laws(x, (const char*)p, equal(a, m, b, n)); \
  vp_assert(x.size() == m, "comparing leaves the operands"); for (int i = 0; i < m; ++i) vp_assert((B)x[i].data()[0] == a[i], "comparing leaves the operands"); vp_reach("end"); }
extern "C" {
'''
for m in range(4):
    for n in range(4):
        CSTRS += "void t_cstr_%d%d() CSTR(%d, %d)\n" % (m, n, m, n)
CSTRS += "}\n"
BIG = HEAD + r'''
#include <Caitlyn/String>
#define private public
#include <Caitlyn/Numeric>
#undef private
using namespace Caitlyn;
''' + LAWS + r'''
static BigInteger make(const int* d, int n, bool neg) { BigInteger x; for (int i = 0; i < n; ++i) x.digits_.push_back(d[i]); x.is_negative_ = neg; return x; }
static bool equal(const int* a, int m, bool s, const int* b, int n, bool t) { if (m != n || s != t) return false; for (int i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static void holds(const BigInteger& x, const int* d, int n, bool neg) { vp_assert(x.digits_.size() == (SizeType)n && x.is_negative_ == neg, "comparing leaves the operands"); for (int i = 0; i < n; ++i) vp_assert(x.digits_[i] == d[i], "comparing leaves the operands"); }
static bool arb(int* d, const char* const* nm, const char* sn, int n) { for (int i = 0; i < n; ++i) { d[i] = vp_s32(nm[i]); vp_assume(d[i] >= (i + 1 == n) && d[i] <= 9); } return n ? vp_bool(sn) : false; }
static const char* const A_[] = {"a0", "a1", "a2"}; static const char* const B_[] = {"b0", "b1", "b2"};
#define BIG(m, n) { int a[3], b[3]; const bool s = arb(a, A_, "s", m), t = arb(b, B_, "t", n); const BigInteger x = make(a, m, s), y = make(b, n, t); const bool same = equal(a, m, s, b, n, t); both(x, y, same); \
  vp_assert(x.Equal(y) == (x == y) && x.LessThan(y) == (x < y) && x.GreaterThan(y) == (x > y), "the named comparisons are the operators"); holds(x, a, m, s); holds(y, b, n, t); vp_reach("end"); }
extern "C" {
'''
for m in range(4):
    for n in range(m, 4):
        BIG += "void t_big_%d%d() BIG(%d, %d)\n" % (m, n, m, n)
BIG += "}\n"
PTR = HEAD + r'''
#include <Caitlyn/Memory>
#include <Caitlyn/Error>
using namespace Caitlyn;
''' + LAWS + r'''
template <class P> static void null_(const P& p, bool empty) { const bool e = p == nullptr, n = p != nullptr; vp_assert(e == empty, "a pointer equals null exactly when it is empty"); vp_assert(n == !e, "inequality is the negation of equality"); }
extern "C" {
void t_raw() { int a, b; Ptr<int> p(&a), q(&a), r(&b), z; eqlaw(p, q, true); eqlaw(p, r, false); eqlaw(r, p, false); eqlaw(p, z, false); eqlaw(z, p, false); eqlaw(z, z, true); eqlaw(p, p, true); null_(p, false); null_(z, true); vp_assert(p.Get() == &a && q.Get() == &a && r.Get() == &b && !z.Get(), "comparing leaves the operands"); vp_reach("end"); }
void t_unique() { int *a = new int, *b = new int; UniquePtr<int> p(a), r(b), z, y; eqlaw(p, r, false); eqlaw(r, p, false); eqlaw(p, z, false); eqlaw(z, p, false); eqlaw(z, y, true); eqlaw(p, p, true); null_(p, false); null_(z, true); vp_assert(p.Get() == a && r.Get() == b && !z.Get(), "comparing leaves the operands"); vp_reach("end"); }
void t_shared() { int *a = new int, *b = new int; SharedPtr<int> p(a), q(p), r(b), z, y; eqlaw(p, q, true); eqlaw(p, r, false); eqlaw(r, p, false); eqlaw(p, z, false); eqlaw(z, p, false); eqlaw(z, y, true); eqlaw(p, p, true); null_(p, false); null_(z, true); vp_assert(p.Get() == a && q.Get() == a && r.Get() == b && !z.Get(), "comparing leaves the operands"); vp_reach("end"); }
void t_weak() { int *a = new int, *b = new int; SharedPtr<int> p(a), r(b); WeakPtr<int> u(p), v(p), w(r), z, y; eqlaw(u, v, true); eqlaw(u, w, false); eqlaw(w, u, false); eqlaw(u, z, false); eqlaw(z, u, false); eqlaw(z, y, true); eqlaw(u, u, true); null_(u, false); null_(z, true); vp_assert(p.Get() == a && r.Get() == b, "comparing leaves the operands"); vp_reach("end"); }
void t_unexpected() { int a = vp_s32("a"), b = vp_s32("b"); const Unexpected<int> x(a), y(b); eqlaw(x, y, a == b); eqlaw(y, x, a == b); eqlaw(x, x, true); vp_assert(x.Get() == a && y.Get() == b, "comparing leaves the operands"); vp_reach("end"); }
}
'''


def run(ctx):
    def chars(eng, run, entry):
        nstr.install(eng)
        eng.UNROLL = 7

    def strs(eng, run, entry):
        cstr.install(eng)
        text.install_all(eng, string=False)
    res = []
    for nm, src, cfg in (("characters", CHARS, chars), ("strings", STRS, strs), ("C strings", CSTRS, chars), ("big integers", BIG, strs), ("pointers", PTR, None)):
        mod, r = drv.settle(ctx, nm, src, *([cfg] if cfg else []))
        res += r if isinstance(r, list) else list(r)
    drv.reached(ctx, res, 35)
