"""Driver vocabulary shared by the checks about BigInteger (C25-C27, C90)."""
import os
import nstr
from interp import *
from dom import add, scale, addc

HEAD = nstr.NSTR + r'''
#include <vector>
#include <string>
#include <memory>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <type_traits>
#include <utility>
#include <Caitlyn/String>
#define private public
#include <Caitlyn/Numeric>
#undef private
using namespace Caitlyn;
typedef BigInteger B;
static B make(const int* d, int n, bool neg) { B x; for (int i = 0; i < n; ++i) x.digits_.push_back(d[i]); x.is_negative_ = neg; return x; }
// an arbitrary big integer of n digits in canonical form
static B arb(int* d, const char* const* nm, const char* sn, int n, bool& neg) { for (int i = 0; i < n; ++i) { d[i] = vp_s32(nm[i]); vp_assume(d[i] >= (i + 1 == n) && d[i] <= 9); } neg = n ? vp_bool(sn) : false; return make(d, n, neg); }
// case distinction on a digit
static int pick(int d) { return d == 0 ? 0 : d == 1 ? 1 : d == 2 ? 2 : d == 3 ? 3 : d == 4 ? 4 : d == 5 ? 5 : d == 6 ? 6 : d == 7 ? 7 : d == 8 ? 8 : 9; }
static const char* const A_[] = {"a0", "a1", "a2", "a3"}; static const char* const B_[] = {"b0", "b1", "b2", "b3"};
static void holds(const B& x, const int* d, int n, bool neg) { vp_assert(x.digits_.size() == (SizeType)n && x.is_negative_ == neg, "the operand is unchanged"); for (int i = 0; i < n; ++i) vp_assert(x.digits_[i] == d[i], "the operand is unchanged"); }
static void canon(const B& x) {
  const SizeType n = x.digits_.size();
  for (SizeType i = 0; i < n; ++i) vp_assert(x.digits_[i] >= 0 && x.digits_[i] <= 9, "every digit is a decimal digit");
  if (n) vp_assert(x.digits_[n - 1] != 0, "there is no leading zero digit"); else vp_assert(!x.is_negative_, "zero is not negative");
}
static long mag(const B& x) { long v = 0; for (SizeType i = x.digits_.size(); i-- > 0;) v = v * 10 + x.digits_[i]; return v; }
static long val(const B& x) { return x.is_negative_ ? -mag(x) : mag(x); }
static long num(const int* d, int n, bool neg) { long v = 0; for (int i = n; i-- > 0;) v = v * 10 + d[i]; return neg ? -v : v; }
#define TWO(m, n) int a[4], b[4]; bool s, t; const B x = arb(a, A_, "s", m, s), y = arb(b, B_, "t", n, t); const long p = num(a, m, s), q = num(b, n, t); (void)p; (void)q;
#define SAME2(m, n) holds(x, a, m, s); holds(y, b, n, t); vp_reach("end");
#define ONE(m) int a[4]; bool s; const B x = arb(a, A_, "s", m, s); const long p = num(a, m, s); (void)p;
#define SAME1(m) holds(x, a, m, s); vp_reach("end");
'''


LARGE = r'''
// numbers of many digits: a fixed pattern with an arbitrary first, middle and last digit, against schoolbook arithmetic over plain digits
static const int CAP = 640;
struct N_ { int d[CAP]; int n; };
static void fill(N_& v, int n, unsigned k) { v.n = n; for (int i = 0; i < n; ++i) { k = k * 75u + 74u; k %= 65537u; v.d[i] = (int)(k / 7u % 10u); } if (n && v.d[n - 1] == 0) v.d[n - 1] = 4; }
static B big(const N_& v, bool neg) { B x; for (int i = 0; i < v.n; ++i) x.digits_.push_back(v.d[i]); x.is_negative_ = neg; return x; }
static void trim(N_& v) { while (v.n && v.d[v.n - 1] == 0) --v.n; }
static int cmp(const N_& a, const N_& b) { if (a.n != b.n) return a.n < b.n ? -1 : 1; for (int i = a.n; i-- > 0;) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static void plus(N_& r, const N_& a, const N_& b) { int c = 0; r.n = 0; for (int i = 0; i < a.n || i < b.n || c; ++i) { int s = c + (i < a.n ? a.d[i] : 0) + (i < b.n ? b.d[i] : 0); c = s > 9; r.d[r.n++] = c ? s - 10 : s; } }
static void minus(N_& r, const N_& a, const N_& b) { int c = 0; r.n = 0; for (int i = 0; i < a.n; ++i) { int s = a.d[i] - c - (i < b.n ? b.d[i] : 0); c = s < 0; r.d[r.n++] = c ? s + 10 : s; } trim(r); }
static void times(N_& r, const N_& a, const N_& b) { for (int i = 0; i < a.n + b.n; ++i) r.d[i] = 0; r.n = a.n + b.n; for (int i = 0; i < a.n; ++i) { int c = 0; for (int j = 0; j < b.n; ++j) { int s = r.d[i + j] + a.d[i] * b.d[j] + c; r.d[i + j] = s % 10; c = s / 10; } r.d[i + b.n] += c; } trim(r); }
static void same(const B& x, const N_& v, bool neg) { vp_assert(x.digits_.size() == (SizeType)v.n, "a large result has the digits of the mathematical result"); vp_assert(x.is_negative_ == (neg && v.n), "a large result has the sign of the mathematical result"); for (int i = 0; i < v.n; ++i) vp_assert(x.digits_[i] == v.d[i], "a large result has the digits of the mathematical result"); }
static N_ P, Q, R, S;
static void law(const B& x, const N_& v, bool neg) { canon(x); vp_assert(x.is_negative_ == (neg && v.n), "a large result has the sign of the mathematical result"); }
#ifndef SAME
#define SAME same
#endif
static int some(const char* n, bool top) { int d = vp_s32(n); vp_assume(d >= top && d <= 9); return d; }
static void sums() { const B x = big(P, false), y = big(Q, false), u = big(P, true), v = big(Q, true);
  plus(R, P, Q); SAME(x + y, R, false); SAME(u + v, R, true); SAME(x - v, R, false); SAME(u - y, R, true);
  const bool lt = cmp(P, Q) < 0; if (lt) minus(S, Q, P); else minus(S, P, Q); SAME(x - y, S, lt); SAME(x + v, S, lt); SAME(u - v, S, !lt); SAME(u + y, S, !lt);
  vp_assert((x < y) == lt && (y < x) == (!lt && S.n) && (u < v) == (!lt && S.n) && (x == y) == !S.n && v < x && (x > y) == (!lt && S.n), "large numbers are ordered by value"); }
'''


def to_string(e, st, a, i, f):
    """std::to_string: the decimal digits of the number, whose value is their weighted sum."""
    out = []
    for s, items in nstr.digits(e, st, a[1], "unsigned" not in e.mod.dem(f.name)):
        nstr.build(e, s, a[0], items)
        out += ret(s)
    return out


def cfg(eng, run, entry):
    nstr.install(eng)
    eng.UNROLL = 8
    eng.MAXSTEPS = 8000000
    if "_large_" in entry:
        eng.CONC, eng.MAXSTEPS = 2000, 40000000
    eng.hook(r"^std::__cxx11::to_string\(", to_string)


def pairs(a, b=None):
    return [(m, n) for m in range(a + 1) for n in range((a if b is None else b) + 1)]


DEEP = os.environ.get("VERIF_TIER") == "thorough"
OPS = (("Add", "+"), ("Subtract", "-"), ("Multiply", "*"), ("Divide", "/"), ("Modulo", "%"))


def binary(body, most=2):
    """Entries for every operator and pair of lengths; body(method, symbol) yields the statements about x, y (values p, q)."""
    out = ""
    for op, sy in OPS:
        hard = op in ("Divide", "Modulo")
        for m, n in pairs(2 if hard else most):
            signs = [""]
            if hard and m and n:
                signs = ["vp_assume(!s); vp_assume(!t);", "vp_assume(!s); vp_assume(t);", "vp_assume(s); vp_assume(!t);", "vp_assume(s); vp_assume(t);"]
            for k, sg in enumerate(signs):
                for part in range(3 if hard and m == 2 and n else 1):
                    if not DEEP and hard and m == 2 and n and (part + k) % 2:
                        continue
                    lim = "" if not (hard and m == 2 and n) else "vp_assume(a[1] >= %d && a[1] <= %d);" % (1 + 3 * part, 3 + 3 * part)
                    out += "void t_%s_%d%d%s%s() { TWO(%d, %d) %s %s %s SAME2(%d, %d) }\n" % (
                        op.lower(), m, n, "_s%d" % k if len(signs) > 1 else "", "_%d" % part if lim else "", m, n, sg, lim, body(op, sy, m, n), m, n)
    return out


def large(muls=((20, 17), (40, 40), (130, 70), (3, 260)), sums=((18, 18), (19, 20), (40, 33), (65, 66), (130, 129), (300, 300), (300, 2), (2, 300)), divs=((12, 9), (20, 12), (19, 1), (1, 19), (36, 4))):
    """Entries about operands of many digits; SAME(result, digits, negative) is what is asked of each result."""
    o = []
    for k, (m, n) in enumerate(sums):
        o.append("void t_large_sum_%d_%d() { fill(P, %d, %d); fill(Q, %d, %d); P.d[0] = some(\"a\", false); Q.d[%d] = some(\"b\", true); sums(); vp_reach(\"end\"); }\n" % (m, n, m, 11 + k, n, 57 + k, n - 1))
    for n in (20, 70, 300):
        o.append("void t_large_carry_%d() { fill(P, %d, 3); for (int i = 0; i < %d; ++i) P.d[i] = 9; Q.n = 1; Q.d[0] = some(\"a\", true); sums(); vp_reach(\"end\"); }\n" % (n, n, n))
        o.append("void t_large_close_%d() { fill(P, %d, 3); fill(Q, %d, 3); P.d[%d] = some(\"a\", false); sums(); vp_reach(\"end\"); }\n" % (n, n, n, n // 2))
    for k, (m, n) in enumerate(muls):
        o.append("void t_large_product_%d_%d() { fill(P, %d, %d); fill(Q, %d, %d); const bool s = vp_bool(\"s\"), t = vp_bool(\"t\"); times(R, P, Q); const B x = big(P, s) * big(Q, t); SAME(x, R, s != t); vp_reach(\"end\"); }\n" % (m, n, m, 11 + k, n, 57 + k))
    o.append("void t_large_square() { fill(P, 40, 5); const bool s = vp_bool(\"s\"); times(R, P, P); const B x = big(P, s).Sqr(); SAME(x, R, false); vp_reach(\"end\"); }\n")
    o.append("void t_large_nines() { fill(P, 40, 5); for (int i = 0; i < 40; ++i) P.d[i] = 9; times(R, P, P); const bool s = vp_bool(\"s\"); const B x = big(P, s) * big(P, false); SAME(x, R, s); vp_reach(\"end\"); }\n")
    for e in (5, 7, 8, 12, 16, 21, 33):
        o.append("void t_large_power_%d() { P.n = 2; P.d[0] = 7; P.d[1] = %d; const bool s = vp_bool(\"s\"); R.n = 1; R.d[0] = 1; for (int i = 0; i < %d; ++i) { times(S, R, P); for (int j = 0; j < S.n; ++j) R.d[j] = S.d[j]; R.n = S.n; } const B x = big(P, s).Pow(%d); SAME(x, R, s && %d); vp_reach(\"end\"); }\n" % (e, 9 if e % 2 else 1, e, e, e % 2))
    for k, (m, n) in enumerate(divs):
        o.append("void t_large_quotient_%d_%d() { fill(P, %d, %d); fill(Q, %d, %d); fill(R, %d, 9); trim(R); if (R.n >= Q.n) R.n = Q.n - 1; trim(R); times(S, P, Q); N_ T; plus(T, S, R); const bool s = vp_bool(\"s\"), t = %d; const B y = big(T, s) / big(Q, t); SAME(y, P, s != t); const B x = big(T, s) %% big(Q, t); SAME(x, R, s); vp_reach(\"end\"); }\n" % (m, n, m, 11 + k, n, 57 + k, max(n - 1, 0), k % 2))
    return "".join(o)
