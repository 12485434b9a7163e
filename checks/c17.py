"""C17: string operations stay inside the string."""
import drv, nstr, hashtab
from harness import *
LEVEL = "other"
EXPLANATION = ("Bounds and definite-result analysis (path-sensitive abstract interpretation of clang IR, strings and vectors from their own source) of every position-taking string operation: strings of each length up to the bound with arbitrary characters, "
               "positions and counts that are arbitrary 64-bit values. Every access is an obligation; results are compared with the occurrence relation written out over the characters.")
ASSUMPTIONS = ["operator new does not fail", "strings of up to 4 characters (5 in the thorough tier) with patterns of up to 3 (4) stand for longer ones; characters are one byte in the generic entries and of every length in the decoding entries"]
HEAD = nstr.NSTR + r'''
#include <fstream>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <sstream>
#include <vector>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#define private public
#define protected public
#include <Caitlyn/Char>
#include <Caitlyn/String>
#undef private
#undef protected
using namespace Caitlyn;
static const unsigned long NP = (unsigned long)-1;
static Char C(unsigned char b) { Char r; r.data_ = std::string(1, (char)b); return r; }
static unsigned char byte(const char* n) { unsigned char c = vp_u8(n); vp_assume(c >= 1 && c < 128); return c; }
struct Raw { int n; unsigned char b[28]; };
static Raw raw(int n, const char* a, const char* b, const char* c, const char* d, const char* e) { Raw r; r.n = n; if (n > 0) r.b[0] = byte(a); if (n > 1) r.b[1] = byte(b); if (n > 2) r.b[2] = byte(c); if (n > 3) r.b[3] = byte(d); if (n > 4) r.b[4] = byte(e); return r; }
#define RS(n) raw(n, "s0", "s1", "s2", "s3", "s4")
#define RP(n) raw(n, "p0", "p1", "p2", "p3", "p4")
static String mk(const Raw& r) { std::vector<Char> v; v.reserve(r.n); for (int i = 0; i < r.n; ++i) v.push_back(C(r.b[i])); String s; s.data_.swap(v); return s; }
static bool is(const Char& c, unsigned char b) { return c.data_.size() == 1 && (unsigned char)c.data_[0] == b; }
static void same(const String& s, const Raw& r, const char* m) { vp_assert(s.data_.size() == (unsigned long)r.n, m); for (int i = 0; i < r.n; ++i) vp_assert(is(s.data_[i], r.b[i]), m); }
static bool occ(const Raw& s, const Raw& p, int i) { if (i + p.n > s.n) return false; for (int j = 0; j < p.n; ++j) if (s.b[i + j] != p.b[j]) return false; return true; }
static Raw sub(const Raw& s, int i, int k) { Raw r; r.n = 0; for (int j = 0; j < k; ++j) r.b[r.n++] = s.b[i + j]; return r; }
static Raw cat(Raw a, const Raw& b) { for (int j = 0; j < b.n; ++j) a.b[a.n++] = b.b[j]; return a; }
static Raw ins(const Raw& s, int i, const Raw& p) { return cat(cat(sub(s, 0, i), p), sub(s, i, s.n - i)); }
static unsigned long pos(unsigned long k) { unsigned long p = vp_u64("p"); for (unsigned long i = 0; i <= k + 1; ++i) if (p == i) return i; if (p == NP) return NP; if (p == (1ul << 59) - 2) return (1ul << 59) - 2; return p; }
extern "C" {
'''


def cfg(eng, run, entry):
    nstr.install(eng)
    eng.UNROLL = 8
    eng.MAXSTEPS = 6000000
    eng.MAXREC = 8
    return drv.leakcheck


def gen(N, M):
    o = []
    for n in range(N + 1):
        o.append('''void t_at_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); const String& k = s; unsigned long p = vp_u64("p");
    try { Char& c = s.At(p); vp_assert(p < %(n)du, "checked access accepts exactly the positions inside"); vp_assert(&c == &s.data_[p], "checked access denotes the character at the position"); } catch (const std::out_of_range&) { vp_assert(p >= %(n)du, "checked access throws exactly outside"); }
    try { const Char& c = k.At(p); vp_assert(p < %(n)du, "checked access accepts exactly the positions inside"); vp_assert(&c == &s.data_[p], "checked access denotes the character at the position"); } catch (const std::out_of_range&) { vp_assert(p >= %(n)du, "checked access throws exactly outside"); }
    vp_reach("end"); }
void t_sub_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long p = pos(%(n)d), c = vp_u64("c");
    try { String t = s.Substring(p, c); vp_assert(p <= %(n)du, "Substring accepts exactly the positions up to the length"); int i = 0; while (i < %(n)d && p != (unsigned long)i) ++i; int k = 0; while (k < %(n)d - i && c != (unsigned long)k) ++k; same(t, sub(r, i, k), "Substring yields the characters from the position, at most as many as there are"); } catch (const std::out_of_range&) { vp_assert(p > %(n)du, "Substring throws exactly for positions after the end"); }
    same(s, r, "Substring leaves the string alone"); vp_reach("end"); }
void t_sub1_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long p = vp_u64("p");
    try { String t = s.Substring(p); vp_assert(p <= %(n)du, "Substring accepts exactly the positions up to the length"); int i = 0; while (i < %(n)d && p != (unsigned long)i) ++i; same(t, sub(r, i, %(n)d - i), "Substring yields the rest"); } catch (const std::out_of_range&) { vp_assert(p > %(n)du, "Substring throws exactly for positions after the end"); }
    vp_reach("end"); }
void t_pred_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long p = pos(%(n)d); unsigned char b = byte("b");
    unsigned long f = s.FindIf([b](const Char& c) { return is(c, b); }, p), g = s.FindIfNot([b](const Char& c) { return is(c, b); }, p);
    unsigned long ef = NP, eg = NP; for (int i = %(n)d - 1; i >= 0; --i) if (p <= (unsigned long)i) { if (r.b[i] == b) ef = i; else eg = i; }
    vp_assert(f == ef, "FindIf yields the first position from the start on that satisfies the predicate"); vp_assert(g == eg, "FindIfNot yields the first position from the start on that does not satisfy the predicate"); vp_reach("end"); }
''' % {"n": n})
        if n <= 3:
            o.append('''void t_space_%(n)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long f = FindFirstNonSpace(s), l = FindLastNonSpace(s); unsigned long ef = %(n)du, el = %(n)du;
    for (int i = %(n)d - 1; i >= 0; --i) if (!IsSpace((CodePoint)r.b[i])) ef = i;
    for (int i = 0; i < %(n)d; ++i) if (!IsSpace((CodePoint)r.b[i])) el = i;
    vp_assert(f == ef, "the first non-space is found"); vp_assert(l == el, "the last non-space is found"); vp_reach("end"); }
''' % {"n": n})
        for m in range(M + 1):
            o.append('''void t_find_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); unsigned long p = pos(%(n)d);
    unsigned long f = s.Find(t, p); if (f != NP) { vp_assert(f >= p, "a found position is not before the start"); vp_assert(f <= %(n)du && f + %(m)du <= %(n)du, "a found occurrence lies inside the string"); int i = 0; while (i < %(n)d && f != (unsigned long)i) ++i; vp_assert(occ(r, q, i), "a found position denotes an occurrence"); }
    same(s, r, "searching leaves the string alone"); vp_reach("end"); }
void t_rfind_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); unsigned long p = pos(%(n)d);
    unsigned long f = s.ReverseFind(t, p); if (f != NP) { vp_assert(f <= %(n)du && f + %(m)du <= %(n)du, "a found occurrence lies inside the string"); int i = 0; while (i < %(n)d && f != (unsigned long)i) ++i; vp_assert(occ(r, q, i), "a found position denotes an occurrence"); }
    vp_reach("end"); }
void t_fix_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q);
    vp_assert(s.StartsWith(t) == occ(r, q, 0), "StartsWith tells whether the prefix is there"); vp_assert(s.EndsWith(t) == (%(m)d <= %(n)d && occ(r, q, %(n)d - %(m)d)), "EndsWith tells whether the suffix is there");
    vp_reach("end"); }
void t_ins_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r); String t = mk(q); unsigned long p = pos(%(n)d);
    try { s.Insert(p, t); vp_assert(p <= %(n)du, "Insert accepts exactly the positions up to the length"); int i = 0; while (i < %(n)d && p != (unsigned long)i) ++i; same(s, ins(r, i, q), "Insert puts the string at the position"); } catch (const std::out_of_range&) { vp_assert(p > %(n)du, "Insert throws exactly for positions after the end"); same(s, r, "a rejected Insert changes nothing"); }
    vp_reach("end"); }
void t_inss_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r); char t[%(m)d + 1]; for (int i = 0; i < %(m)d; ++i) t[i] = (char)q.b[i]; t[%(m)d] = 0; unsigned long p = pos(%(n)d);
    try { s.Insert(p, (const char*)t); vp_assert(p <= %(n)du, "Insert accepts exactly the positions up to the length"); int i = 0; while (i < %(n)d && p != (unsigned long)i) ++i; same(s, ins(r, i, q), "Insert puts the string at the position"); } catch (const std::out_of_range&) { vp_assert(p > %(n)du, "Insert throws exactly for positions after the end"); same(s, r, "a rejected Insert changes nothing"); }
    vp_reach("end"); }
void t_insc_%(n)d_%(m)d() { Raw r = RS(%(n)d); String s = mk(r); unsigned long p = pos(%(n)d); unsigned char b = byte("b"); Char c = C(b);
    try { s.Insert(p, %(m)dul, c); vp_assert(p <= %(n)du, "Insert accepts exactly the positions up to the length"); int i = 0; while (i < %(n)d && p != (unsigned long)i) ++i; Raw q; q.n = 0; while (q.n < %(m)d) q.b[q.n++] = b; same(s, ins(r, i, q), "Insert puts the characters at the position"); } catch (const std::out_of_range&) { vp_assert(p > %(n)du, "Insert throws exactly for positions after the end"); same(s, r, "a rejected Insert changes nothing"); }
    vp_reach("end"); }
''' % {"n": n, "m": m})
    return "".join(o) + "}\n"


def src(N=3, M=2):
    return HEAD + gen(N, M)


def run(ctx):
    N, M = (5, 4) if ctx.tier == "thorough" else (4, 3)
    mod, res = drv.settle(ctx, "string", src(N, M), cfg)
    drv.reached(ctx, res, (N + 1) * (4 + 6 * (M + 1)) + 4)
