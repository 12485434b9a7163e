"""C94: searching finds exactly the occurrences."""
import itertools
import drv, nstr, c17
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR, strings, vectors and std::search from their own source) of every search: strings and patterns of each length up to the bound with arbitrary characters and an arbitrary start; "
               "the result is compared with the occurrence relation written out over the characters, so the search is exact on every path.")
ASSUMPTIONS = ["strings of up to 4 characters with patterns of 1 to 3 (5 and 4 in the thorough tier) stand for longer ones; empty patterns are not searched for, except by kmp, whose bounds are 2 and 1 more, and 8 and 5 over two letters (9 and 6 in the thorough tier)"]


RAW6 = 'static Raw raw6(int n) { Raw r = raw(n, "s0", "s1", "s2", "s3", "s4"); if (n > 5) r.b[5] = byte("s5"); if (n > 6) r.b[6] = byte("s6"); return r; }\nextern "C" {\n'


def gen(N, M):
    o = []
    for n in range(N + 1):
        for m in range(1, M + 1):
            o.append('''void t_find_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); unsigned long p = pos(%(n)d); unsigned long e = NP; for (int i = %(n)d - 1; i >= 0; --i) if (p <= (unsigned long)i && occ(r, q, i)) e = i;
    vp_assert(s.Find(t, p) == e, "Find yields the first occurrence from the start on"); vp_reach("end"); }
void t_find0_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); unsigned long e = NP; for (int i = %(n)d - 1; i >= 0; --i) if (occ(r, q, i)) e = i;
    vp_assert(s.Find(t) == e, "Find yields the first occurrence"); vp_assert(s.Contains(t) == (e != NP), "Contains tells whether there is an occurrence"); vp_reach("end"); }
void t_rfind_%(n)d_%(m)d() { Raw r = RS(%(n)d), q = RP(%(m)d); String s = mk(r), t = mk(q); unsigned long e = NP; for (int i = 0; i < %(n)d; ++i) if (occ(r, q, i)) e = i;
    vp_assert(s.ReverseFind(t) == e, "ReverseFind yields the last occurrence"); vp_reach("end"); }
''' % {"n": n, "m": m})
        o.append('''void t_rfind1_%(n)d() { Raw r = RS(%(n)d), q = RP(1); String s = mk(r), t = mk(q); unsigned long p = pos(%(n)d); unsigned long e = NP; for (int i = 0; i < %(n)d; ++i) if ((unsigned long)i <= p && occ(r, q, i)) e = i;
    vp_assert(s.ReverseFind(t, p) == e, "ReverseFind yields the last occurrence up to the start"); vp_reach("end"); }
''' % {"n": n})
    for n in range(N + 3):
        for m in range(M + 2):
            o.append('''void t_kmp_%(n)d_%(m)d() { Raw r = raw6(%(n)d), q = RP(%(m)d); std::string t(%(n)d, 'x'), p(%(m)d, 'x'); for (int i = 0; i < %(n)d; ++i) t[i] = (char)r.b[i]; for (int i = 0; i < %(m)d; ++i) p[i] = (char)q.b[i];
    bool e = %(m)d == 0; for (int i = 0; i < %(n)d; ++i) if (occ(r, q, i)) e = true;
    vp_assert(kmp(p, t) == e, "kmp tells whether the pattern occurs"); vp_reach("end"); }
''' % {"n": n, "m": m})
    # two letters, long enough for a chain of borders to be followed twice
    two = ["a" + "".join(x) for x in itertools.product("ab", repeat=4)]
    two = [(x, 8) for x in two] + [("aabaaa", 9)]
    if N > 4:
        two += [("a" + "".join(x), 9) for x in itertools.product("ab", repeat=5)] + [("aabaaab", 10)]
    for p, n in two:
        o.append('''void t_kmp_%(p)s_%(n)d() { std::string t(%(n)d, 'x'), p("%(p)s"); static const char* const nm[] = {%(nm)s}; for (int i = 0; i < %(n)d; ++i) t[i] = vp_u8(nm[i]) & 1 ? 'a' : 'b';
    bool e = false; for (int i = 0; i + %(m)d <= %(n)d; ++i) { bool all = true; for (int j = 0; j < %(m)d; ++j) if (t[i + j] != "%(p)s"[j]) all = false; if (all) e = true; }
    vp_assert(kmp(p, t) == e, "kmp tells whether the pattern occurs"); vp_reach("end"); }
''' % {"p": p, "n": n, "m": len(p), "nm": ", ".join('"l%d"' % i for i in range(n))})
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    r = c17.cfg(eng, run, entry)
    if "_kmp_" in entry:
        eng.UNROLL = 60; eng.MAXITEMS = 3000
    return r


def src(N=4, M=3):
    return c17.HEAD.replace("byte(const char* n) { unsigned char c = vp_u8(n); vp_assume(c >= 1 && c < 128)", "byte(const char* n) { unsigned char c = vp_u8(n); vp_assume(c < 128)").replace('extern "C" {\n', RAW6) + gen(N, M)


def run(ctx):
    N, M = (5, 4) if ctx.tier == "thorough" else (4, 3)
    mod, res = drv.settle(ctx, "search", src(N, M), cfg)
    drv.reached(ctx, res, (N + 1) * (3 * M + 1) + (N + 3) * (M + 2) + 17 + (33 if N > 4 else 0))
