"""C14: character classification and case conversion agree with Unicode."""
import unicodedata
import drv, text
from harness import *
from interp import *
from dom import sub, const, addc
import re
LEVEL = "other"
EXPLANATION = ("Abstract interpretation of every classification and conversion function for an arbitrary 32-bit code point splits its domain into the cases the code distinguishes, each with its result as a function of the code point. "
               "Each case is compared, for all code points in it, with the Unicode character database (properties White_Space, Nd, Uppercase, Lowercase, simple case mappings). Conversion of characters and of strings is analysed down to the conversion of their code points.")
ASSUMPTIONS = ["the character database of Python's unicodedata (Unicode %s) is the reference" % unicodedata.unidata_version, "strings of up to three arbitrary characters stand for all strings"]
SPACE = set(range(9, 14)) | {0x20, 0x85, 0xA0, 0x1680} | set(range(0x2000, 0x200B)) | {0x2028, 0x2029, 0x202F, 0x205F, 0x3000}
MAXCP = 0x110000


def simple(c, f):
    s = getattr(chr(c), f)()
    if len(s) == 1:
        return ord(s)
    if c == 0x130 and f == "lower":
        return 0x69
    t = chr(c).title()
    return ord(t) if f == "upper" and len(t) == 1 else c


UP, LOW = {}, {}
UPPER, LOWER, DIGIT = set(), set(), set()
for c in range(MAXCP):
    ch = chr(c)
    if ch.isupper():
        UPPER.add(c)
    if ch.islower():
        LOWER.add(c)
    if unicodedata.category(ch) == "Nd":
        DIGIT.add(c)
    u, l = simple(c, "upper"), simple(c, "lower")
    if u != c:
        UP[c] = u
    if l != c:
        LOW[c] = l
R = lambda a, b: set(range(a, b + 1))
MUSTUP = R(0x41, 0x5A) | R(0x410, 0x42F) | R(0x391, 0x3A1) | R(0x3A3, 0x3A9)
MUSTLOW = R(0x61, 0x7A) | R(0x430, 0x44F) | R(0x3B1, 0x3C1) | R(0x3C3, 0x3C9)
# polytonic Greek (upsilon with breathing excepted), Latin Extended-A up to U+0177, digits of the basic plane (Sinhala excepted)
POLYLOW = R(0x1F00, 0x1F07) | R(0x1F10, 0x1F15) | R(0x1F20, 0x1F27) | R(0x1F30, 0x1F37) | R(0x1F40, 0x1F45) | R(0x1F60, 0x1F67) | R(0x1F70, 0x1F7D)
POLYUP = R(0x1F08, 0x1F0F) | R(0x1F18, 0x1F1D) | R(0x1F28, 0x1F2F) | R(0x1F38, 0x1F3F) | R(0x1F48, 0x1F4D) | R(0x1F68, 0x1F6F) | R(0x1FB8, 0x1FBB) | R(0x1FC8, 0x1FCB) | R(0x1FD8, 0x1FDB) | R(0x1FE8, 0x1FEC)
MUSTUP |= POLYUP & UPPER
MUSTLOW |= POLYLOW & LOWER
CONVUP = MUSTLOW | {c for c in range(0x100, 0x178) if c in UP}
CONVLOW = MUSTUP | {c for c in range(0x100, 0x178) if c in LOW}
MUSTDIGIT = {c for c in DIGIT if c < 0x10000} - R(0xDE6, 0xDEF)
EXTRA = {("upper", 0xDF, 0x1E9E), ("upper", 0x149, 0x2BC)}
# what -> (allowed(c), required(c)): sets for which the classification may / must be true
CLASS = dict(space=(SPACE, SPACE), digit=(DIGIT, MUSTDIGIT), isupper=(UPPER, MUSTUP), islower=(LOWER, MUSTLOW), isletter=(UPPER | LOWER, MUSTUP | MUSTLOW))
CONV = dict(upper=(UP, CONVUP), lower=(LOW, CONVLOW))

SRC = r'''
#include <Caitlyn/Char>
#include <Caitlyn/String>
#include <iostream>
#include <fstream>
using namespace Caitlyn;
extern "C" { void vp_emit(const char*, unsigned, unsigned); unsigned vp_up(unsigned); unsigned vp_low(unsigned); }
static bool valid(unsigned c) { return c > 0 && c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
extern "C" {
void t_space() { unsigned c = vp_u32("c"); vp_emit("space", c, IsSpace(c)); vp_reach("end"); }
void t_digit() { unsigned c = vp_u32("c"); vp_emit("digit", c, IsDigit(c)); vp_reach("end"); }
void t_isupper() { unsigned c = vp_u32("c"); vp_emit("isupper", c, IsUppercase(c)); vp_reach("end"); }
void t_islower() { unsigned c = vp_u32("c"); vp_emit("islower", c, IsLowercase(c)); vp_reach("end"); }
void t_isletter() { unsigned c = vp_u32("c"); vp_emit("isletter", c, IsLetter(c)); vp_reach("end"); }
void t_upper() { unsigned c = vp_u32("c"); vp_emit("upper", c, ToUppercase((CodePoint)c)); vp_reach("end"); }
void t_lower() { unsigned c = vp_u32("c"); vp_emit("lower", c, ToLowercase((CodePoint)c)); vp_reach("end"); }
void t_todigit() { unsigned c = vp_u32("c"); int d = ToDigit(c); if (c >= '0' && c <= '9') vp_assert(d == (int)(c - '0'), "a digit has its value"); else vp_assert(d == -1, "other characters have no value"); vp_reach("end"); }
void t_abs_char_upper() { unsigned c = vp_u32("c"); vp_assume(valid(c)); const Char x{(CodePoint)c}; Char r = ToUppercase(x); vp_assert(r.GetCodePoint() == vp_up(c), "a character is converted as its code point"); vp_assert(x.GetCodePoint() == c, "the operand is unchanged"); vp_reach("end"); }
void t_abs_char_lower() { unsigned c = vp_u32("c"); vp_assume(valid(c)); const Char x{(CodePoint)c}; Char r = ToLowercase(x); vp_assert(r.GetCodePoint() == vp_low(c), "a character is converted as its code point"); vp_assert(x.GetCodePoint() == c, "the operand is unchanged"); vp_reach("end"); }
#define STR(F, G, n) { unsigned c[4] = {vp_u32("c0"), vp_u32("c1"), vp_u32("c2"), 0}; String s; for (int i = 0; i < n; ++i) { vp_assume(valid(c[i])); s.Append(1, Char{(CodePoint)c[i]}); } \
   const String k = s; String r = k.F(); vp_assert(r.size() == n, "the length is kept"); for (int i = 0; i < n; ++i) { vp_assert(r[i].GetCodePoint() == G(c[i]), "every character of the string is converted"); vp_assert(k[i].GetCodePoint() == c[i], "the operand is unchanged"); } vp_reach("end"); }
void t_abs_str_upper_0() STR(ToUppercase, vp_up, 0)
void t_abs_str_upper_1() STR(ToUppercase, vp_up, 1)
void t_abs_str_upper_2() STR(ToUppercase, vp_up, 2)
void t_abs_str_upper_3() STR(ToUppercase, vp_up, 3)
void t_abs_str_lower_0() STR(ToLowercase, vp_low, 0)
void t_abs_str_lower_1() STR(ToLowercase, vp_low, 1)
void t_abs_str_lower_2() STR(ToLowercase, vp_low, 2)
void t_abs_str_lower_3() STR(ToLowercase, vp_low, 3)
}
'''


def cfg(eng, run, entry):
    if entry.startswith("t_abs"):
        text.install_all(eng, string=False)

        def fun(nm):
            def h(e, st, a, i, f):
                v = a[-1]
                r = e.memo((nm, v), lambda: e.fresh(32, nm, False, 1, 0xD7FF))
                return ret(st, ("n", 32, 0, ((r, 1),)))
            return h
        for nm, w in (("Upper", "vp_up"), ("Lower", "vp_low")):
            eng.hooks.insert(0, (re.compile(r"^Caitlyn::To%scase\(unsigned (int|long)\)" % nm), fun(w)))
            eng.hooks.insert(0, (re.compile(r"^Caitlyn::To%scase\(char32_t\)" % nm), fun(w)))
            eng.rt[w] = fun(w)
        return
    text.install_all(eng)
    base = [None]

    def emit(e, st, a, inst, f):
        what = drv.cstr(e, st, a[0])
        c, r = e.tonum(st, a[1]), a[2]
        out = []
        cs = c[0][1] if isinstance(c, list) else c
        vals = [(st, r)]
        if r[0] in ("z", "c", "q"):
            vals = e.tonum(st, r)
        for s, rv in (vals if isinstance(vals, list) else [(st, vals)]):
            one(e, run, what, s, cs, rv)
        return ret(st)

    def feasible(e, st, L):
        return e.eq(st.copy(), L) is not None

    def value(e, st, rv):
        """Value of the result where it is determined."""
        lo, hi = st.num.rng(e.sy, (rv[2], rv[3]))
        return lo if lo == hi else None

    def concrete(e, what, c):
        """The result for one code point, where its case has no single formula."""
        for n in sorted(e.mod.funcs):
            if re.match(r"Caitlyn::To%scase\((unsigned int|char32_t)\)" % what.capitalize(), e.mod.dem(n)):
                vals = {v[2] if v[0] == "n" and not v[3] else None for k, v, _ in e.call_fn(e.mod.funcs[n], [N(32, c)], base[0].copy(), None) if k == "ret"}
                if len(vals) == 1 and None not in vals:
                    return vals.pop()
        raise Giveup("conversion result not determined")

    def one(e, run, what, st, cv, rv):
        base[0] = st
        C = (cv[2], cv[3])
        lo, hi = st.num.rng(e.sy, C)
        D = sub((rv[2], rv[3]), C)
        shift = D[0] if not D[1] else None
        konst = rv[2] if not rv[3] else None
        cand = []
        if what in CLASS:
            may, must = CLASS[what]
            if konst is None:
                raise Giveup("classification that is not a constant on a case")
            if konst & 1:
                if hi - lo > 20000:
                    cand = [c for c in (lo, hi) if c not in may]
                    cand += [c for c in range(min(MAXCP, hi + 1)) if lo <= c <= hi and c not in may][:50]
                else:
                    cand = [c for c in range(lo, hi + 1) if c not in may]
                msg = "U+%04X is classified as %s, which it is not in Unicode"
            else:
                cand = [c for c in sorted(must) if lo <= c <= hi]
                msg = "U+%04X is not recognised as %s"
            n = 0
            for c in cand:
                if feasible(e, st, addc(C, -c)):
                    e.fault(st.copy(), "assert", msg % (c, what)); n += 1
                    if n >= 3:
                        break
            if not n:
                key = "%s: %s cases agree with Unicode" % (what, "positive" if konst & 1 else "negative")
                run.ok[key] = run.ok.get(key, 0) + 1
            return
        table, must = CONV[what]
        n = 0

        def bad(c, r):
            if r == c:
                return c in must
            return not (table.get(c) == r or (what, c, r) in EXTRA)
        if hi - lo < 20000:
            cs = range(lo, hi + 1)
        else:
            if shift != 0:
                cs = list(range(lo, min(hi, MAXCP) + 1))
            else:
                cs = [c for c in sorted(must) if lo <= c <= hi]
        for c in cs:
            if shift is not None:
                r = c + shift
            elif konst is not None:
                r = konst
            else:
                s2 = e.eq(st.copy(), addc(C, -c))
                if s2 is None:
                    continue
                r = value(e, s2, rv)
                if r is None:
                    r = concrete(e, what, c)
            if bad(c, r) and feasible(e, st, addc(C, -c)):
                e.fault(st.copy(), "assert", "U+%04X is converted to U+%04X, which is not its simple %scase counterpart" % (c, r, what) if r != c else "U+%04X is not converted to %scase" % (c, what)); n += 1
                if n >= 3:
                    break
        if not n:
            key = "%s: %s" % (what, "unchanged where allowed" if shift == 0 else "changed to the counterpart")
            run.ok[key] = run.ok.get(key, 0) + 1
    eng.rt["vp_emit"] = emit


def run(ctx):
    mod, res = drv.settle(ctx, "unicode", SRC, cfg)
    ctx.count("code_points_compared", MAXCP)
    drv.reached(ctx, res, 18)
