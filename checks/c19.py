"""C19: Formatting never reads a missing argument or past the format string."""
import drv, fmt
from harness import *
LEVEL = "other"
EXPLANATION = ("Bounds and definite-result analysis (path-sensitive abstract interpretation of clang IR; strings, vectors and searches from their own source, strtoul and strtol from their definition) of formatting: format strings of up to two arbitrary characters and "
               "longer ones with each character arbitrary in turn or cut at every place, with zero to three arguments; compared with a reference scanner that says whether an exception is due and, for plain fields, what the text is. Every access is an obligation.")
ASSUMPTIONS = ["the format strings of the table with one arbitrary one-byte character stand for longer ones", "operator new does not fail"]
HEAD = fmt.HEAD.replace('extern "C" {\n}', "").rsplit('extern "C" {', 1)[0] + r'''
static const char* A[3] = {"P", "QQ", ""};
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
// 0: an exception is due, 1: the text is due, 2: either
static int due(const Fmt& r, int nargs, String& out) {
  bool any = false; int next = 0, i = 0;
  while (i < r.n) { unsigned char c = r.b[i];
    if (c == '{') {
      if (i + 1 < r.n && r.b[i + 1] == '{') { out.PushBack(C('{')); i += 2; continue; }
      int e = i + 1; while (e < r.n && r.b[e] != '}') { if (r.b[e] == '{') return 0; ++e; }
      if (e == r.n) return 0;
      int k = i + 1, v = 0; bool idx = false; while (k < e && digit(r.b[k])) { v = v * 10 + (r.b[k] - '0'); if (v > 1000) v = 1000; idx = true; ++k; }
      if (idx) { if (v >= nargs) return 0; }
      else if (nargs == 0) return 0;
      else if (nargs == 1) v = 0;
      else { if (next >= nargs) return 0; v = next++; }
      if (k == e || (r.b[k] == ':' && (k + 1 == e || (k + 2 == e && (r.b[k + 1] == 's' || r.b[k + 1] == 'd'))))) out = cat(out, S(A[v])); else any = true;
      i = e + 1;
    } else if (c == '}') { if (i + 1 < r.n && r.b[i + 1] == '}') { out.PushBack(C('}')); i += 2; } else return 0; }
    else { out.PushBack(C(c)); ++i; } }
  return any ? 2 : 1; }
static void go(const Fmt& r, int nargs) { String want; int d = due(r, nargs, want); String f = txt(r), got; bool threw = false;
  try { if (nargs == 0) got = String::Format(f); else if (nargs == 1) got = String::Format(f, S(A[0])); else if (nargs == 2) got = String::Format(f, S(A[0]), S(A[1])); else got = String::Format(f, S(A[0]), S(A[1]), S(A[2])); } catch (const std::exception&) { threw = true; }
  if (d == 0) vp_assert(threw, "unbalanced braces and fields without an argument throw");
  if (d == 1) { vp_assert(!threw, "a format string with an argument for every field is accepted"); if (!threw) vp_assert(eq(got, want), "fields are replaced by their arguments and the rest is copied"); }
  vp_assert(eq(f, txt(r)), "formatting leaves the format string alone"); vp_reach("end"); }
static Fmt cutn(Fmt r, int n) { r.n = n; return r; }
extern "C" {
'''
T = [("{}", 1), ("a{}b{}c", 2), ("{0}{1}", 2), ("{{{}}}", 1), ("{1}-{0}", 2), ("{:5}", 1), ("{0:>4}", 1), ("{:*^7}", 1), ("{:.2f}", 1), ("{}{0}{}", 2), ("{2}", 3), ("{{}}", 0), ("{:<3d}|{:s}", 2), ("{}{}{}", 3), ("{}}}{{{}", 2), ("{10}", 2), ("{: >2}", 1)]
FIXED = ["{", "}", "{{", "}}", "{}", "{}{}", "{}{}{}", "{}{}{}{}", "{0}", "{1}", "{2}", "{3}", "{0}{0}", "{}{1}", "{1}{}", "{0", "{}}", "{{}", "}{", "{ {}", "{a{0}", "{0{}", "{:", "{:}", "{:s}", "{:d}", "{0:}", "{1:}", "{:}{:}", "{:}{:}{:}", "{:}{}", "{}{:}{0}", "{99999999999999999999999}", "{18446744073709551616}", "{4294967296}", "{2147483648}", "{00}", "{01}", "{-1}", "{+0}", "{ 0}", "{0 }", "{a}", "{a}{}", "{}{a}{}", "{{{{", "}}}}", "{{{", "}}}", "{{{}}}", "{{{{{}}}}}", "a{{b}}c", "{:{}}", "{:}}", "{:.}", "{:.f}", "{:<}", "{:>", "{:^", "{:x<}", "{:x", "{:.99999999999f}", "{:.2147483648f}", "{:99999999999999999999999}", "{0:.9f", "{:f}", "{:.0f}", "{:.3s}", "x{", "x}", "{x", "é", "é{}é", "{é}", "{:é<3}", "{:é", "٠", "{٠}", "{0٠}", "{:٠}", "{:.٠f}", "{:5٠}"]


def cstr(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\?' else "".join("\\%03o" % b for b in c.encode()) for c in s) + '"'


def src(thorough=False):
    o = [HEAD]
    for n in range(4 if thorough else 3):
        for a in range(3):
            o.append('void t_any_%d_%d() { Fmt r; r.n = %d; %s go(r, %d); }\n' % (n, a, n, " ".join('r.b[%d] = %s("x%d");' % (i, "sel" if n < 2 else "few", i) for i in range(n)), a))
    o.append('void t_open_3() { Fmt r = lit("{xy"); r.b[1] = few("x"); r.b[2] = few("y"); go(r, 1); }\nvoid t_open_4() { Fmt r = lit("{xy}"); r.b[1] = few("x"); r.b[2] = few("y"); go(r, 2); }\nvoid t_col_4() { Fmt r = lit("{:xy}"); r.b[2] = few("x"); r.b[3] = few("y"); go(r, 1); }\n')
    for k, (t, n) in enumerate(T):
        for a in sorted({n, max(0, n - 1), 0, n + 1 if n < 3 else 3}):
            o.append('void t_full_%d_%d() { go(lit(%s), %d); }\n' % (k, a, cstr(t), a))
        for i in range(len(t)):
            o.append('void t_var_%d_%d() { Fmt r = lit(%s); r.b[%d] = sel("x"); go(r, %d); }\nvoid t_cut_%d_%d() { go(cutn(lit(%s), %d), %d); }\n' % (k, i, cstr(t), i, n, k, i, cstr(t), i, n))
            if n > 1 and thorough:
                o.append('void t_less_%d_%d() { Fmt r = lit(%s); r.b[%d] = sel("x"); go(r, %d); }\n' % (k, i, cstr(t), i, n - 1))
    for k, t in enumerate(FIXED):
        for a in range(4):
            if any(ord(c) > 127 for c in t):
                o.append('void t_wide_%d_%d() { const char* t = %s; String f(t); bool threw = false; try { String g = %s; (void)g; } catch (const std::exception&) { threw = true; } %s vp_reach("end"); }\n' % (k, a, cstr(t), ["String::Format(f)", "String::Format(f, S(A[0]))", "String::Format(f, S(A[0]), S(A[1]))", "String::Format(f, S(A[0]), S(A[1]), S(A[2]))"][a], 'vp_assert(!threw, "text without braces is copied");' if "{" not in t else ""))
            else:
                o.append('void t_fix_%d_%d() { go(lit(%s), %d); }\n' % (k, a, cstr(t), a))
    o.append('void t_kinds() { String g = String::Format(S("{}|{}|{}|{}"), 5, S("x"), -12l, 7u); vp_assert(eq(g, S("5|x|-12|7")), "arguments of every kind are written"); vp_reach("end"); }\n')
    o.append('void t_kinds_less() { bool threw = false; try { String g = String::Format(S("{}|{}|{}|{}|{}"), 5, S("x"), -12l, 7u); } catch (const std::exception&) { threw = true; } vp_assert(threw, "fields without an argument throw"); vp_reach("end"); }\n')
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    fmt.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "format", src(ctx.tier == "thorough"), cfg)
    drv.reached(ctx, res, 400)
