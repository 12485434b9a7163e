"""C20: Formatted fields honour fill, alignment, width and precision."""
import drv, fmt, c19
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR; strings and vectors from their own source, strtoul and strtol from their definition) of formatting one field: every alignment with an arbitrary fill character, widths below, at and above the length of contents of up to four arbitrary characters of one to four bytes, "
               "automatic and indexed fields; the text is compared with content and padding written out. Floating fields with each precision up to nine and above: the number of digits after the point is counted and the integral part compared.")
ASSUMPTIONS = ["contents of up to 4 characters and widths of up to two digits stand for larger ones", "std::to_string of a floating-point number is its notation with six decimals"]
HEAD = fmt.HEAD.rsplit('extern "C" {', 1)[0] + r'''
static Char any(const char* n, int len) { if (len == 1) { Char c; c.data_.push_back((char)byte(n)); return c; } unsigned char t = vp_u8(n); vp_assume(t >= 0x80 && t <= 0xBF); Char c; c.data_ = std::string(len == 2 ? "\xC3" : len == 3 ? "\xE2\x82" : "\xF0\x9F\x98"); c.data_.push_back((char)t); return c; }
static String content(int n) { String s; if (n > 0) s.PushBack(any("c0", 1)); if (n > 1) s.PushBack(any("c1", 3)); if (n > 2) s.PushBack(any("c2", 1)); if (n > 3) s.PushBack(any("c3", 4)); return s; }
static String join(const String& a, const Char& f, const String& b) { String r(a); r.PushBack(f); return cat(r, b); }
static String pad(const String& s, char al, unsigned long w, const Char& f) { unsigned long n = s.data_.size(), p = w > n ? w - n : 0, before = al == '>' ? p : al == '^' ? p / 2 : 0; String r; r = rep(r, (int)before, f); r = cat(r, s); return rep(r, (int)(p - before), f); }
static void field(const String& f, const String& s, char al, unsigned long w, const Char& fill) { String x; x.PushBack(C('<')); x = cat(x, pad(s, al, w, fill)); x.PushBack(C('>'));
  String g = String::Format(f, s); vp_assert(eq(g, x), "a field is its content with the fill on the side of the alignment"); vp_reach("end"); }
static const Char& blank() { static Char c = C(' '); return c; }
// the text of a floating field
static void number(const String& t, double v, int prec, int width) { int i = 0, n = (int)t.data_.size(); char b[60]; for (int k = 0; k < n; ++k) { vp_assert(t.data_[k].data_.size() == 1, "a floating field is a number"); b[k] = t.data_[k].data_[0]; }
  if (n < width) vp_assert(false, "a field is at least as wide as requested");
  while (i < n && b[i] == ' ') ++i;
  int end = n; while (end > i && b[end - 1] == ' ') --end;
  if (width && n > width) vp_assert(end - i == n, "a field is as wide as requested if its content is shorter");
  bool neg = false; if (i < end && b[i] == '-') { neg = true; ++i; }
  long ip = 0; int d = 0; for (; i < end && b[i] >= '0' && b[i] <= '9'; ++i, ++d) ip = ip * 10 + (b[i] - '0');
  vp_assert(d > 0, "a floating field has an integral part"); vp_assert(neg == (v < 0), "a floating field has the sign of its number"); vp_assert(ip == (long)(v < 0 ? -v : v), "a floating field has the integral part of its number");
  int fr = 0; long fv = 0, sc = 1; if (i < end && b[i] == '.') { ++i; vp_assert(prec != 0, "precision zero has no point"); for (; i < end && b[i] >= '0' && b[i] <= '9'; ++i, ++fr) if (fr < 6) { fv = fv * 10 + (b[i] - '0'); sc *= 10; } }
  vp_assert(i == end, "a floating field is one number"); vp_assert(fr == prec, "a floating field has exactly the requested digits after the point");
  double a = v < 0 ? -v : v; a = a - (double)ip; double x = (double)fv; a = a * (double)sc; vp_assert(x - a <= 1.0 && a - x <= 1.0, "the digits after the point are those of the number"); vp_reach("end"); }
extern "C" {
'''
FL = ["1.5", "64.932698", "-64.932698", "0.25", "-0.125", "123456.789", "3.0", "0.0", "100.0", "-7.25"]


def src(thorough=False):
    o = [HEAD]
    for n in range(5):
        for w in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12) + ((9, 10, 11, 25) if thorough else ()):
            if not thorough and n in (2, 3) and w in (1, 8, 7):
                continue
            for al, nm in (("<", "l"), (">", "r"), ("^", "c")):
                # arbitrary fill; a brace cannot be one
                o.append('void t_fill_%d_%d_%s() { String s = content(%d); Char f = C(byte("f")); vp_assume(f.data_[0] != \'{\' && f.data_[0] != \'}\'); String p = join(S("<{:"), f, S("%s%d}>")); field(p, s, \'%s\', %d, f); }\n' % (n, w, nm, n, al, w, al, w))
                if w in (0, 3, 4, 7, 12):
                    o.append('void t_plain_%d_%d_%s() { String s = content(%d); field(S("<{0:%s%d}>"), s, \'%s\', %d, blank()); }\n' % (n, w, nm, n, al, w, al, w))
            o.append('void t_deflt_%d_%d() { String s = content(%d); field(S("<{:%d}>"), s, \'<\', %d, blank()); }\n' % (n, w, n, w, w))
    # fill characters that have a meaning elsewhere, or several bytes
    for k, f in enumerate(["<", ">", "^", "0", "5", ":", ".", "s", "é", "€", "😀", "d", "f"]):
        for al, nm in (("<", "l"), (">", "r"), ("^", "c")):
            o.append('void t_odd_%d_%s() { String s = content(2); Char f; f.data_ = std::string(%s); String p = join(S("<{:"), f, S("%s6s}>")); field(p, s, \'%s\', 6, f); }\n' % (k, nm, c19.cstr(f), al, al))
    for nm, t in (("s", "s"), ("d", "d")):
        o.append('void t_type_%s() { String s = content(3); field(S("<{:*^9%s}>"), s, \'^\', 9, C(\'*\')); }\n' % (nm, t))
    o.append('void t_int_r() { long i = vp_s64("i"); vp_assume(i >= -120 && i <= 120); String g = String::Format(S("{:>6d}"), i); String w; { String d; long a = i < 0 ? -i : i; if (a >= 100) d.PushBack(C((unsigned char)(\'0\' + a / 100))); if (a >= 10) d.PushBack(C((unsigned char)(\'0\' + a / 10 % 10))); d.PushBack(C((unsigned char)(\'0\' + a % 10))); String e; if (i < 0) e.PushBack(C(\'-\')); w = pad(cat(e, d), \'>\', 6, blank()); } vp_assert(g.data_.size() == w.data_.size(), "a number is padded to the width"); vp_assert(eq(g, w), "a number is padded on the side of the alignment"); vp_reach("end"); }\n')
    # two fields do not disturb each other
    o.append('void t_two() { String a = content(2), b = content(1), x = cat(cat(pad(a, \'>\', 4, C(\'-\')), S("|")), cat(pad(b, \'^\', 4, blank()), S("|"))); x = cat(x, b); String g = String::Format(S("{:->4}|{:^4}|{1}"), a, b); vp_assert(eq(g, x), "every field has its own fill, alignment and width"); vp_reach("end"); }\n')
    o.append('void t_again() { String a = content(2), x = cat(cat(pad(a, \'>\', 4, C(\'-\')), S("|")), pad(a, \'<\', 4, blank())); String g = String::Format(S("{0:->4}|{0:4}"), a); vp_assert(eq(g, x), "every field has its own fill, alignment and width"); vp_reach("end"); }\n')
    for k, v in enumerate(FL):
        for p in (0, 1, 2, 3, 5, 6, 7, 9, 12) + ((4, 8, 10, 11, 20) if thorough else ()):
            if p == 0 and v in ("0.5",):
                continue
            if p < 4 and v in ("64.932698", "-64.932698", "123456.789", "1.5") and p == 0:
                o.append('void t_flt_%d_0() { String t = String::Format(S("{:.0f}"), %s); vp_assert(t.Find(S(".")) == NP, "precision zero has no point"); vp_reach("end"); }\n' % (k, v))
                continue
            o.append('void t_flt_%d_%d() { String t = String::Format(S("{:.%df}"), %s); number(t, %s, %d, 0); }\n' % (k, p, p, v, v, p))
            if p in (1, 2, 7):
                o.append('void t_fltw_%d_%d() { String t = String::Format(S("{:>14.%df}"), %s); number(t, %s, %d, 14); vp_assert(t.data_.size() == 14, "a field is exactly as wide as requested"); vp_assert(t.data_[13].data_[0] != \' \', "a right-aligned field ends with its content"); }\n' % (k, p, p, v, v, p))
        o.append('void t_fltf_%d() { float x = %sf; String t = String::Format(S("{0:.1f}"), x); number(t, %s, 1, 0); }\n' % (k, v, v) if float(v) != 123456.789 else "")
    # digits of the content are kept, whatever they are
    o.append('void t_intf() { String t = String::Format(S("{:.3f}"), 5); number(t, 5.0, 3, 0); }\nvoid t_intf0() { String t = String::Format(S("{:.0f}"), -12); number(t, -12.0, 0, 0); }\n')
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    fmt.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "field", src(ctx.tier == "thorough"), cfg)
    drv.reached(ctx, res, 250)
