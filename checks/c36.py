"""C36: unescaping decodes escapes and leaves the rest alone."""
import drv, nstr, c17
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR, strings, vectors and code point conversion from their own source, strtoul from its definition) of unescaping: texts of arbitrary characters up to the bound, "
               "unicode escapes with every digit position arbitrary and truncated at every place, characters of every encoded length; the decoded text is compared with the grammar of escapes written out over the characters.")
ASSUMPTIONS = ["texts of up to 4 arbitrary one-byte characters, unicode escapes with one arbitrary digit at a time next to fixed ones, stand for longer ones"]
HEAD = c17.HEAD.replace("c >= 1 && c < 128", "c < 128").replace('extern "C" {\n', r'''
extern "C" unsigned long strtoul(const char* p, char** e, int base) noexcept {
  unsigned long v = 0; const char* q = p; bool neg = false;
  while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
  if (*q == '-') { neg = true; ++q; } else if (*q == '+') ++q;
  if (base == 16 && q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) q += 2;
  const char* b = q;
  for (;; ++q) { int d; if (*q >= '0' && *q <= '9') d = *q - '0'; else if (*q >= 'a' && *q <= 'f') d = *q - 'a' + 10; else if (*q >= 'A' && *q <= 'F') d = *q - 'A' + 10; else break; if (d >= base) break; v = v * base + d; }
  if (e) *e = (char*)(q == b ? p : q);
  return neg ? -v : v;
}
struct Out { int n; Char c[8]; void put(unsigned char b) { c[n++] = C(b); } };
// the character that a short escape denotes, 0 if it denotes none
static unsigned char shortesc(unsigned char b) { switch (b) { case '"': return '"'; case '?': return '?'; case '\\': return '\\'; case '/': return '/'; case 'a': return 7; case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'v': return 11; } return 0; }
static int hexd(unsigned char b) { if (b >= '0' && b <= '9') return b - '0'; if (b >= 'a' && b <= 'f') return b - 'a' + 10; if (b >= 'A' && b <= 'F') return b - 'A' + 10; return -1; }
static Char enc(unsigned v) { Char r;
  if (v < 0x80) r.data_.push_back((char)v);
  else if (v < 0x800) { r.data_.push_back((char)(0xC0 + v / 64)); r.data_.push_back((char)(0x80 + v % 64)); }
  else { r.data_.push_back((char)(0xE0 + v / 4096)); r.data_.push_back((char)(0x80 + v / 64 % 64)); r.data_.push_back((char)(0x80 + v % 64)); }
  return r; }
static void want(const Raw& r, Out& o) { o.n = 0;
  for (int i = 0; i < r.n; ++i) {
    if (r.b[i] == '\\' && i + 1 < r.n) {
      unsigned char e = shortesc(r.b[i + 1]);
      if (e) { o.put(e); ++i; continue; }
      if (r.b[i + 1] == 'u' && i + 5 < r.n) { int v = 0; bool ok = true; for (int k = 2; k < 6; ++k) { int d = hexd(r.b[i + k]); if (d < 0) { ok = false; break; } v = v * 16 + d; }
        if (ok && (v < 0xD800 || v > 0xDFFF)) { o.c[o.n++] = enc(v); i += 5; continue; } }
      o.put(r.b[i]); o.put(r.b[i + 1]); ++i; continue;      // unknown and incomplete escapes are copied
    }
    o.put(r.b[i]);
  } }
static void check(const Raw& r) { String s = mk(r); Out o; want(r, o); String t = EscapeString(s); same(s, r, "unescaping leaves its argument alone");
  vp_assert(t.data_.size() == (unsigned long)o.n, "every escape and every other character yields its text once"); for (int i = 0; i < o.n; ++i) vp_assert(t.data_[i].data_ == o.c[i].data_, "escapes are decoded and the rest is copied"); vp_reach("end"); }
static Raw lit(const char* t) { Raw r; r.n = 0; while (*t) r.b[r.n++] = (unsigned char)*t++; return r; }
static Raw arb(Raw r, int i) { unsigned char x = byte("x"); const char* d = "0123456789abcdefABCDEF"; for (int k = 0; k < 22; ++k) if (x == (unsigned char)d[k]) { r.b[i] = d[k]; return r; } r.b[i] = x; return r; }
extern "C" {
''')
U = ["0041", "00e9", "00E9", "20ac", "D83D", "d800", "dfff", "DBFF", "D7FF", "e000", "ffff", "0000", "7fff", "0800", "07ff", "0x1a", " 12a", "+12a", "-001"]


def src(N=3):
    o = [HEAD]
    for n in range(N + 1):
        o.append('void t_any_%d() { check(RS(%d)); }\n' % (n, n))
    o.append('void t_esc() { Raw r = lit("\\\\x"); check(arb(r, 1)); }\n')
    o.append('void t_esc2() { Raw r = lit("a\\\\xb"); check(arb(r, 2)); }\n')
    o.append('void t_esc3() { Raw r = lit("\\\\\\\\x"); check(arb(r, 2)); }\n')
    for k, u in enumerate(U):
        o.append('void t_uni_%d() { check(lit("\\\\u%s")); }\nvoid t_uniz_%d() { check(lit("a\\\\u%sz")); }\n' % (k, u, k, u))
        if k in (0, 1, 3, 4):
            for i in range(4):
                o.append('void t_unix_%d_%d() { Raw r = lit("\\\\u%s"); check(arb(r, %d)); }\n' % (k, i, u, 2 + i))
    for k in range(4):
        o.append('void t_trunc_%d() { check(lit("a\\\\u%s")); }\nvoid t_truncx_%d() { Raw r = lit("\\\\u%sx"); check(arb(r, %d)); }\n' % (k, "1234"[:k], k, "123"[:k], 2 + k))
    for k, (nm, b) in enumerate([("c2", "\\xc3\\xa9"), ("c3", "\\xe2\\x82\\xac"), ("c4", "\\xf0\\x9f\\x98\\x80")]):
        # characters of several bytes are copied, also after a reverse solidus and inside a unicode escape
        o.append('''void t_wide_%s() { Char w; w.data_ = "%s"; Raw r = lit("\\\\u004"); String s; s.data_.push_back(w); s.data_.push_back(C('\\\\')); s.data_.push_back(w); for (int i = 0; i < r.n; ++i) s.data_.push_back(C(r.b[i])); s.data_.push_back(w);
  String t = EscapeString(s); vp_assert(t.data_.size() == s.data_.size(), "characters of several bytes are copied"); for (unsigned long i = 0; i < s.data_.size() && i < t.data_.size(); ++i) vp_assert(t.data_[i].data_ == s.data_[i].data_, "characters of several bytes are copied"); vp_reach("end"); }
''' % (nm, b))
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    r = c17.cfg(eng, run, entry)
    eng.UNROLL = 24
    return r


def run(ctx):
    mod, res = drv.settle(ctx, "unescape", src(4 if ctx.tier == "thorough" else 3), cfg)
    drv.reached(ctx, res, 60)
