"""Driver vocabulary for the checks about JSON texts: texts of known length with arbitrary
characters, a reference recogniser of the grammar and the C functions the parser relies on."""
import re
import drv, nstr, hashtab, jsonsrc, ir
from interp import ret

HEAD = jsonsrc.NATIVE.rsplit('extern "C" {', 1)[0] + r'''
static int dig(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return 99; }
extern "C" long long strtoll(const char* p, char** e, int base) noexcept {
  long long v = 0; const char* q = p; bool neg = false, over = false;
  while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
  if (*q == '-') { neg = true; ++q; } else if (*q == '+') ++q;
  const char* b = q;
  for (; dig(*q) < base; ++q) if (__builtin_mul_overflow(v, (long long)base, &v) || (neg ? __builtin_sub_overflow(v, (long long)dig(*q), &v) : __builtin_add_overflow(v, (long long)dig(*q), &v))) over = true;
  if (e) *e = (char*)(q == b ? p : q);
  if (over) { errno = ERANGE; return neg ? (-9223372036854775807ll - 1) : 9223372036854775807ll; }
  return v;
}
extern "C" double strtod(const char* p, char** e) noexcept {
  double v = 0; const char* q = p; bool neg = false;
  while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
  if (*q == '-') { neg = true; ++q; } else if (*q == '+') ++q;
  int n = 0, x = 0; bool known = true; const char* b = q;
  for (; *q >= '0' && *q <= '9'; ++q, ++n) v = v * 10 + (*q - '0');
  if (*q == '.') { ++q; double s = 1; for (; *q >= '0' && *q <= '9'; ++q, ++n) { s = s / 10; v = v + s * (*q - '0'); } }
  if (n == 0) { if (e) *e = (char*)p; return 0; }
  if (*q == 'e' || *q == 'E') { const char* r = q + 1; bool xn = false; if (*r == '-') { xn = true; ++r; } else if (*r == '+') ++r;
    if (*r >= '0' && *r <= '9') { for (; *r >= '0' && *r <= '9'; ++r) x = x * 10 + (*r - '0'); q = r;
      if (x > 400) { if (e) *e = (char*)q; errno = ERANGE; return xn ? 0 : HUGE_VAL; }
      for (; x > 0; --x) v = xn ? v / 10 : v * 10; } }
  (void)known; (void)b;
  if (e) *e = (char*)q;
  return neg ? -v : v;
}
static const int MAX = 60;
struct Raw { int n; unsigned char b[MAX]; };
static unsigned char byte(const char* n) { unsigned char c = vp_u8(n); vp_assume(c < 128); return c; }
static Raw lit(const char* t) { Raw r; r.n = 0; while (*t) r.b[r.n++] = (unsigned char)*t++; return r; }
static Raw litn(const char* t, int n) { Raw r; r.n = 0; while (r.n < n) r.b[r.n++] = (unsigned char)*t++; return r; }
static Raw arb(Raw r, int i, const char* n) { r.b[i] = byte(n); return r; }
static Raw put(Raw r, int i, unsigned char c) { for (int k = r.n; k > i; --k) r.b[k] = r.b[k - 1]; r.b[i] = c; r.n++; return r; }
static Raw cut(Raw r, int i) { for (int k = i; k + 1 < r.n; ++k) r.b[k] = r.b[k + 1]; r.n--; return r; }
// a hexadecimal digit by cases, or any other character
static unsigned char hexcase(const char* n) { unsigned char x = byte(n); const char* d = "0123456789abcdefABCDEF"; for (int k = 0; k < 22; ++k) if (x == (unsigned char)d[k]) return d[k]; return x; }
static Char C(unsigned char b) { Char r; r.data_ = std::string(1, (char)b); return r; }
static String txt(const Raw& r) { std::vector<Char> v; v.reserve(r.n); for (int i = 0; i < r.n; ++i) v.push_back(C(r.b[i])); String s; s.data_.swap(v); return s; }
// reference recogniser
struct Rec { const unsigned char* b; int n; int p; bool strict;
  bool end() { return p >= n; }
  bool ws(unsigned char c) { return c == ' ' || c == 10 || c == 13 || c == 9 || (!strict && (c == 11 || c == 12)); }
  void sp() { while (p < n && ws(b[p])) ++p; }
  bool is(unsigned char c) { return p < n && b[p] == c; }
  bool eat(unsigned char c) { if (!is(c)) return false; ++p; return true; }
  bool word(const char* w) { int k = 0; for (; w[k]; ++k) if (p + k >= n || b[p + k] != (unsigned char)w[k]) return false; p += k; return true; }
  bool hex4(unsigned& v) { v = 0; for (int k = 0; k < 4; ++k, ++p) { if (p >= n) return false; int d = dig((char)b[p]); if (d > 15) return false; v = v * 16 + d; } return true; }
  bool str() { if (!eat('"')) return false;
    for (;;) { if (end()) return false; unsigned char c = b[p++]; if (c == '"') return true; if (strict && c < 0x20) return false;
      if (c != '\\') continue;
      if (end()) return false; unsigned char e = b[p++];
      if (e == 'u') { unsigned v, w; if (!hex4(v)) return false; if (v >= 0xDC00 && v <= 0xDFFF) return false; if (v >= 0xD800 && v <= 0xDBFF) { if (!eat('\\') || !eat('u') || !hex4(w) || w < 0xDC00 || w > 0xDFFF) return false; } continue; }
      if (e != '"' && e != '\\' && e != '/' && e != 'b' && e != 'f' && e != 'n' && e != 'r' && e != 't') return false; } }
  bool digits() { int k = 0; while (p < n && b[p] >= '0' && b[p] <= '9') { ++p; ++k; } return k > 0; }
  bool run(unsigned char c) { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-'; }
  bool num() { // the longest run of number characters has to be one number
    int q = p; while (q < n && run(b[q])) ++q;
    int k = 0; if (is('-')) ++p; else if (!strict && is('+')) ++p;
    if (strict && is('0')) { ++p; k = 1; } else while (p < n && b[p] >= '0' && b[p] <= '9') { ++p; ++k; }
    if (is('.')) { ++p; int f = 0; while (p < n && b[p] >= '0' && b[p] <= '9') { ++p; ++f; } if (strict && (f == 0 || k == 0)) return false; k += f; }
    if (k == 0) return false;
    if (is('e') || is('E')) { ++p; if (is('+') || is('-')) ++p; if (!digits()) return false; }
    return p == q; }
  bool value(int depth) { sp(); if (end() || depth > 8) return false;
    unsigned char c = b[p];
    if (c == '"') return str();
    if (c == '{') return object(depth + 1);
    if (c == '[') return array(depth + 1);
    if (c == 't') return word("true");
    if (c == 'f') return word("false");
    if (c == 'n') return word("null");
    if ((c >= '0' && c <= '9') || c == '-' || c == '+') return num();
    return false; }
  bool object(int d) { if (!eat('{')) return false; sp(); if (eat('}')) return true;
    for (;;) { sp(); if (!str()) return false; sp(); if (!eat(':')) return false; if (!value(d)) return false; sp(); if (eat('}')) return true; if (!eat(',')) return false; } }
  bool array(int d) { if (!eat('[')) return false; sp(); if (eat(']')) return true;
    for (;;) { if (!value(d)) return false; sp(); if (eat(']')) return true; if (!eat(',')) return false; } }
};
static bool whole(const Raw& r, bool strict) { Rec g = {r.b, r.n, 0, strict}; g.sp(); if (!g.is('{')) return false; if (!g.object(0)) return false; g.sp(); return g.end(); }
extern "C" {
'''


def strtod(e, st, a, i, f):
    """strtod of a known text: the correctly rounded value."""
    t, k = "", 0
    while k < 60:
        b = nstr.one(e, st, nstr.at(e, a[0], k), ir.I8)
        if b[0] != "n" or b[3]:
            return None
        if b[2] == 0:
            break
        t += chr(b[2] & 255)
        k += 1
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", t)
    if not m or re.match(r"\s*[+-]?0[xX]", t):
        return None
    v = float(m.group(1))
    if v in (float("inf"), float("-inf")) or (v == 0 and re.search("[1-9]", re.split("[eE]", m.group(1))[0])):
        return None
    if a[1][0] == "p":
        e.store(st, a[1], nstr.at(e, a[0], m.end()), ir.PTR)
    return ret(st, ("f", ("k", v)))


def cfg(eng, run, entry):
    nstr.install(eng)
    eng.hook(r"^strtod$", strtod)
    hashtab.install(eng)
    eng.UNROLL = 24
    eng.MAXREC = 10
    eng.MAXSTEPS = 8000000


def q(s):
    """A C++ string literal of a text."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
