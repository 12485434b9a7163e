"""Driver vocabulary for the checks about formatting."""
import nstr, hashtab, ir, c17
from interp import ret
from dom import const

HEAD = c17.HEAD.replace("c >= 1 && c < 128", "c < 128").replace('extern "C" {\n', r'''
extern "C" unsigned long strtoul(const char* p, char** e, int base) noexcept {
  unsigned long v = 0; const char* q = p; bool neg = false, over = false;
  while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
  if (*q == '-') { neg = true; ++q; } else if (*q == '+') ++q;
  const char* b = q;
  for (; *q >= '0' && *q <= '9'; ++q) if (__builtin_mul_overflow(v, 10ul, &v) || __builtin_add_overflow(v, (unsigned long)(*q - '0'), &v)) over = true;
  if (e) *e = (char*)(q == b ? p : q);
  if (over) { errno = ERANGE; return ~0ul; }
  return neg ? -v : v;
}
extern "C" long strtol(const char* p, char** e, int base) noexcept {
  long v = 0; const char* q = p; bool neg = false, over = false;
  while (*q == ' ' || (*q >= 9 && *q <= 13)) ++q;
  if (*q == '-') { neg = true; ++q; } else if (*q == '+') ++q;
  const char* b = q;
  for (; *q >= '0' && *q <= '9'; ++q) if (__builtin_mul_overflow(v, 10l, &v) || __builtin_sub_overflow(v, (long)(*q - '0'), &v)) over = true;
  if (e) *e = (char*)(q == b ? p : q);
  if (over || (!neg && v == (-9223372036854775807l - 1))) { errno = ERANGE; return neg ? (-9223372036854775807l - 1) : 9223372036854775807l; }
  return neg ? v : -v;
}
struct Fmt { int n; unsigned char b[40]; };
static Fmt lit(const char* t) { Fmt r; r.n = 0; while (*t) r.b[r.n++] = (unsigned char)*t++; return r; }
// an arbitrary character, by cases where the scanner distinguishes them
static unsigned char sel(const char* n) { unsigned char x = byte(n); const char* d = "0123456789{}:<>^.sdf"; for (int k = 0; k < 20; ++k) if (x == (unsigned char)d[k]) return d[k]; return x; }
static unsigned char few(const char* n) { unsigned char x = byte(n); const char* d = "{}:02<.f"; for (int k = 0; k < 8; ++k) if (x == (unsigned char)d[k]) return d[k]; return 'x'; }
static String txt(const Fmt& r) { std::vector<Char> v; v.reserve(r.n); for (int i = 0; i < r.n; ++i) v.push_back(C(r.b[i])); String s; s.data_.swap(v); return s; }
static String S(const char* t) { return txt(lit(t)); }
static String rep(String s, int n, const Char& c) { for (int i = 0; i < n; ++i) s.PushBack(c); return s; }
static String cat(String a, const String& b) { for (unsigned long i = 0; i < b.data_.size(); ++i) a.PushBack(b.data_[i]); return a; }
static bool eq(const String& a, const String& b) { if (a.data_.size() != b.data_.size()) return false; for (unsigned long i = 0; i < a.data_.size(); ++i) if (a.data_[i].data_ != b.data_[i].data_) return false; return true; }
extern "C" {
''')


def number(e, st, a, i, f):
    """std::to_string of an integer, or of a known floating-point number."""
    d = e.mod.dem(f.name)
    t = d[d.rindex("(") + 1:-1]
    if t in ("float", "double", "long double"):
        x = nstr.fconst(e.fterm(a[1]))
        if x is None:
            return None
        nstr.build(e, st, a[0], [nstr.N(8, ord(c)) for c in "%f" % x])
        return ret(st)
    out = []
    for s, items in nstr.digits(e, st, a[1], "unsigned" not in t):
        s = s.copy()
        nstr.build(e, s, a[0], items)
        out += ret(s)
    return out


def cfg(eng, run, entry):
    nstr.install(eng)
    hashtab.install(eng)
    eng.hook(r"^std::__cxx11::to_string\(", number)
    eng.UNROLL = 48
    eng.MAXSTEPS = 8000000
