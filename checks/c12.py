"""C12: JSON string escapes are read back as the characters they denote."""
import drv, jsontext
from jsontext import q
from harness import *
LEVEL = "other"
EXPLANATION = ("Definite-result analysis (path-sensitive abstract interpretation of clang IR, strings, vectors and code point conversion from their own source) of reader and writer of JSON strings: every character after a reverse solidus, every digit position of unicode escapes and surrogate pairs arbitrary in turn, "
               "compared with the table of escapes and the UTF-8 encoding; every one-byte character and every trailing byte written and read back, as value and as key.")
ASSUMPTIONS = ["strings with one arbitrary character next to fixed ones stand for longer ones"]
HEAD = jsontext.HEAD.rsplit('extern "C" {', 1)[0] + r'''
static unsigned char shortesc(unsigned char b) { switch (b) { case '"': return '"'; case '\\': return '\\'; case '/': return '/'; case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; } return 0; }
static std::string enc(unsigned v) { std::string r;
  if (v < 0x80) r.push_back((char)v);
  else if (v < 0x800) { r.push_back((char)(0xC0 + v / 64)); r.push_back((char)(0x80 + v % 64)); }
  else if (v < 0x10000) { r.push_back((char)(0xE0 + v / 4096)); r.push_back((char)(0x80 + v / 64 % 64)); r.push_back((char)(0x80 + v % 64)); }
  else { r.push_back((char)(0xF0 + v / 262144)); r.push_back((char)(0x80 + v / 4096 % 64)); r.push_back((char)(0x80 + v / 64 % 64)); r.push_back((char)(0x80 + v % 64)); }
  return r; }
// parses a string; the result is the text, or that there was an error
static bool read(const Raw& r, String& out) { String s = txt(r); Json::__Detail::JsonParser p(s); J v = p.ParseValue(); if (p.HasError()) return false; vp_assert(p.position_ == s.size(), "the string ends at its quotation mark"); vp_assert(v.type_ == JsonClass::String, "a string is read as one"); out = v.data_.string_value; return true; }
static void one(const String& t, const std::string& c, bool a, bool b) { vp_assert(t.data_.size() == (unsigned long)(1 + a + b), "an escape denotes one character"); if (t.data_.size() == (unsigned long)(1 + a + b)) { vp_assert(t.data_[a].data_ == c, "the escape denotes its character"); if (a) vp_assert(t.data_[0].data_ == "a", "the text before an escape is kept"); if (b) vp_assert(t.data_[1 + a].data_ == "b", "the text after an escape is kept"); } }
static void uni(const Raw& r, int at, bool a, bool b) { unsigned v = 0, w = 0; bool ok = true; for (int k = 0; k < 4; ++k) { int d = dig((char)r.b[at + k]); if (d > 15) { ok = false; break; } v = v * 16 + d; }
  if (ok && v >= 0xDC00 && v <= 0xDFFF) ok = false;
  if (ok && v >= 0xD800 && v <= 0xDBFF) { if (at + 10 > r.n || r.b[at + 4] != '\\' || r.b[at + 5] != 'u') ok = false; for (int k = 6; ok && k < 10; ++k) { int d = dig((char)r.b[at + k]); if (d > 15) { ok = false; break; } w = w * 16 + d; } if (ok && (w < 0xDC00 || w > 0xDFFF)) ok = false; if (ok) v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00); }
  else if (ok && r.b[at + 4] == '\\') ok = false;   // a low surrogate on its own
  String t; bool g = read(r, t); vp_assert(g == ok, "exactly the unicode escapes of characters are accepted"); if (g && ok) one(t, enc(v), a, b); vp_reach("end"); }
// writes a string as value and as key and reads it back
static void back(const String& s) { J v; v.SetType(JsonClass::String); v.data_.string_value = s; String t = v.ToString(); Json::__Detail::JsonParser p(t); J w = p.ParseValue(); vp_assert(!p.HasError() && p.position_ == t.size(), "a written string can be read"); vp_assert(w.type_ == JsonClass::String, "a written string is read as one"); if (w.type_ == JsonClass::String) same(w.data_.string_value, s, "a written string is read back as it was");
  for (unsigned long i = 1; i + 1 < t.data_.size(); ++i) { vp_assert(t.data_[i].data_.size() != 1 || (unsigned char)t.data_[i].data_[0] >= 0x20, "control characters are written as escapes"); }
  vp_reach("end"); }
static void backkey(const String& s) { J v = Json::MakeObject(); v[s] = (Int64)7; String t = v.ToString(); Json::__Detail::JsonParser p(t); J w = p.ParseValue(); vp_assert(!p.HasError() && p.position_ == t.size(), "a written key can be read"); vp_assert(w.type_ == JsonClass::Object && w.data_.object_value.size() == 1, "a written member is read as one"); if (w.type_ == JsonClass::Object && w.data_.object_value.size() == 1) same(w.data_.object_value[0].first, s, "a written key is read back as it was"); vp_reach("end"); }
static Char wide(int n, unsigned char a, unsigned char b, unsigned char c, unsigned char d) { Char r; r.data_.push_back((char)a); if (n > 1) r.data_.push_back((char)b); if (n > 2) r.data_.push_back((char)c); if (n > 3) r.data_.push_back((char)d); return r; }
static unsigned char cont(const char* n) { unsigned char c = vp_u8(n); vp_assume(c >= 0x80 && c <= 0xBF); return c; }
extern "C" {
'''


def src():
    o = [HEAD]
    for nm, t, i, a, b in (("mid", '"a\\xb"', 3, 1, 1), ("one", '"\\x"', 2, 0, 0), ("pre", '"a\\x"', 3, 1, 0)):
        o.append('''void t_short_%s() { unsigned char x = byte("x"); vp_assume(x != 'u'); Raw r = lit(%s); r.b[%d] = x; String t; bool g = read(r, t); unsigned char e = shortesc(x); vp_assert(g == (e != 0), "exactly the known escapes are accepted"); if (g && e) one(t, std::string(1, (char)e), %d, %d); vp_reach("end"); }
''' % (nm, q(t), i, a, b))
    for k, t in enumerate(['"a\\u0041b"', '"\\u00e9"', '"a\\u20AC"', '"\\uFFFFb"', '"a\\u0000b"', '"\\u07ff"', '"\\u0800"', '"\\uD7FF"', '"\\uE000"', '"\\uDC00"', '"\\uDFFF"', '"\\uD83D\\uDE00"', '"a\\uD800\\uDC00b"', '"\\uDBFF\\uDFFF"', '"\\uD83D"', '"\\uD83D\\n"', '"\\uD83D\\u0041"', '"\\uD83D\\uD83D"', '"\\uD800\\uE000"', '"a\\uDE00\\uD83D"']):
        at = t.index("u") + 1
        a, b = int("a\\u" in t), int(t.endswith('b"'))
        o.append('void t_uni_%d() { uni(lit(%s), %d, %d, %d); }\n' % (k, q(t), at, a, b))
        if k in (0, 2, 11, 12, 13, 7, 9):
            for i in list(range(at, at + 4)) + (list(range(at + 4, at + 10)) if "\\uD" in t and len(t) > at + 9 else []):
                f = "hexcase" if i < at + 4 or i > at + 5 else "byte"
                if i in (at + 4, at + 5):
                    # what follows a high surrogate is no escape: only whether it is accepted
                    o.append('void t_unix_%d_%d() { Raw r = lit(%s); unsigned char c = r.b[%d]; r.b[%d] = byte("x"); vp_assume(r.b[%d] != c); String t; vp_assert(!read(r, t), "a high surrogate without a low one is rejected"); vp_reach("end"); }\n' % (k, i, q(t), i, i, i))
                else:
                    o.append('void t_unix_%d_%d() { Raw r = lit(%s); r.b[%d] = %s("x"); uni(r, %d, %d, %d); }\n' % (k, i, q(t), i, f, at, a, b))
    for k, t in enumerate(['"\\u', '"\\u1', '"\\u12', '"\\u123', '"\\u"', '"\\u1"', '"\\u12"', '"\\u123"', '"\\', '"\\"', '"\\uD800\\', '"\\uD800\\u', '"\\uD800\\uDC0"', '"\\uD800\\uD"', '"\\uD800', '"\\U0041"', '"\\x41"', '"\\u 041"', '"\\u+041"', '"\\u-041"', '"\\u0x41"']):
        o.append('void t_bad_%d() { String t; vp_assert(!read(lit(%s), t), "an incomplete or unknown escape is rejected"); vp_reach("end"); }\n' % (k, q(t)))
    # what is no escape is read as it is
    o.append('''void t_plain() { unsigned char x = byte("x"); vp_assume(x != '"' && x != '\\\\'); Raw r = lit("\\"axb\\""); r.b[2] = x; String t; bool g = read(r, t); if (g) one(t, std::string(1, (char)x), 1, 1); vp_assert(g || x < 0x20, "every other character is accepted as it is"); vp_reach("end"); }
''')
    for nm, s in (("one", "C(x)"), ("esc", "x, then reverse solidus"), ("mid", "a x b")):
        body = {"one": "s.PushBack(C(x));", "esc": "s.PushBack(C(x)); s.PushBack(C('\\\\'));", "mid": "s.PushBack(C('a')); s.PushBack(C(x)); s.PushBack(C('b'));"}[nm]
        o.append('void t_back_%s() { unsigned char x = byte("x"); String s; %s back(s); }\nvoid t_key_%s() { unsigned char x = byte("x"); String s; %s backkey(s); }\n' % (nm, body, nm, body))
    o.append('''void t_back_two() { String s; unsigned char x = byte("x"); vp_assume(x < 0x30); s.PushBack(C(x)); s.PushBack(C('u')); s.PushBack(C('0')); back(s); }\n''')
    o.append('void t_back_none() { String s; back(s); }\nvoid t_key_none() { String s; backkey(s); }\n')
    for k, w in enumerate(["wide(2, 0xC3, cont(\"x\"), 0, 0)", "wide(3, 0xE2, 0x82, cont(\"x\"), 0)", "wide(3, 0xE2, cont(\"x\"), 0x82, 0)", "wide(4, 0xF0, 0x9F, 0x98, cont(\"x\"))", "wide(2, 0xC2, cont(\"x\"), 0, 0)", "wide(3, 0xE0, 0xA0, cont(\"x\"), 0)"]):
        o.append('void t_wide_%d() { String s; s.PushBack(%s); s.PushBack(C(\'"\')); back(s); }\n' % (k, w))
    return "".join(o) + "}\n"


def cfg(eng, run, entry):
    jsontext.cfg(eng, run, entry)


def run(ctx):
    mod, res = drv.settle(ctx, "escape", src(), cfg)
    drv.reached(ctx, res, 60)
