"""Driver vocabulary for the checks about JSON trees: representative trees and their texts."""
import jsontext

HEAD = jsontext.HEAD.rsplit('extern "C" {', 1)[0] + r'''
static String str1(unsigned char c) { String s; s.PushBack(C(c)); return s; }
static String lits(const char* t) { return txt(lit(t)); }
static J sv(const String& s) { J r; r.SetType(JsonClass::String); r.data_.string_value = s; return r; }
static J tree(int k, long i, const String& s, const String& t) {
  J r;
  switch (k) {
    case 0: return Json::MakeNull();
    case 1: return J(i > 0);
    case 2: return J((Int64)i);
    case 3: return sv(s);
    case 4: return Json::MakeArray();
    case 5: return Json::MakeObject();
    case 6: r = Json::MakeArray(); r.Append((Int64)i); r.Append(sv(s)); return r;
    case 7: r = Json::MakeObject(); r["a"] = (Int64)i; r["b"] = sv(s); return r;
    case 8: r = Json::MakeArray(); r.Append(tree(6, i, s, t)); return r;
    case 9: r = Json::MakeObject(); r["a"] = tree(7, i, s, t); r["b"] = Json::MakeArray(); return r;
    case 10: r = Json::MakeArray(); r.Append(Json::MakeNull()); r.Append(J(true)); r.Append(J(false)); return r;
    case 11: r = Json::MakeObject(); r[s] = sv(t); return r;
    case 12: r = Json::MakeObject(); r[lits("")] = Json::MakeObject(); r["k"] = Json::MakeArray(); r["k"].Append(Json::MakeObject()); r["k"].Append(Json::MakeArray()); return r;
    case 13: r = Json::MakeArray(); { J m = Json::MakeObject(); m["a"] = Json::MakeNull(); r.Append(m); m["a"] = true; r.Append(m); } r.Append((Int64)i); return r;
    case 14: r = Json::MakeArray(); r.Append((Int64)1); r.Append((Int64)-20); r.Append((Int64)i); r.Append((Int64)0); return r;
    case 15: r = Json::MakeObject(); r["x"] = Json::MakeArray(); r["x"].Append((Int64)i); r["y"]["z"] = sv(s); r["w"] = false; return r;
    case 16: r = Json::MakeArray(); r.Append(tree(8, i, s, t)); r.Append(tree(15, i, s, t)); r.Append(sv(t)); return r;
    case 17: r = Json::MakeObject(); r["q"] = tree(9, i, s, t); r["p"] = tree(12, i, s, t); r["o"] = Json::MakeNull(); return r;
    case 18: r = Json::MakeArray(); r.Append(Json::MakeArray()); r.Append(Json::MakeArray()); r.Append(Json::MakeObject()); r.Append(Json::MakeObject()); return r;
    default: r = Json::MakeArray(); r.Append(sv(s)); r.Append(sv(t)); return r;
  }
}
static const int TREES = 20;
// one value of every kind
static J kind(int k) { switch (k % 10) { case 0: return Json::MakeNull(); case 1: return J(false); case 2: return Json::MakeArray(); case 3: return Json::MakeObject(); case 4: return sv(lits("")); case 5: return J(true); case 6: return tree(6, 0, lits("e"), lits("")); case 7: return tree(7, -1, lits("]"), lits("")); case 8: return J((Int64)0); default: return sv(lits(", ")); } }
// a container that begins with two values of kind x, holds all other kinds, and ends with kind x
static J mixed(bool object, int x) {
  static const char* const keys[] = {"", "a", "aa", "{", "b:", ",", "[]", "null", "A", "\t", "z", "1", "}"};
  J r = object ? Json::MakeObject() : Json::MakeArray(); int n = 0;
  for (int k = 0; k < 12; ++k) { J v = kind(k == 0 ? x : k == 11 ? x : x + k - 1); if (object) { r[lits(keys[(k + x) % 13])] = v; } else r.Append(v); ++n; }
  return r; }
// JSON value at position p of the bytes b has to be the text of a tree
struct Buf { int n; unsigned char b[700]; };
static Buf bytes(const String& s) { Buf r; r.n = 0; for (unsigned long i = 0; i < s.data_.size(); ++i) for (unsigned long k = 0; k < s.data_[i].data_.size(); ++k) r.b[r.n++] = (unsigned char)s.data_[i].data_[k]; return r; }
struct Match { const Buf& t; int p;
  bool is(unsigned char c) { return p < t.n && t.b[p] == c; }
  bool eat(unsigned char c) { if (!is(c)) return false; ++p; return true; }
  void sp() { while (p < t.n && (t.b[p] == ' ' || t.b[p] == 10 || t.b[p] == 13 || t.b[p] == 9)) ++p; }
  bool word(const char* w) { for (; *w; ++w, ++p) if (!is((unsigned char)*w)) return false; return true; }
  bool hex(unsigned& v) { if (!eat('\\') || !eat('u')) return false; v = 0; for (int k = 0; k < 4; ++k, ++p) { if (p >= t.n) return false; int d = dig((char)t.b[p]); if (d > 15) return false; v = v * 16 + d; } return true; }
  bool str(const String& s) { Buf e = bytes(s); if (!eat('"')) return false;
    int k = 0;
    while (k < e.n) {
      if (p >= t.n || t.b[p] < 0x20 || t.b[p] == '"') return false;
      if (t.b[p] != '\\') { if (t.b[p] != e.b[k]) return false; ++p; ++k; continue; }
      if (p + 1 >= t.n) return false;
      unsigned char x = t.b[p + 1];
      if (x != 'u') { unsigned char c = x == 'b' ? 8 : x == 'f' ? 12 : x == 'n' ? 10 : x == 'r' ? 13 : x == 't' ? 9 : x == '"' || x == '\\' || x == '/' ? x : 0; if (!c || c != e.b[k]) return false; p += 2; ++k; continue; }
      unsigned v = 0, w = 0; if (!hex(v)) return false;
      if (v >= 0xD800 && v < 0xDC00) { if (!hex(w) || w < 0xDC00 || w > 0xDFFF) return false; v = 0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00); }
      if (v < 0x80) { if (e.b[k] != v) return false; ++k; }
      else if (v < 0x800) { if (k + 2 > e.n || e.b[k] != 0xC0 + v / 64 || e.b[k + 1] != 0x80 + v % 64) return false; k += 2; }
      else if (v < 0x10000) { if (k + 3 > e.n || e.b[k] != 0xE0 + v / 4096 || e.b[k + 1] != 0x80 + v / 64 % 64 || e.b[k + 2] != 0x80 + v % 64) return false; k += 3; }
      else { if (k + 4 > e.n || e.b[k] != 0xF0 + v / 262144 || e.b[k + 1] != 0x80 + v / 4096 % 64 || e.b[k + 2] != 0x80 + v / 64 % 64 || e.b[k + 3] != 0x80 + v % 64) return false; k += 4; }
    }
    return eat('"'); }
  bool integer(long v) { bool neg = eat('-'); long r = 0; int k = 0; bool lead = is('0'); for (; p < t.n && t.b[p] >= '0' && t.b[p] <= '9'; ++p, ++k) r = neg ? r * 10 - (t.b[p] - '0') : r * 10 + (t.b[p] - '0'); if (k == 0 || (lead && k > 1)) return false; return r == v; }
  bool number() { eat('-'); int k = 0; bool lead = is('0'); for (; p < t.n && t.b[p] >= '0' && t.b[p] <= '9'; ++p) ++k; if (k == 0 || (lead && k > 1)) return false;
    if (eat('.')) { for (k = 0; p < t.n && t.b[p] >= '0' && t.b[p] <= '9'; ++p) ++k; if (k == 0) return false; }
    if (eat('e') || eat('E')) { if (!eat('+')) eat('-'); for (k = 0; p < t.n && t.b[p] >= '0' && t.b[p] <= '9'; ++p) ++k; if (k == 0) return false; }
    return true; }
  bool value(const J& v) { sp();
    switch (v.type_) {
      case JsonClass::Null: return word("null");
      case JsonClass::Boolean: return v.data_.boolean_value ? word("true") : word("false");
      case JsonClass::Integral: return integer(v.data_.integral_value);
      case JsonClass::String: return str(v.data_.string_value);
      case JsonClass::Floating: if (std::isfinite(v.data_.floating_value)) return number(); return word("null");
      case JsonClass::Array: { if (!eat('[')) return false; unsigned long n = v.data_.array_value.size(); for (unsigned long k = 0; k < n; ++k) { if (!value(*v.data_.array_value[k])) return false; sp(); if (k + 1 < n && !eat(',')) return false; } sp(); return eat(']'); }
      case JsonClass::Object: { if (!eat('{')) return false; unsigned long n = v.data_.object_value.size(); for (unsigned long k = 0; k < n; ++k) { sp(); if (!str(v.data_.object_value[k].first)) return false; sp(); if (!eat(':')) return false; if (!value(*v.data_.object_value[k].second)) return false; sp(); if (k + 1 < n && !eat(',')) return false; } sp(); return eat('}'); }
      default: return false;
    } }
};
static bool equal(const J& a, const J& b) {
  if (a.type_ != b.type_) return false;
  switch (a.type_) {
    case JsonClass::Boolean: return a.data_.boolean_value == b.data_.boolean_value;
    case JsonClass::Integral: return a.data_.integral_value == b.data_.integral_value;
    case JsonClass::String: { Buf x = bytes(a.data_.string_value), y = bytes(b.data_.string_value); if (x.n != y.n) return false; for (int k = 0; k < x.n; ++k) if (x.b[k] != y.b[k]) return false; return true; }
    case JsonClass::Array: { if (a.data_.array_value.size() != b.data_.array_value.size()) return false; for (unsigned long k = 0; k < a.data_.array_value.size(); ++k) if (!equal(*a.data_.array_value[k], *b.data_.array_value[k])) return false; return true; }
    case JsonClass::Object: { if (a.data_.object_value.size() != b.data_.object_value.size()) return false; for (unsigned long k = 0; k < a.data_.object_value.size(); ++k) { Buf x = bytes(a.data_.object_value[k].first), y = bytes(b.data_.object_value[k].first); if (x.n != y.n) return false; for (int q = 0; q < x.n; ++q) if (x.b[q] != y.b[q]) return false; if (!equal(*a.data_.object_value[k].second, *b.data_.object_value[k].second)) return false; } return true; }
    default: return true;
  } }
static long small(const char* n) { long i = vp_s64(n); vp_assume(i >= -12 && i <= 120); return i; }
extern "C" {
'''
TREES = 20
USES_I = {2, 6, 7, 8, 9, 13, 14, 15, 16, 17}
USES_S = {3, 6, 7, 8, 9, 11, 15, 16, 17, 19}
USES_T = {11, 16, 19}


def cfg(eng, run, entry):
    jsontext.cfg(eng, run, entry)
