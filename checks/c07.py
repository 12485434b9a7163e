"""C07: JSON factories, kind queries and typed getters agree."""
import drv, jsonsrc
from harness import *
LEVEL = "other"
EXPLANATION = ("Typestate analysis (path-sensitive abstract interpretation of clang IR) of the tagged union: for every factory, constructor and assignment source type with arbitrary content, from every previous kind, all kind queries and all typed getters are evaluated and compared with the table of the statement; "
               "read-only look-ups are analysed for every kind with arbitrary keys and indices. Reading a union member other than the live one is a fault.")
ASSUMPTIONS = ["containers of up to two elements stand for larger ones", "keys of one character stand for longer ones"]
VOC = jsonsrc.NATIVE.replace('extern "C" {\n#', '#') + r'''
}
static void kind(const J& v, JsonClass c) {
  vp_assert(v.GetType() == c, "the kind is the one of the argument");
  vp_assert(v.IsNull() == (c == JsonClass::Null) && v.IsObject() == (c == JsonClass::Object) && v.IsArray() == (c == JsonClass::Array) && v.IsString() == (c == JsonClass::String) && v.IsFloating() == (c == JsonClass::Floating) && v.IsIntegral() == (c == JsonClass::Integral) && v.IsBoolean() == (c == JsonClass::Boolean), "exactly the kind query of the kind is true");
}
static void others(const J& v, JsonClass c) {
  if (c != JsonClass::String) vp_assert(v.GetString().IsEmpty(), "the string getter of another kind returns the empty default");
  if (c != JsonClass::Floating) vp_assert(v.GetFloating() == 0.0f, "the number getter of another kind returns the empty default");
  if (c != JsonClass::Integral) vp_assert(v.GetIntegral() == 0, "the integer getter of another kind returns the empty default");
  if (c != JsonClass::Boolean) vp_assert(v.GetBoolean() == false, "the boolean getter of another kind returns the empty default");
  if (c != JsonClass::Object) { bool ok = false; try { const_cast<J&>(v).GetData(); ok = true; } catch (const std::exception&) {} vp_assert(!ok, "members of another kind are not handed out"); }
  else const_cast<J&>(v).GetData();
  if (c != JsonClass::Object) vp_assert(!v.HasMember("a"), "a value of another kind has no member");
}
static void integral(const J& v, long i) { kind(v, JsonClass::Integral); others(v, JsonClass::Integral); vp_assert(v.GetIntegral() == i, "the integer getter returns the content"); }
static void boolean(const J& v, bool b) { kind(v, JsonClass::Boolean); others(v, JsonClass::Boolean); vp_assert(v.GetBoolean() == b, "the boolean getter returns the content"); }
static void floating(const J& v, float f) { kind(v, JsonClass::Floating); others(v, JsonClass::Floating); vp_assert(v.GetFloating() == f, "the number getter returns the content"); }
static void str(const J& v, const String& s) { kind(v, JsonClass::String); others(v, JsonClass::String); same(v.GetString(), s, "the string getter returns the content"); }
static void is(const J& v, JsonClass c) { kind(v, c); others(v, c); }
#define FROM(k, V, EXPR) { J V = mk(k, vp_s64("i"), text("s")); EXPR; }
#define INT(T, R) { const T x = (T)R("v"); vp_assume((long)x >= 0 || (T)-1 < (T)0); integral(J(x), (long)x); J a; J& r = (a = x); integral(a, (long)x); vp_assert(&r == &a, "assignment returns the target"); J o = Json::MakeArray(); o.Append(x); integral(o[0], (long)x); integral(Json::MakeArray(x).At(0), (long)x); vp_reach("end"); }
extern "C" {
void t_short() INT(short, vp_s16)
void t_ushort() INT(unsigned short, vp_u16)
void t_schar() INT(signed char, vp_s8)
void t_uchar() INT(unsigned char, vp_u8)
void t_char() INT(char, vp_s8)
void t_int() INT(int, vp_s32)
void t_uint() INT(unsigned, vp_u32)
void t_long() INT(long, vp_s64)
void t_llong() INT(long long, vp_s64)
void t_ulong() INT(unsigned long, vp_u64)
void t_ullong() INT(unsigned long long, vp_u64)
void t_bool() { const bool x = vp_bool("v"); boolean(J(x), x); J a; J& r = (a = x); boolean(a, x); vp_assert(&r == &a, "assignment returns the target"); boolean(Json::MakeBoolean(x), x); boolean(Json::MakeArray(x).At(0), x); vp_reach("end"); }
void t_float() { floating(J(2.5f), 2.5f); J a; J& r = (a = 2.5f); floating(a, 2.5f); vp_assert(&r == &a, "assignment returns the target"); floating(Json::MakeFloating(0.1f), 0.1f); floating(Json::MakeArray(-1.5f).At(0), -1.5f); vp_reach("end"); }
void t_float_any() { const float x = vp_f32("v"); vp_assume(x == x); floating(J(x), x); J a; a = x; floating(a, x); floating(Json::MakeFloating(x), x); vp_reach("end"); }
void t_double() { floating(J(2.5), 2.5f); J a; a = 0.25; floating(a, 0.25f); floating(J(0.1), (float)0.1); vp_reach("end"); }
void t_ldouble() { floating(J(2.5L), 2.5f); J a; a = 0.25L; floating(a, 0.25f); vp_reach("end"); }
void t_cstr() { char c = (char)vp_u8("c"); vp_assume(c > 0); char p[3] = {c, 'x', 0}; const char* q = p; String e; e.PushBack(Char{c}); e.PushBack(Char{'x'}); str(J(q), e); J a; J& r = (a = q); str(a, e); vp_assert(&r == &a, "assignment returns the target"); str(Json::MakeString(q), e); str(Json::MakeArray(q).At(0), e); str(J(""), String()); vp_reach("end"); }
void t_stdstring() { char c = (char)vp_u8("c"); vp_assume(c > 0); std::string p(2, c); String e; e.PushBack(Char{c}); e.PushBack(Char{c}); str(J(p), e); J a; a = p; str(a, e); str(Json::MakeString(p), e); str(Json::MakeArray(p).At(0), e); vp_reach("end"); }
void t_factories() { const long i = vp_s64("i"); is(J(), JsonClass::Null); is(Json::MakeNull(), JsonClass::Null); J o = Json::MakeObject(), a = Json::MakeArray(); is(o, JsonClass::Object); is(a, JsonClass::Array); vp_assert(o.Size() == 0 && a.Size() == 0 && o.Length() == 0 && a.Length() == 0, "made empty"); integral(Json::MakeIntegral(i), i);
  is(Json::Make(JsonClass::Null), JsonClass::Null); is(Json::Make(JsonClass::Object), JsonClass::Object); is(Json::Make(JsonClass::Array), JsonClass::Array); integral(Json::Make(JsonClass::Integral), 0); boolean(Json::Make(JsonClass::Boolean), false); floating(Json::Make(JsonClass::Floating), 0.0f); str(Json::Make(JsonClass::String), String()); vp_reach("end"); }
void t_makearray() { const long i = vp_s64("i"); const bool b = vp_bool("b"); const J a = Json::MakeArray(i, "x", b, 1.5, J(), Json::MakeArray(7)); is(a, JsonClass::Array); vp_assert(a.Size() == 6 && a.Length() == 6, "an array has the given elements"); integral(a.At(0), i); str(a.At(1), String("x")); boolean(a.At(2), b); floating(a.At(3), 1.5f); is(a.At(4), JsonClass::Null); integral(a.At(5).At(0), 7); vp_reach("end"); }
'''
KINDS = {0: "Null", 1: "Boolean", 2: "Integral", 3: "Floating", 4: "String", 5: "Array", 6: "Object", 7: "Array", 8: "Object", 10: "Object"}
SRC = VOC
for k, c in KINDS.items():
    SRC += '''void t_kind_%(k)d() { const J v = mk(%(k)d, vp_s64("i"), text("s")); is(v, JsonClass::%(c)s); const J w(v); is(w, JsonClass::%(c)s); J m(w); J n(std::move(m)); is(n, JsonClass::%(c)s); J x; x = v; is(x, JsonClass::%(c)s); J y(7); y = std::move(x); is(y, JsonClass::%(c)s); is(v, JsonClass::%(c)s); vp_reach("end"); }
void t_become_%(k)d() { const long i = vp_s64("w"); FROM(%(k)d, v, v = i; integral(v, i)) FROM(%(k)d, v, v = (i > 0); boolean(v, i > 0)) FROM(%(k)d, v, v = 2.5; floating(v, 2.5f)) FROM(%(k)d, v, v = "abc"; str(v, String("abc"))) FROM(%(k)d, v, v = std::string("q"); str(v, String("q"))) FROM(%(k)d, v, v = Json::MakeNull(); is(v, JsonClass::Null)) vp_reach("end"); }
void t_grow_%(k)d() { const long i = vp_s64("w"); FROM(%(k)d, v, J& r = v["k"]; kind(v, JsonClass::Object); kind(r, JsonClass::Null); r = i; integral(v["k"], i); integral(v.At(String("k")), i); vp_assert(v.HasMember("k"), "the member is there")) FROM(%(k)d, v, J& r = v[2]; kind(v, JsonClass::Array); vp_assert(v.Size() == 3, "the array is extended as far as needed"); if (%(k)d != 9) kind(r, JsonClass::Null); r = i; integral(v[2], i); integral(v.At(2), i)) FROM(%(k)d, v, v.Append(i); kind(v, JsonClass::Array); integral(v[v.Size() - 1], i)) vp_reach("end"); }
void t_key_%(k)d() { const J v = mk(%(k)d, vp_s64("i"), text("s")); const String key = text("key"); const bool there = %(o)s && (key == "a" || key == "b"); bool ok = false; try { const J& r = v.At(key); ok = true; vp_assert(r.GetType() == v.At(key).GetType(), "a member is found"); } catch (const std::out_of_range&) {} vp_assert(ok == there, "read-only look-up of a key finds exactly the members"); vp_assert(v.HasMember(key) == there, "exactly the members are there"); kind(v, JsonClass::%(c)s); vp_reach("end"); }
void t_index_%(k)d() { const J v = mk(%(k)d, vp_s64("i"), text("s")); const SizeType n = %(n)d, x = vp_u64("x"); bool ok = false; try { const J& r = v.At(x); ok = true; kind(r, x == 0 ? JsonClass::Integral : JsonClass::String); } catch (const std::out_of_range&) {} vp_assert(ok == (x < n), "read-only look-up of an index finds exactly the elements"); kind(v, JsonClass::%(c)s); vp_reach("end"); }
void t_doc_%(k)d() { JsonDocument d; d.root_ = mk(%(k)d, vp_s64("i"), text("s")); const JsonDocument& c = d; const String key = text("key"); const bool there = %(o)s && (key == "a" || key == "b"); bool ok = false; try { c[key]; ok = true; } catch (const std::out_of_range&) {} vp_assert(ok == there, "read-only look-up of a key finds exactly the members"); vp_assert(d.HasMember(key) == there && d.GetType() == JsonClass::%(c)s, "the document is its root"); vp_reach("end"); }
''' % dict(k=k, c=c, n=2 if k == 7 else 0, o="true" if k in (8, 10) else "false")
SRC += "}"


def run(ctx):
    mod, res = drv.settle(ctx, "kinds", SRC, jsonsrc.native)
    drv.reached(ctx, res, 75)
