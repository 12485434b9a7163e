"""Driver vocabulary shared by the checks about JSON values."""
import nstr, text, cstr, streams, drv
HEAD = r'''
#include <fstream>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <memory>
#include <chrono>
#include <random>
#include <iomanip>
#include <sstream>
#include <deque>
#include <vector>
#include <string>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#define private public
#define protected public
#include <Caitlyn/Serializing>
#undef private
#undef protected
using namespace Caitlyn;
using Json::JsonClass;
typedef Json::__Detail::JsonData J;
''' + streams.VOC + r'''
static J mk(int k, long i, const String& s) {
  switch (k) {
    case 0: return Json::MakeNull();
    case 1: return J(i > 0);
    case 2: return J((Int64)i);
    case 3: return J(2.5);
    case 4: { J r; r.SetType(JsonClass::String); r.data_.string_value = s; return r; }
    case 5: return Json::MakeArray();
    case 6: return Json::MakeObject();
    case 7: { J r = Json::MakeArray(); r.Append((Int64)i); r.Append(mk(4, i, s)); return r; }
    case 8: { J r = Json::MakeObject(); r["a"] = (Int64)i; r["b"] = mk(4, i, s); return r; }
    case 9: { J r = Json::MakeArray(); r.Append(mk(7, i, s)); return r; }
    case 11: return mk(4, i, String());
    case 12: { J r = Json::MakeObject(); r[String()] = mk(6, i, s); r["\u20AC"] = mk(11, i, s); r[s] = mk(0, i, s); r["a long name of a member"] = mk(5, i, s); return r; }
    case 13: { J r = Json::MakeArray(); r.Append(mk(6, i, s)); r.Append(mk(0, i, s)); r.Append(mk(5, i, s)); r.Append(mk(11, i, s)); r.Append(mk(1, i, s)); return r; }
    default: { J r = Json::MakeObject(); r["a"] = mk(8, i, s); r["b"] = mk(5, i, s); return r; }
  }
}
static void is(const J& v, int k, long i, const String& s) {
  vp_assert(v.type_ == (k == 0 ? JsonClass::Null : k == 1 ? JsonClass::Boolean : k == 2 ? JsonClass::Integral : k == 3 ? JsonClass::Floating : k == 4 || k == 11 ? JsonClass::String : k == 5 || k == 7 || k == 9 || k == 13 ? JsonClass::Array : JsonClass::Object), "the value has the assigned kind");
  switch (k) {
    case 1: vp_assert(v.data_.boolean_value == (i > 0), "the value has the assigned content"); break;
    case 2: vp_assert(v.data_.integral_value == i, "the value has the assigned content"); break;
    case 3: vp_assert(v.data_.floating_value == 2.5, "the value has the assigned content"); break;
    case 4: same(v.data_.string_value, s, "the value has the assigned content"); break;
    case 5: vp_assert(v.data_.array_value.empty(), "the value has the assigned content"); break;
    case 6: vp_assert(v.data_.object_value.empty(), "the value has the assigned content"); break;
    case 7: vp_assert(v.data_.array_value.size() == 2, "the value has the assigned elements"); is(*v.data_.array_value[0], 2, i, s); is(*v.data_.array_value[1], 4, i, s); break;
    case 8: vp_assert(v.data_.object_value.size() == 2 && v.data_.object_value[0].first == "a" && v.data_.object_value[1].first == "b", "the value has the assigned members"); is(*v.data_.object_value[0].second, 2, i, s); is(*v.data_.object_value[1].second, 4, i, s); break;
    case 9: vp_assert(v.data_.array_value.size() == 1, "the value has the assigned elements"); is(*v.data_.array_value[0], 7, i, s); break;
    case 11: vp_assert(v.data_.string_value.IsEmpty(), "the value has the assigned content"); break;
    case 12: vp_assert(v.data_.object_value.size() == 4 && v.data_.object_value[0].first.IsEmpty() && v.data_.object_value[1].first == "\u20AC" && v.data_.object_value[2].first == s && v.data_.object_value[3].first == "a long name of a member", "the value has the assigned members"); is(*v.data_.object_value[0].second, 6, i, s); is(*v.data_.object_value[1].second, 11, i, s); is(*v.data_.object_value[2].second, 0, i, s); is(*v.data_.object_value[3].second, 5, i, s); break;
    case 13: vp_assert(v.data_.array_value.size() == 5, "the value has the assigned elements"); is(*v.data_.array_value[0], 6, i, s); is(*v.data_.array_value[1], 0, i, s); is(*v.data_.array_value[2], 5, i, s); is(*v.data_.array_value[3], 11, i, s); is(*v.data_.array_value[4], 1, i, s); break;
    case 10: vp_assert(v.data_.object_value.size() == 2 && v.data_.object_value[0].first == "a" && v.data_.object_value[1].first == "b", "the value has the assigned members"); is(*v.data_.object_value[0].second, 8, i, s); is(*v.data_.object_value[1].second, 5, i, s); break;
  }
}
#define ARG const long i = vp_s64("i"); const String s = text("s"); const long j = vp_s64("j"); const String t = text("t"); (void)i; (void)j;
extern "C" {
'''


NATIVE = nstr.NSTR + HEAD.replace(streams.VOC, r"""
static String text(const char* n) { char c = (char)vp_u8(n); vp_assume(c > 0); String s; s.PushBack(Char{c}); return s; }
static void same(const String& a, const String& b, const char* m) { vp_assert(a.size() == b.size(), m); if (a.size() == b.size()) for (SizeType i = 0; i < a.size(); ++i) { vp_assert(a[i].size() == b[i].size(), m); for (SizeType k = 0; k < a[i].size(); ++k) vp_assert(a[i].data()[k] == b[i].data()[k], m); } }
""")


def native(eng, run, entry):
    nstr.install(eng)
    eng.UNROLL = 8


def cfg(eng, run, entry):
    text.install_all(eng)
    cstr.install(eng)
    streams.install_vocabulary(eng.streams, run)
    eng.streams.failures = False
