"""C30: every public operation can be used with the types it is offered for."""
from harness import *
from witness import assert_matrix, run_unit
LEVEL = "other"
EXPLANATION = ("Each public member of the library's class templates and each public function template is used once in a generated unit with ordinary argument types (values, references, const objects, class and move-only types) "
               "and the class templates are instantiated as a whole; both compilers type-check the unit in every standard. Copying a unique owner, and storing or moving it only by move, are decided by static_asserts on the language's own queries.")
ASSUMPTIONS = ["the listed argument types represent the ordinary ones", "names that no longer exist are reported: removing a public operation breaks its users"]
PRE = r'''
#include <Caitlyn/Caitlyn>
#include <Caitlyn/Algorithms>
#include <Caitlyn/Char>
#include <Caitlyn/Collections>
#include <Caitlyn/Error>
#include <Caitlyn/File>
#include <Caitlyn/IO>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Traits>
#include <Caitlyn/Utility>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
using namespace Caitlyn;
namespace w {
struct Val { int a; Val(int x = 0) : a(x) {} bool operator==(const Val& o) const { return a == o.a; } };
struct Err { std::string what; Err() {} Err(const char* s) : what(s) {} };
struct Base { virtual ~Base() {} int m; void f() {} };
struct Abstract { virtual ~Abstract() {} virtual int g() const = 0; };
struct Impl : Abstract { int g() const override { return 1; } };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
struct NoDefault { explicit NoDefault(int) {} };
struct TS { std::string to_string() const { return ""; } };
struct ST { std::string str() const { return ""; } };
struct TO { std::string ToString() const { return ""; } };
struct Functor { int operator()(const Val& v) const { return v.a; } };
inline int fn(const Val& v) { return v.a; }
typedef int* IntP;
template <class T> T mk();
}
'''
ITEMS = []


def use(label, params, body, ret="void"):
    ITEMS.append((label, "inline %s u%d(%s) { %s }" % (ret, len(ITEMS), params, body)))


def sa(label, cond):
    ITEMS.append((label, 'static_assert(%s, "w");' % cond))


def inst(t):
    ITEMS.append(("every member of %s" % t, "template class %s;" % t))


def build():
    ITEMS.clear()
    # ---- class templates as a whole
    for t in ("int", "w::Val", "w::Base", "std::string", "w::MoveOnly", "w::NoDefault", "Caitlyn::String", "const int", "const w::Base", "Caitlyn::UniquePtr<int>"):
        for p in ("Ptr", "UniquePtr", "SharedPtr", "WeakPtr"):
            inst("Caitlyn::%s<%s>" % (p, t))
    for e in ("int", "std::string", "w::Err", "w::Val", "Caitlyn::String"):
        inst("Caitlyn::Unexpected<%s>" % e)
    EX = [("int", "int"), ("int", "std::string"), ("w::Val", "w::Err"), ("std::string", "int"), ("std::vector<int>", "Caitlyn::String"), ("Caitlyn::String", "Caitlyn::String"), ("w::Val", "w::Val"), ("std::string", "std::string"), ("Caitlyn::SharedPtr<int>", "w::Err"), ("w::IntP", "w::IntP")]
    for t, e in EX:
        inst("Caitlyn::Expected<%s, %s>" % (t, e))
    # ---- Expected
    for t, e in EX + [("w::NoDefault", "w::Err")]:
        X = "Expected<%s, %s>" % (t, e)
        P = "const %s& x, %s v, %s e" % (X, t, e)
        def u(l, body, ret="void"):
            use("Expected<%s, %s>: %s" % (t, e, l), P, body, ret)
        u("construction", "%s a(v); %s b(std::move(v)); %s c{MakeError<%s>(e)}; const Unexpected<%s> ue{e}; %s d(ue); %s f(x); %s g(std::move(a)); f = x; g = std::move(f);" % ((X,) * 3 + (e, e) + (X,) * 3))
        u("return", "if (x) return v; return MakeError<%s>(e);" % e, X)
        u("MakeCorrect", "return MakeCorrect<%s, %s>(v);" % (t, e), X)
        u("queries", "bool b = static_cast<bool>(x) || x.HasValue() || x.HasError(); (void)b; if (x) {} const %s& r = x.Get(); const %s& s = x.GetError(); (void)r; (void)s;" % (t, e))
        u("Map", "auto a = x.Map([](const %s&) { return 1; }); int i = a.Get(); auto b = x.Map([](%s y) { return std::string(); }); std::string s = b.Get(); auto c = x.Map([](const %s& y) { return y; }); (void)i;" % (t, t, t))
        u("MapError", "auto a = x.MapError([](const %s&) { return 1; }); int i = a.GetError(); auto b = x.MapError([](%s y) { return y; }); (void)i; (void)b;" % (e, e))
        for m, p, arg in (("AndThen", t, "v"), ("Then", t, "v"), ("OrElse", e, "e"), ("CatchError", e, "e")):
            u(m, "%s r = x.%s([&](const %s&) { return x; }); %s r2 = x.%s([&](%s) -> %s { return MakeError<%s>(e); }); %s r3 = x.%s([&](const %s&) { return %s(v); });" % (X, m, p, X, m, p, X, e, X, m, p, X))
        u("OnError", "%s r = x.OnError([](const %s&) {}); %s r2 = x.OnError([](const %s&) { return 1; });" % (X, e, X, e))
        u("UnwrapOr", "%s r = x.UnwrapOr(v); (void)r;" % t)
        if t == e:
            u("UnwrapOrElse", "%s r = x.UnwrapOrElse([](const %s& y) { return y; }); (void)r;" % (t, e))
        if t != "w::NoDefault":
            u("UnwrapOrDefault", "const %s& r = x.UnwrapOrDefault(); (void)r;" % t)
        u("UnwrapOrDefault with a value", "const %s& r = x.UnwrapOrDefault(v); (void)r;" % t)
        u("Expect", 'const %s& r = x.Expect("m"); const %s& r2 = x.Expect(String("m")); (void)r; (void)r2;' % (t, t))
        u("ExpectError", 'const %s& r = x.ExpectError("m"); const %s& r2 = x.ExpectError(std::string("m")); (void)r; (void)r2;' % (e, e))
        u("Filter", "%s r = x.Filter([](const %s&) { return true; }); (void)r;" % (X, t))
        u("Fold", "int r = x.Fold(1, [](int i, const %s&) { return i; }); int j = 2; int r2 = x.Fold(j, [](int i, %s) { return i; }); std::string s = x.Fold(std::string(), [](std::string a, const %s&) { return a; }); (void)r; (void)r2;" % (t, t, t))
        u("Customize", "int r = x.Customize([](const %s&) { return 1; }); auto f = [](const %s& y) { return y.HasValue(); }; bool b = x.Customize(f); (void)r; (void)b;" % (X, X))
        u("Inspect", "int r = x.Inspect([](const %s&) { return 1; }, [](const %s&) { return 2; }); int r2 = x.Inspect([](const %s&, int k, const std::string&) { return k; }, [](const %s&, int k, const std::string&) { return k; }, 3, std::string()); x.Inspect([](const %s&) {}, [](const %s&) {}); (void)r; (void)r2;" % (t, e, t, e, t, e))
        u("from a temporary", "int r = %s(v).Map([](const %s&) { return 1; }).UnwrapOr(2); (void)r;" % (X, t))
    use("Expected of a move-only type: construction, moves and access", "", "Expected<w::MoveOnly, w::Err> a{w::MoveOnly{}}; Expected<w::MoveOnly, w::Err> b{std::move(a)}; b = std::move(a); const w::MoveOnly& r = b.Get(); (void)r; bool c = b.HasValue(); int i = b.Fold(1, [](int k, const w::MoveOnly&) { return k; }); b.Map([](const w::MoveOnly&) { return 1; }); (void)c; (void)i;")
    use("Expected of a unique owner: construction, moves and access", "", "Expected<UniquePtr<int>, w::Err> a{UniquePtr<int>{new int(1)}}; Expected<UniquePtr<int>, w::Err> b{std::move(a)}; b = std::move(a); int i = *b.Get(); (void)i;")
    use("MakeCorrect of a move-only value", "", "auto a = MakeCorrect<w::MoveOnly, int>(w::MoveOnly{}); (void)a;")
    use("Map with function pointer, functor and std::function", "const Expected<w::Val, w::Err>& x", "int a = x.Map(&w::fn).UnwrapOr(0) + x.Map(w::Functor{}).UnwrapOr(0); std::function<int(const w::Val&)> f = w::fn; a += x.Map(f).UnwrapOr(0); (void)a;")
    use("MakeError", "std::string s, const String& t", 'Unexpected<int> a = MakeError(1); Unexpected<String> b = MakeError("text"); Unexpected<std::string> c = MakeError(s); Unexpected<String> d = MakeError(t); bool e = a == a && !(b != d); (void)c; (void)e;')
    use("MakeError of a move-only error", "", "auto a = MakeError(w::MoveOnly{}); Expected<int, w::MoveOnly> b{std::move(a)}; (void)b;")
    # ---- free operators are found from every namespace and by the standard algorithms
    hide = "struct X {}; bool operator==(X, X); bool operator!=(X, X); bool operator<(X, X); bool operator>(X, X); bool operator<=(X, X); bool operator>=(X, X); X operator+(X, X); X operator-(X, X); X operator*(X, X); X operator/(X, X); X operator%(X, X); std::ostream& operator<<(std::ostream&, X); std::istream& operator>>(std::istream&, X); "
    def adl(label, body):
        ITEMS.append(("operators used in a namespace with operators of its own: " + label, "namespace adl%d { %s%s }" % (len(ITEMS), hide, body)))
    rel = "bool r(const Caitlyn::%s& a, const Caitlyn::%s& b) { return a == b && a != b%s; } "
    order = " && a < b && a > b && a <= b && a >= b"
    out = "inline void o(std::ostream& s, const Caitlyn::%s& a) { s << a; }"
    for t in ("Char", "String", "BigInteger", "BigFloat"):
        adl(t, "inline " + rel % (t, t, order) + out % t)
    adl("Unexpected", "inline " + rel % ("Unexpected<int>", "Unexpected<int>", ""))
    adl("JSON documents", out % "JsonDocument" + " inline void i(std::istream& s, Caitlyn::JsonDocument& a) { s >> a; }")
    adl("reading strings", "inline void i(std::istream& s, Caitlyn::String& a) { s >> a; }")
    adl("arithmetic", "inline Caitlyn::BigInteger f(const Caitlyn::BigInteger& a) { return a + a - a * a / a % a; } inline Caitlyn::BigFloat g(const Caitlyn::BigFloat& a) { return a + a - a * a / a; }")
    for t in ("Char", "String", "BigInteger", "BigFloat"):
        use("standard algorithms and containers of " + t, "std::vector<{0}>& v, {0} x".format(t), "std::sort(v.begin(), v.end()); bool b = std::find(v.begin(), v.end(), x) == v.end() || std::binary_search(v.begin(), v.end(), x) || v == v || v < v; std::map<{0}, int> m; m[x] = 1; std::copy(v.begin(), v.end(), std::ostream_iterator<{0}>(std::cout)); (void)b;".format(t))
    use("standard algorithms and containers of Unexpected", "std::vector<Unexpected<int>>& v, Unexpected<int> x", "bool b = std::find(v.begin(), v.end(), x) == v.end() || v == v; (void)b;")
    # ---- pointers
    for p in ("UniquePtr", "SharedPtr", "Ptr", "WeakPtr"):
        mk = "%s<w::Base> x{%s}" % (p, "SharedPtr<w::Base>{new w::Base}" if p == "WeakPtr" else "new w::Base")
        use(p + ": dereference", "", mk + "; x->f(); (*x).f(); w::Base& r = *x; (void)r; const %s<w::Base>& c = x; c->f(); (*c).m = 1;" % p)
        use(p + ": comparison", "", mk + "; bool b = x == x || x != x || x == nullptr || x != nullptr; const %s<w::Base>& c = x; b = c == x || c == nullptr; (void)b;" % p)
        use(p + ": default, null", "", "%s<int> a; %s<int> b{}; bool r = a == nullptr; (void)b; (void)r;" % (p, p))
        if p != "WeakPtr":
            use(p + ": Get, Reset", "", mk + "; w::Base* r = x.Get(); x.Reset(); x.Reset(new w::Base); x.Reset(nullptr); x = new w::Base; (void)r;")
            use(p + ": owner of an abstract class", "", "%s<w::Abstract> x{new w::Impl}; int i = x->g() + (*x).g(); x.Reset(new w::Impl); (void)i;" % p)
        if p != "UniquePtr":
            use(p + ": copies", "", mk + "; %s<w::Base> y(x); y = x; %s<w::Base> z = y; z = std::move(y); std::vector<%s<w::Base>> v; v.push_back(z); v.emplace_back(x);" % (p, p, p))
        if p not in ("Ptr", "WeakPtr"):
            use(p + ": moves", "", mk + "; %s<w::Base> y(std::move(x)); x = std::move(y); std::vector<%s<w::Base>> v; v.push_back(std::move(x)); v.emplace_back(new w::Base);" % (p, p))
    use("UniquePtr: Release", "", "UniquePtr<int> x{new int(1)}; int* p = x.Release(); delete p;")
    use("UniquePtr: returned from a function", "", "return UniquePtr<int>{new int(2)};", "UniquePtr<int>")
    use("UniquePtr: in standard containers and moved through functions", "UniquePtr<w::Val> a", "std::vector<UniquePtr<w::Val>> v; v.reserve(4); v.push_back(std::move(a)); v.erase(v.begin()); std::map<int, UniquePtr<w::Val>> m; m[1] = UniquePtr<w::Val>{new w::Val}; std::swap(m[1], m[2]);")
    use("UniquePtr: dereference of a const owner of const", "const UniquePtr<const w::Base>& a", "const w::Base& b = *a; int i = a->m; (void)b; (void)i;")
    use("Ptr: Destroy", "Ptr<int> p", "p.Destroy();")
    use("WeakPtr: lock and expired", "const SharedPtr<w::Val>& s", "WeakPtr<w::Val> x(s); x = s; SharedPtr<w::Val> l = x.lock(); bool b = x.expired(); const WeakPtr<w::Val> c(x); l = c.lock(); b = c.expired(); (void)b;")
    for t in ("int", "w::Base", "w::MoveOnly", "const int", "Caitlyn::String"):
        sa("a UniquePtr<%s> cannot be copied" % t, "!std::is_copy_constructible<UniquePtr<%s>>::value && !std::is_copy_assignable<UniquePtr<%s>>::value && !std::is_constructible<UniquePtr<%s>, const UniquePtr<%s>&>::value && !std::is_constructible<UniquePtr<%s>, UniquePtr<%s>&>::value && !std::is_assignable<UniquePtr<%s>&, UniquePtr<%s>&>::value" % ((t,) * 8))
        sa("a UniquePtr<%s> can be moved without throwing" % t, "std::is_nothrow_move_constructible<UniquePtr<%s>>::value && std::is_nothrow_move_assignable<UniquePtr<%s>>::value" % (t, t))
        sa("a SharedPtr<%s> can be copied and moved" % t, "std::is_copy_constructible<SharedPtr<%s>>::value && std::is_copy_assignable<SharedPtr<%s>>::value && std::is_move_constructible<SharedPtr<%s>>::value" % (t, t, t))
    sa("results of copyable types are copyable, of unique owners movable", "std::is_copy_constructible<Expected<int, int>>::value && std::is_move_constructible<Expected<UniquePtr<int>, int>>::value && std::is_move_assignable<Expected<UniquePtr<int>, int>>::value")
    # ---- strings
    use("String: construction", "const std::string& s, const std::vector<Char>& v, std::list<char> l, Char c", "String a, b(\"x\"), d(s), e(v), f(3, 'c'), g(3, c), h(s.begin(), s.end()), i(l.begin(), l.end()), j(a), k(std::move(a)); const char* p = \"abc\"; String m(p, p + 2); a = b; a = std::move(b); a = \"lit\"; a = s;")
    use("String: access and iteration", "String s, const String& c", "const Char& a = c[0]; Char& b = s[0]; s[0] = Char('x'); s.At(0) = 'y'; const Char& d = c.At(0); for (const Char& x : c) { (void)x; } for (Char& x : s) { x = 'z'; } auto e = std::vector<Char>(c.begin(), c.end()); auto r = std::vector<Char>(c.rbegin(), c.rend()); r.assign(s.rbegin(), s.rend()); r.assign(c.cbegin(), c.cend()); r.assign(c.crbegin(), c.crend()); SizeType n = c.size() + c.Length() + c.ByteCount(); bool q = c.IsEmpty() || c.NotEmpty(); (void)a; (void)b; (void)d; (void)n; (void)q;")
    use("String: concatenation and modification", "String s, const String& c, Char ch", 's += c; s += "x"; s += std::string("y"); String t = s + c; t = s + "lit"; s.PushBack(ch); s.PushBack(\'c\'); s.Append("x"); s.Append(2, "xy"); s.Append(2, ch); s.Insert(0, "x"); s.Insert(0, c); s.Insert(0, 2, ch); s.Clear();')
    use("String: comparison", "const String& a, const String& b, const char* p", "bool r = a < b || a > b || a <= b || a >= b || a == b || a != b || a < p || a > p || a <= p || a >= p || a == p || a != p; (void)r;")
    use("String: searching", "const String& a, const String& b", 'bool r = a.StartsWith(b) || a.EndsWith(b) || a.Contains(b) || a.StartsWith("x") || a.EndsWith("y") || a.Contains("z"); SizeType n = a.Find(b) + a.Find(b, 1) + a.ReverseFind(b) + a.ReverseFind(b, 2) + a.Find("x"); String t = a.Substring(1); t = a.Substring(1, 2); (void)r; (void)n;')
    use("String: FindIf, FindIfNot", "const String& a", "SizeType n = a.FindIf([](const Char& c) { return c == 'x'; }) + a.FindIf([](const Char& c) { return c == 'x'; }, 2) + a.FindIfNot([](Char c) { return c == 'x'; }) + a.FindIfNot([](const Char& c) { return c == 'x'; }, 1); std::function<bool(const Char&)> f; n += a.FindIf(f) + a.FindIfNot(f); (void)n;")
    use("String: conversions", "const String& a, std::ostream& o, std::istream& i, String& x", "std::vector<Char> v = a.data(); std::string s = a.str(); String u = a.ToUppercase(), l = a.ToLowercase(), e = String::Empty(); o << a; i >> x;")
    use("String: ValueOf", "", 'String a = String::ValueOf(true); String b = String::ValueOf(nullptr); const bool c = false; String d = String::ValueOf(c);')
    FA = ["1", "1u", "2L", "3ULL", "(short)1", "1.5", "1.5f", "1.5L", "true", "'c'", '"text"', "std::string()", "String()", "Char('x')", "nullptr", "w::ST{}", "w::TS{}", "w::TO{}"]
    FP = "int i, const int ci, double d, const char* p, char arr[4], const std::string& s, const String& str, const Char& ch, bool b, unsigned long ul, const w::TS& ts, const w::ST& st, const w::TO& to"
    FV = ["i", "ci", "d", "p", "arr", "s", "str", "ch", "b", "ul", "ts", "st", "to"]
    for a in FA[:13]:
        use("String::Format with %s" % a, "", 'String r = String::Format("{}", %s); r = String::Format(String("{} {}"), %s, 1);' % (a, a))
    for a in FV[:10]:
        use("String::Format with an object %s" % a, FP, 'String r = String::Format("{}", %s);' % a)
    use("String::Format with several arguments", FP, 'String r = String::Format("{} {} {}", i, s, d); r = String::Format("plain"); r = String::Format(str, p, str, ch, b);')
    use("StringBuilder", "const String& s, int i", 'StringBuilder a, b("x"), c(s), d(\'c\'), e("{}", i), f(s, i), g(a), h(std::move(a)); b.Append("x"); b.Append(s); b.Append("{}", i); b.AppendLine("x"); b.AppendLine(s); b.AppendLine("{} {}", i, s); String r = b.str(); const StringBuilder& k = b; r = k.str(); StringBuilder t = MakeText(); StringBuilder t2 = MakeText(\'c\'), t3 = MakeText(s), t4 = MakeText("{}", i), t5 = MakeText("x");')
    use("string literals", "", 'Char c = "x"_char;')
    use("Char", "char b, CodePoint p, const char* s, const std::string& t", "Char a, c(b), d(p), e(s), f(t), g(a); a = b; a = p; a = s; a = t; a = c; bool r = a < c || a > c || a <= c || a >= c || a == c || a != c || a.IsEmpty() || a.NotEmpty(); SizeType n = a.size() + a.Length(); const char* x = a.data(); x = a.c_str(); std::string y = a.str(); CodePoint z = a.GetCodePoint(); (void)r; (void)n; (void)z; std::cout << a;")
    use("Char classification", "CodePoint p, const Char& c", "bool b = IsSpace(p) || IsDigit(p) || IsUppercase(p) || IsLowercase(p) || IsLetter(p); CodePoint q = ToUppercase(p) + ToLowercase(p); Char u = ToUppercase(c), l = ToLowercase(c); int d = ToDigit(p); (void)b; (void)q; (void)d;")
    # ---- streams and files
    for cls in ("OutputStream", "ErrorStream", "LogStream"):
        for m in ("Write", "WriteLine"):
            use("%s::%s" % (cls, m), FP, '%s; %s::%s("x"); %s::%s(s); %s::%s(str); %s::%s(ts); %s::%s(st); %s::%s(to); %s::%s("{}", i); %s::%s(str, i, d, s); %s::%s(w::TS{}); %s::%s(w::ST{}); %s::%s(w::TO{}); %s::%s(ch); %s::%s("{} {}", i, "x");' % (((cls + "::" + m + "()") if m == "WriteLine" else "(void)0",) + (cls, m) * 13))
    for m in ("Write", "WriteLine", "Append", "AppendLine"):
        use("File::%s" % m, "File& f, " + FP, 'f.%s("x"); f.%s(p); f.%s(str); f.%s(s); f.%s(ts); f.%s(st); f.%s(to); f.%s("{}", i); f.%s(str, i, d); f.%s("{} {}", i, "x"); f.%s(w::TS{}); f.%s(w::ST{}); f.%s(w::TO{});' % ((m,) * 13))
    use("File", "const String& n, File& g, const File& c", 'File a, b(n), d("f{}.txt", 1), e(n, 2), h(c), k("x.txt"); a.Open(); a.Close(); a.Erase(); bool r = c.IsEof() || static_cast<bool>(c); if (g) {} a.SetPosition(3); std::streampos p = c.GetPosition(); String t = a.Read(); t = a.ReadLine(); t = a.ReadLine(\';\'); (void)r; (void)p;')
    use("MakeFile", "", 'File f(MakeFile("x")); File g("x"_file);')
    use("InputStream", "const String& p, int i", 'String a = InputStream::ReadLine(); a = InputStream::ReadLine("x"); a = InputStream::ReadLine(p); a = InputStream::ReadLine("{}", i); Char c = InputStream::ReadChar(); c = InputStream::ReadChar("x"); c = InputStream::ReadChar(p); c = InputStream::ReadChar("{}", i);')
    # ---- random, comparison, maps
    for t in ("Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "Decimal"):
        use("Random<%s>" % t, "%s a, %s b" % (t, t), "%s r = Random<%s>(a, b); r = Random<%s>(); r = Random<%s>(a); (void)r;" % (t, t, t, t))
        # ---- JSON
    J = "Json::__Detail::JsonData"
    use("Json factories", "std::string s, const String& t", 'auto a = Json::MakeObject(), b = Json::MakeArray(), c = Json::MakeNull(), d = Json::MakeString("x"), e = Json::MakeString(s), f = Json::MakeFloating(1.5f), g = Json::MakeIntegral(1), h = Json::MakeBoolean(true), i = Json::MakeArray(1, "x", 2.5, true, a), j = Json::Make(Json::JsonClass::Object), k = Json::MakeArray(1); (void)t;')
    for v in ("1", "1u", "1L", "(short)1", "1.5", "1.5f", "true", '"x"', "std::string()", "a", "b"):
        use("Json value from %s" % v, "%s a, const %s b" % (J, J), "%s x{%s}; x = %s; x.Append(%s); x.Append(%s, 1, %s); x[String(\"k\")] = %s; auto y = Json::MakeArray(%s); y = Json::MakeArray(1, %s);" % (J, v, v, v, v, v, v, v, v))
    use("Json access", "%s a, const %s c, const String& k" % (J, J), 'a[k]; a["k"]; a[(SizeType)0]; a.At(k); a.At((SizeType)0); c.At(k); c.At((SizeType)0); bool r = c.HasMember(k) || c.HasMember("x") || c.IsNull() || c.IsObject() || c.IsArray() || c.IsString() || c.IsFloating() || c.IsIntegral() || c.IsBoolean() || c.GetBoolean(); SizeType n = c.Size() + c.Length(); String s = c.GetString(); Float f = c.GetFloating(); Int64 i = c.GetIntegral(); Json::JsonClass t = c.GetType(); s = c.ToString(); s = c.ToString(true); s = c.ToString(true, 4); (void)r; (void)n; (void)f; (void)i; (void)t;')
    use("JsonDocument", "const String& s, std::ifstream& f, std::istream& is, std::ostream& os, const %s& v" % J, 'JsonDocument a, b(s), c(f), d(a), e(std::move(a)), g("{}"); a = s; a = f; a = d; a = std::move(d); a[s] = 1; a["k"] = "x"; const JsonDocument& k = a; k[s]; a.Parse(s); a.Parse("x"); a.Parse(f); a.AddMember("k", v); a.AddMember(s, Json::MakeIntegral(1)); a.AddMember("k", 1); a.RemoveMember("k"); bool r = k.HasMember("k") || k.HasError(); SizeType n = k.Size(); auto q = k.GetError(); String t = k.GetErrorString(); t = k.ToString(); t = k.ToString(true, 4); auto z = k.GetType(); is >> a; os << k; JsonDocument m = Json::MakeDocument(); JsonDocument m2 = Json::MakeDocument(s), m3 = Json::MakeDocument(k), m4 = Json::MakeDocument(f), m5 = Json::MakeDocument(std::move(m)); (void)r; (void)n; (void)q; (void)z;')
    use("BigInteger", "const BigInteger& a, const BigInteger& b, std::ostream& os", 'BigInteger c, d((int64_t)1), e((uint64_t)1), f("12"), g(String("12")), h(a), i(std::move(h)); c = a; c = std::move(d); c = a.Add(b); c = a.Subtract(b); c = a.Multiply(b); c = a.Divide(b); c = a.Modulo(b); c = a.Abs(); c = a.Pow(2); c = a.Sqr(); c = a.Sqrt(); c = a + b; c = a - b; c = a * b; c = a / b; c = a % b; bool r = a < b || a > b || a <= b || a >= b || a == b || a != b || a.Equal(b) || a.LessThan(b) || a.GreaterThan(b); SizeType n = a.Size(); String s = a.ToString(); os << a; (void)r; (void)n;')
    use("SizeOf, limits", "int i", "SizeType n = SizeOf<int>() + SizeOf(i) + SizeOf<int>(MemoryFormat::Bit) + SizeOf(i, MemoryFormat::Bit); double a = MinValue<double>() + MaxValue<double>(); std::pair<int, int> r = ValueRange<int>(); (void)n; (void)a; (void)r;")
    for v in ("const std::map<int, std::string>", "std::map<std::string, int>", "std::unordered_map<int, w::Val>", "std::multimap<int, int>", "std::map<w::IntP, UniquePtr<int>>"):
        use("GetMapKeys of %s" % v, v + "& m", "auto k = GetMapKeys(m); std::vector<%s::key_type> k2 = k; (void)k2;" % ("typename std::remove_cv<%s>::type" % v).replace("typename ", ""))
        if "Unique" not in v:
            use("GetMapValues of %s" % v, v + "& m", "auto k = GetMapValues(m); std::vector<%s::mapped_type> k2 = k; (void)k2;" % ("std::remove_cv<%s>::type" % v))
    use("GetMapKeys, GetMapValues of a temporary", "", "auto k = GetMapKeys(std::map<int, char>{}); auto v = GetMapValues(std::map<int, char>{}); int i = k.at(0); char c = v.at(0); (void)i; (void)c;")
    use("string utilities", "const std::string& s, const String& t", 'std::vector<std::string> a = Split(s, \',\'); std::string b = Repeat(s, 3); String c = EscapeString(t); bool d = IsNumber(t); size_t e = FindFirstNonSpace(t) + FindLastNonSpace(t); c = EscapeString("x"); d = IsNumber("1"); (void)d; (void)e;')
    for a in ("int", "unsigned char", "short", "unsigned", "long", "unsigned long long"):
        for b in ("int", "signed char", "unsigned short", "long long", "unsigned long"):
            use("cmp_*(%s, %s)" % (a, b), "%s a, %s b" % (a, b), "bool r = cmp_eq(a, b) || cmp_ne(a, b) || cmp_less(a, b) || cmp_greater(a, b) || cmp_le(a, b) || cmp_ge(a, b); (void)r;")
    use("RandomBoolean", "double d", "Bool b = RandomBoolean(); b = RandomBoolean(d); (void)b;")
    use("Application", "int argc, const char** argv", "const Application* a = Application::Initialise(); a = Application::Initialize(argc, argv); const std::vector<const char*>& v = a->GetArgs(); const char* n = a->GetSystemName(); n = a->GetCompilerInfo(); n = a->GetCaitlynInfo(); (void)v; (void)n;")
    use("BigFloat", "const BigFloat& a, const BigFloat& b", 'BigFloat c("1.5"), d(a); c = a + b; c = a - b; c = a * b; c = a / b; bool r = a < b || a > b || a <= b || a >= b || a == b || a != b; String s = a.ToString(); (void)r;')
    use("JSON error messages", "Json::JsonError e", "String s = Json::GetErrorString(e);")
    return list(ITEMS)


def run(ctx):
    items = build()
    ctx.need(len(items), 200, "uses")
    assert_matrix(ctx, "usable", PRE, items)
