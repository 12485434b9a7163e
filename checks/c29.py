"""C29: type queries agree with the language (static_assert matrix)."""
from harness import *
from witness import assert_matrix

LEVEL = "other"
EXPLANATION = ("A generated unit asserts, at compile time, each type query of the library against the language's own answer "
    "for a matrix of types (every type category, all cv and reference variants); it is type-checked with both compilers in "
    "C++11 to C++20. Nothing is run.")
ASSUMPTIONS = ["a representative type per category stands for the category: the queries are templates and cannot distinguish types otherwise than by the language's categories"]

PRELUDE = r'''
#include <Caitlyn/Traits>
#include <Caitlyn/Memory>
#include <type_traits>
#include <cstdint>
#include <istream>
#include <ostream>
#include <string>
#include <vector>
using namespace Caitlyn;
namespace w {
enum E { e1 }; enum class EC : short { a };
union U { int i; float f; };
struct Empty {}; struct Pod { int a; };
struct Poly { virtual ~Poly(); virtual void f(); }; struct Abs { virtual void f() = 0; };
struct NVD { ~NVD(); int x; };
struct Der : Pod {}; struct PrivD { private: ~PrivD(); };
struct NoCopy { NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct ThrowMove { ThrowMove(); ThrowMove(ThrowMove&&); ThrowMove(const ThrowMove&); ThrowMove& operator=(ThrowMove&&); ThrowMove& operator=(const ThrowMove&); };
struct MoveOnly { MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&) noexcept; };
struct NoDef { NoDef(int) noexcept; operator int() const; };
struct ThrowDtor { ~ThrowDtor() noexcept(false); };
struct AssignInt { AssignInt& operator=(int); AssignInt& operator=(float) noexcept; };
using Fn = int(int); using MF = int (Pod::*)(int) const; using MO = int Pod::*;
struct None {};
%s
struct HasTS { std::string to_string() const; }; struct HasS { std::string str() const; }; struct HasCS { const char* c_str() const; }; struct HasTS2 { std::string ToString() const; };
struct NonConstTS { std::string to_string(); };
}
'''
TYPES = ["void", "decltype(nullptr)", "bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t",
         "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long",
         "float", "double", "long double", "w::E", "w::EC", "w::U", "w::Empty", "w::Pod", "w::Poly", "w::Abs", "w::NVD", "w::Der",
         "w::PrivD", "w::NoCopy", "w::ThrowMove", "w::MoveOnly", "w::NoDef", "w::ThrowDtor", "w::Fn", "int*", "void*", "const int*", "w::Fn*", "w::MF", "w::MO",
         "int[3]", "int[]", "int[2][5]", "w::Pod[4]", "std::string", "std::vector<int>", "int**", "int* const*"]
STD1 = dict(IsFundamental="is_fundamental", IsArithmetic="is_arithmetic", IsScalar="is_scalar", IsObject="is_object", IsCompound="is_compound",
    IsReference="is_reference", IsMemberPointer="is_member_pointer", Constructible="is_constructible", TriviallyConstructible="is_trivially_constructible",
    NothrowConstructible="is_nothrow_constructible", DefaultConstructible="is_default_constructible", TriviallyDefaultConstructible="is_trivially_default_constructible",
    NothrowDefaultConstructible="is_nothrow_default_constructible", CopyConstructible="is_copy_constructible", TriviallyCopyConstructible="is_trivially_copy_constructible",
    NothrowCopyConstructible="is_nothrow_copy_constructible", MoveConstructible="is_move_constructible", TriviallyMoveConstructible="is_trivially_move_constructible",
    NothrowMoveConstructible="is_nothrow_move_constructible", CopyAssignable="is_copy_assignable", TriviallyCopyAssignable="is_trivially_copy_assignable",
    NothrowCopyAssignable="is_nothrow_copy_assignable", MoveAssignable="is_move_assignable", TriviallyMoveAssignable="is_trivially_move_assignable",
    NothrowMoveAssignable="is_nothrow_move_assignable", Destructible="is_destructible", TriviallyDestructible="is_trivially_destructible",
    NothrowDestructible="is_nothrow_destructible", HasVirtualDestructor="has_virtual_destructor", IsVoid="is_void", IsFloating="is_floating_point",
    IsArray="is_array", IsEnum="is_enum", IsUnion="is_union", IsClass="is_class", IsFunction="is_function", IsPointer="is_pointer",
    IsLValueReference="is_lvalue_reference", IsRValueReference="is_rvalue_reference", IsMemberObjectPointer="is_member_object_pointer",
    IsMemberFunctionPointer="is_member_function_pointer", IsConst="is_const", IsVolatile="is_volatile", IsTrivial="is_trivial",
    IsTriviallyCopyable="is_trivially_copyable", IsStandardLayout="is_standard_layout", IsEmpty="is_empty", IsPolymorphic="is_polymorphic",
    IsAbstract="is_abstract", IsSigned="is_signed", IsUnsigned="is_unsigned", IsIntegral="is_integral")
OPS = [("Less", "<"), ("Greater", ">"), ("Add", "+"), ("Subtract", "-"), ("Multyply", "*"), ("Divide", "/"), ("Modulus", "%"), ("Equal", "=="),
       ("NotEqual", "!="), ("BitwiseAnd", "&"), ("BitwiseOr", "|"), ("BitwiseXor", "^"), ("LeftShift", "<<"), ("RightShift", ">>")]
CONT = ["begin", "end", "push_back", "pop_back", "size", "front", "back", "data", "clear", "resize", "empty"]


def variants(t, std):
    if t == "char8_t" and std != "c++20":
        return []
    if t == "w::Fn":
        return [t, t + "&", t + "&&"]
    a = "typename std::common_type<%s>::type" if False else None
    base = ["T_%d"]
    out = []
    for cv in ("", "const ", "volatile ", "const volatile "):
        out.append((cv, ""))
    return out


def items(std):
    out = []
    types = list(TYPES) + (["char8_t"] if std == "c++20" else [])
    al = []
    k = 0
    def alias(decl):
        nonlocal k
        k += 1
        out.append(("alias", "using T%d = %s;" % (k, decl)))
        return "T%d" % k
    vs = []
    for t in types:
        b = alias(t)
        vs.append((t, b, t))
        if t == "w::Fn":
            forms = ["%s&", "%s&&"]
        elif t == "void":
            forms = ["const %s", "volatile %s", "const volatile %s"]
        else:
            forms = ["const %s", "volatile %s", "const volatile %s", "%s&", "%s&&", "const %s&", "volatile %s&&"]
        for f in forms:
            vs.append((f % ("<" + t + ">"), alias(f % b), t))
    names = {a: n for n, a, _ in vs}
    def A(label, cond):
        out.append((label, 'static_assert(%s, "w");' % cond))
    for n, a, base in vs:
        for q, s in STD1.items():
            if q == "IsAbstract" and False:
                continue
            A("%s of %s" % (q, n), "%s<%s>() == std::%s<%s>::value" % (q, a, s, a))
        rc = "std::remove_cv<%s>::type" % a
        A("IsNullPointer of " + n, "IsNullPointer<%s>() == std::is_same<%s, decltype(nullptr)>::value" % (a, rc))
        A("IsBoolean of " + n, "IsBoolean<%s>() == std::is_same<%s, bool>::value" % (a, rc))
        chars = ["char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t"] + (["char8_t"] if std == "c++20" else [])
        A("IsCharacter of " + n, "IsCharacter<%s>() == (%s)" % (a, " || ".join("std::is_same<%s, %s>::value" % (rc, c) for c in chars)))
        nonint = ["bool", "char", "wchar_t", "char16_t", "char32_t"] + (["char8_t"] if std == "c++20" else [])
        A("IsInteger of " + n, "IsInteger<%s>() == (std::is_integral<%s>::value && !(%s))" % (a, a, " || ".join("std::is_same<%s, %s>::value" % (rc, c) for c in nonint)))
        A("Rank of " + n, "Rank<%s>() == std::rank<%s>::value" % (a, a))
        A("Extent of " + n, "Extent<%s>() == std::extent<%s>::value" % (a, a))
        if base not in ("void", "w::Fn", "int[]") or n.endswith("&") and base not in ("w::Fn", "int[]"):
            A("AlignmentOf of " + n, "AlignmentOf<%s>() == std::alignment_of<%s>::value" % (a, a))
        for q, s in [("AddConstType", "add_const"), ("AddVolatileType", "add_volatile"), ("AddCVType", "add_cv"), ("RemoveConstType", "remove_const"),
                     ("RemoveVolatileType", "remove_volatile"), ("RemoveCVType", "remove_cv"), ("RemoveReferenceType", "remove_reference"),
                     ("AddLValueReferenceType", "add_lvalue_reference"), ("AddRValueReferenceType", "add_rvalue_reference"),
                     ("AddPointerType", "add_pointer"), ("RemovePointerType", "remove_pointer")]:
            A("%s of %s" % (q, n), "std::is_same<%s<%s>, std::%s<%s>::type>::value" % (q, a, s, a))
    # pointers with cv
    for p in ["int* const", "int* volatile", "int* const volatile", "const int* const"]:
        a = alias(p)
        A("IsPointer of " + p, "IsPointer<%s>()" % a)
        A("RemovePointerType of " + p, "std::is_same<RemovePointerType<%s>, std::remove_pointer<%s>::type>::value" % (a, a))
    for i, (n, a, _) in enumerate(vs):
        for (m, b, _) in [vs[i], vs[(i + 1) % len(vs)], vs[(i + 3) % len(vs)], vs[(i * 7 + 11) % len(vs)]]:
            A("Same of %s, %s" % (n, m), "Same<%s, %s>() == std::is_same<%s, %s>::value" % (a, b, a, b))
            A("Different of %s, %s" % (n, m), "Different<%s, %s>() != std::is_same<%s, %s>::value" % (a, b, a, b))
    rel = ["int", "float", "w::Pod", "w::Der", "w::NoDef", "w::AssignInt", "const w::Pod", "int*", "void*", "const void*", "w::MoveOnly", "w::NoCopy", "void"]
    for x in rel:
        for y in rel:
            A("Convertible %s, %s" % (x, y), "Convertible<%s, %s>() == std::is_convertible<%s, %s>::value" % (x, y, x, y))
            if "w::" in x and "w::" in y:
                A("BaseOf %s, %s" % (x, y), "BaseOf<%s, %s>() == std::is_base_of<%s, %s>::value" % (x, y, x, y))
            for q, s in [("Assignable", "is_assignable"), ("TriviallyAssignable", "is_trivially_assignable"), ("NothrowAssignable", "is_nothrow_assignable")]:
                xr = x if x == "void" else x + "&"
                A("%s %s, %s" % (q, xr, y), "%s<%s, %s>() == std::%s<%s, %s>::value" % (q, xr, y, s, xr, y))
    # sign modifiers
    for s, u in [("signed char", "unsigned char"), ("short", "unsigned short"), ("int", "unsigned"), ("long", "unsigned long"), ("long long", "unsigned long long")]:
        for t in (s, u):
            A("MakeSignedType of " + t, "std::is_same<MakeSignedType<%s>, %s>::value" % (t, s))
            A("MakeUnsignedType of " + t, "std::is_same<MakeUnsignedType<%s>, %s>::value" % (t, u))
    A("MakeSignedType of char", "std::is_same<MakeSignedType<char>, signed char>::value")
    A("MakeUnsignedType of char", "std::is_same<MakeUnsignedType<char>, unsigned char>::value")
    # operators: one type per operator, nothing else offers it
    have = ["w::Has%s" % n for n, _ in OPS] + ["w::None", "w::HasInc", "w::HasDec", "w::HasSub", "w::HasOut", "w::HasIn"]
    for n, op in OPS:
        for h in have:
            A("Has%sOperatorType of %s" % (n, h), "Has%sOperatorType<%s>::Value == %s" % (n, h, "true" if h == "w::Has" + n else "false"))
        A("Has%sOperatorType of int" % n, "Has%sOperatorType<int>::Value" % n)
    for n, h1 in [("Increment", "w::HasInc"), ("Decrement", "w::HasDec"), ("Subscript", "w::HasSub"), ("OStream", "w::HasOut"), ("IStream", "w::HasIn")]:
        for h in have:
            A("Has%sOperatorType of %s" % (n, h), "Has%sOperatorType<%s>::Value == %s" % (n, h, "true" if h == h1 else "false"))
    for n in ("Increment", "Decrement", "OStream", "IStream"):
        A("Has%sOperatorType of int" % n, "Has%sOperatorType<int>::Value" % n)
    A("HasIStreamOperatorType of std::string", "HasIStreamOperatorType<std::string>::Value")
    A("HasModulusOperatorType of double", "!HasModulusOperatorType<double>::Value")
    A("HasAddOperatorType of int*", "!HasAddOperatorType<int*>::Value && HasSubtractOperatorType<int*>::Value")
    for q, h1 in [("HasToString", "HasTS"), ("HasStr", "HasS"), ("HasCStr", "HasCS"), ("ConvertibleToString", "HasTS2")]:
        for h in ("HasTS", "HasS", "HasCS", "HasTS2", "None"):
            A("%s of %s" % (q, h), "%s<w::%s>() == %s" % (q, h, "true" if h == h1 else "false"))
        A("%s of int" % q, "!%s<int>()" % q)
    A("HasCStr of std::string", "HasCStr<std::string>() && !HasStr<std::string>()")
    A("BooleanConstant", "TrueType::Value && !FalseType::Value && TrueType{}() && !FalseType{}() && std::is_same<TrueType::ValueType, bool>::value && bool(TrueType{}) && !bool(FalseType{})")
    A("Required", "std::is_same<Required<true, int>, int>::value && std::is_same<Required<true>, void>::value")
    out.append(("Required selects", "template <typename T> char sel_(Required<IsInteger<T>()>*); template <typename T> long sel_(...); "
                'static_assert(sizeof(sel_<int>(nullptr)) == 1 && sizeof(sel_<float>(nullptr)) == sizeof(long), "w");'))
    return out


def prelude():
    s = ""
    for n, op in OPS:
        s += "struct Has%s { int operator%s(const Has%s&) const; };\n" % (n, op, n)
    s += "struct HasInc { HasInc& operator++(); }; struct HasDec { HasDec& operator--(); }; struct HasSub { int operator[](const HasSub&) const; };\n"
    s += "struct HasOut {}; std::ostream& operator<<(std::ostream&, const HasOut&); struct HasIn {}; std::istream& operator>>(std::istream&, HasIn&);\n"
    return PRELUDE % s


def run(ctx):
    its = items("c++11")
    ctx.need(len(its), 15000, "type query assertions")
    assert_matrix(ctx, "type query", prelude(), items, stds=STDS if ctx.tier == "thorough" else ["c++11", "c++17", "c++20"])
    ctx.count("type_query_assertions", sum(len(items(s)) for s in STDS))
