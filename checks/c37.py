"""C37: fundamental type names, sizes and limits."""
from harness import *
from witness import run_unit
LEVEL = "other"
EXPLANATION = ("static_asserts, type-checked with both compilers in every standard, compare each fundamental type name with the width, signedness and kind its name promises, and every size and limit query, "
               "for each integer type, with the language's own answer.")
ASSUMPTIONS = ["the analysed platform is the one of this sandbox (x86-64, LP64)", "limits of floating types other than the largest value are not stated by the property"]
PRE = r'''
#include <Caitlyn/Numeric>
#include <Caitlyn/Memory>
#include <Caitlyn/Utility>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <type_traits>
namespace w {
template <class T, int W, bool S> struct I { static constexpr bool v = std::is_integral<T>::value && std::is_signed<T>::value == S && sizeof(T) * CHAR_BIT == W && !std::is_same<T, bool>::value; };
struct Big { char a[37]; int b; };
}
'''
INTS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t", "bool"]


def items(std):
    L = []
    def sa(label, cond):
        L.append((label, 'static_assert(%s, "w");' % cond))
    for w in (8, 16, 32, 64):
        sa("Int%d" % w, "w::I<Caitlyn::Int%d, %d, true>::v" % (w, w))
        sa("UInt%d" % w, "w::I<Caitlyn::UInt%d, %d, false>::v" % (w, w))
    sa("SByte", "w::I<Caitlyn::SByte, 8, true>::v")
    sa("Byte", "w::I<Caitlyn::Byte, 8, false>::v")
    for a, b in [("StdChar", "char"), ("WChar", "wchar_t"), ("Char16", "char16_t"), ("Char32", "char32_t"), ("Int", "int"), ("UInt", "unsigned"), ("Bool", "bool"), ("NullPtr", "std::nullptr_t"),
                 ("Float", "float"), ("Double", "double"), ("Decimal", "long double"), ("SizeType", "std::size_t"), ("PtrDiff", "std::ptrdiff_t"), ("SSizeType", "std::make_signed<std::size_t>::type"),
                 ("IntMax", "std::intmax_t"), ("UIntMax", "std::uintmax_t"), ("IntPtr", "std::intptr_t"), ("UIntPtr", "std::uintptr_t"), ("Char8", "decltype(u8\"a\"[0] + 0, *u8\"a\")")]:
        if a == "Char8":
            b = "char8_t" if std == "c++20" else "char"
        sa("%s is %s" % (a, b), "std::is_same<Caitlyn::%s, %s>::value" % (a, b))
    sa("CodePoint holds every code point", "std::is_integral<Caitlyn::CodePoint>::value && (unsigned long long)std::numeric_limits<Caitlyn::CodePoint>::max() >= 0x10FFFF")
    for t in INTS:
        sa("MinValue<%s>" % t, "Caitlyn::MinValue<%s>() == std::numeric_limits<%s>::lowest() && std::is_same<decltype(Caitlyn::MinValue<%s>()), %s>::value" % (t, t, t, t))
        sa("MaxValue<%s>" % t, "Caitlyn::MaxValue<%s>() == std::numeric_limits<%s>::max() && std::is_same<decltype(Caitlyn::MaxValue<%s>()), %s>::value" % (t, t, t, t))
        if std != "c++11":
            sa("ValueRange<%s>" % t, "Caitlyn::ValueRange<%s>().first == std::numeric_limits<%s>::lowest() && Caitlyn::ValueRange<%s>().second == std::numeric_limits<%s>::max()" % (t, t, t, t))
    for t in ("float", "double", "long double"):
        sa("MaxValue<%s>" % t, "Caitlyn::MaxValue<%s>() == std::numeric_limits<%s>::max()" % (t, t))
    for t in INTS + ["float", "double", "long double", "void*", "w::Big", "int[7]"]:
        sa("SizeOf<%s> in bytes" % t, "Caitlyn::SizeOf<%s>() == sizeof(%s) && Caitlyn::SizeOf<%s>(Caitlyn::MemoryFormat::Byte) == sizeof(%s)" % (t, t, t, t))
        sa("SizeOf<%s> in bits" % t, "Caitlyn::SizeOf<%s>(Caitlyn::MemoryFormat::Bit) == sizeof(%s) * CHAR_BIT" % (t, t))
    for v, t in [("0", "int"), ("'a'", "char"), ("1.0", "double"), ("1ULL", "unsigned long long"), ("w::Big{}", "w::Big"), ('"abc"', "char[4]")]:
        sa("SizeOf(%s) in bytes" % v, "Caitlyn::SizeOf(%s) == sizeof(%s) && Caitlyn::SizeOf(%s, Caitlyn::MemoryFormat::Byte) == sizeof(%s)" % (v, t, v, t))
        sa("SizeOf(%s) in bits" % v, "Caitlyn::SizeOf(%s, Caitlyn::MemoryFormat::Bit) == sizeof(%s) * CHAR_BIT" % (v, t))
    return L


def run(ctx):
    from witness import assert_matrix
    ctx.need(len(items("c++11")), 100, "queries")
    assert_matrix(ctx, "type names, sizes and limits", PRE, items)
