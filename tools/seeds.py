"""Planted bugs (definitions); mkseed.py turns them into seeded/<id>/."""
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


EXP = "__Core/Error/Expected.h"
MEM = "__Core/Memory/Types/"

seed("c01-moveassign-order", "C01", "move assignment between objects in different states", "the alternative of the other state is destroyed",
     [(EXP, """            DestroyUnion();
            hasValue_ = other.hasValue_;
            if (hasValue_)
            {
                new (&data_.value) ValueType{std::move(other.data_.value)};""", """            const bool otherHasValue = other.hasValue_;
            if (hasValue_ == otherHasValue || otherHasValue)
            {
                DestroyUnion();
            }
            hasValue_ = otherHasValue;
            if (hasValue_)
            {
                new (&data_.value) ValueType{std::move(other.data_.value)};""")],
     """
#include <Caitlyn/Error>
#include <cstdio>
using namespace Caitlyn;
static int live = 0;
struct V { V() { ++live; } V(const V&) { ++live; } V(V&&) noexcept { ++live; } V& operator=(const V&) = default; ~V() { --live; } };
int main()
{
    {
        Expected<V, int> a{V{}};
        Expected<V, int> b{Unexpected<int>{3}};
        a = std::move(b);
        if (a.HasValue() || live != 0) return 1;
    }
    return live == 0 ? 0 : 1;
}
""")

seed("c02-orelse-retry", "C02", "a recovery function that itself reports an error", "the recovery function runs twice",
     [(EXP, """    auto OrElse(Func func) const -> Expected
    {
        if (!hasValue_)
        {
            return func(data_.error.Get());
        }
        return *this;""", """    auto OrElse(Func func) const -> Expected
    {
        if (!hasValue_)
        {
            const Expected recovered = func(data_.error.Get());
            return recovered.HasValue() ? recovered : Expected(func(recovered.GetError()));
        }
        return *this;""")],
     """
#include <Caitlyn/Error>
using namespace Caitlyn;
int main()
{
    int calls = 0;
    Expected<int, int> e{Unexpected<int>{3}};
    auto r = e.OrElse([&](const int& x) { ++calls; return Expected<int, int>{Unexpected<int>{x + 1}}; });
    return calls == 1 && r.HasError() && r.GetError() == 4 ? 0 : 1;
}
""")

seed("c03-reset-self", "C03", "resetting a pointer to the object it owns", "the object is deleted while still owned",
     [(MEM + "UniquePointer.h", """        if (data_ != new_data)
        {""", """        if (data_)
        {""")],
     """
#include <Caitlyn/Memory>
using namespace Caitlyn;
static int dead = 0;
struct V { ~V() { ++dead; } };
int main()
{
    V* raw = new V;
    UniquePtr<V> p(raw);
    p.Reset(p.Get());
    if (dead != 0) { p.Release(); return 1; }
    return 0;
}
""")

seed("c04-reset-own", "C04", "resetting an owner to the object it already shares", "the object dies although other owners remain, or is owned by two counts",
     [(MEM + "SharedPointer.h", """        if (data_ != data)
        {""", """        if (data_ || data)
        {""")],
     """
#include <Caitlyn/Memory>
#include <cstdlib>
using namespace Caitlyn;
static int dead = 0;
struct V { ~V() { ++dead; } };
int main()
{
    SharedPtr<V> a(new V);
    SharedPtr<V> b(a);
    b.Reset(b.Get());
    a.Reset();
    _Exit(dead == 0 ? 0 : 1);       // b still owns the object
}
""")

seed("c04-nonatomic-share", "C04", "two threads copying into their own owners of one object at the same time", "an increment is lost and the object dies early",
     [(MEM + "SharedPointer.h", """                ref_count_->fetch_add(1);""", """                ref_count_->store(ref_count_->load() + 1);""")],
     """
#include <Caitlyn/Memory>
#include <atomic>
#include <thread>
#include <vector>
#include <cstdlib>
using namespace Caitlyn;
static std::atomic<int> dead{0};
struct V { ~V() { if (++dead == 1) _Exit(1); } };
int main()
{
    SharedPtr<V> root(new V);
    for (int round = 0; round < 20; ++round)
    {
        std::vector<std::thread> ts;
        for (int i = 0; i < 4; ++i)
            ts.emplace_back([&root] {
                for (int k = 0; k < 20000; ++k) { SharedPtr<V> p; p = root; }
            });
        for (auto& t : ts) t.join();
    }
    // a lost increment drops the count below one while root still owns the object; a lost decrement leaks it
    struct Peek { V* d; std::atomic_size_t* c; };
    if (reinterpret_cast<Peek&>(root).c->load() != 1) _Exit(1);
    _Exit(0);
}
""")

seed("c05-ptr-reset-keeps", "C05", "a raw pointer wrapper reset without a new object", "dereferencing after reset yields the deleted object",
     [(MEM + "RawPointer.h", """        delete data_;
        data_ = new_data;""", """        delete data_;
        if (new_data)
        {
            data_ = new_data;
        }""")],
     """
#include <Caitlyn/Memory>
#include <stdexcept>
using namespace Caitlyn;
int main()
{
    Ptr<int> p(new int(3));
    p.Reset();
    try { int* q = p.operator->(); (void)q; return 1; } catch (const std::exception&) { return 0; }
}
""")

seed("c28-cxx20-keyword", "C28", "a program compiled as C++20", "the error header uses a word that is a keyword from C++20 on",
     [(EXP, """    auto Customize(Func&& func) const -> decltype(func(*this))
    {
        return func(*this);""", """    auto Customize(Func&& requires) const -> decltype(requires(*this))
    {
        return requires(*this);""")],
     """
#include <Caitlyn/Error>
int main() { Caitlyn::Expected<int, int> e{3}; return e.HasValue() ? 0 : 1; }
""", cfail=1, flags="-std=c++20")

seed("c29-makeunsigned-longlong", "C29", "a long long argument", "the unsigned counterpart has another type",
     [("__Core/Traits/Types/SignModifiers.h", """struct __MakeUnsigned<long long>
{
    using Type = unsigned long long;""", """struct __MakeUnsigned<long long>
{
    using Type = unsigned long;""")],
     """
#include <Caitlyn/Traits>
#include <type_traits>
int main() { return std::is_same<Caitlyn::MakeUnsignedType<long long>, std::make_unsigned<long long>::type>::value ? 0 : 1; }
""")

# ---------------------------------------------------------------- second series
BIG = "__Numeric/Types/BigInteger.h"
JD = "__Serializing/Json/Types/JsonData.h"
JP = "__Serializing/Json/Types/JsonParser.h"
JS = "__Serializing/Json/Types/Json.h"
STR = "__Core/String/String.h"
STU = "__Core/String/Utility.h"
CHR = "__Core/Char/Char.h"
CHU = "__Core/Char/Utility.h"
FIL = "__Core/File/File.h"
REG = "__Testing/Types/TestRegistry.h"

seed("c90-borrow-chain", "C90", "a borrow that runs through digits the smaller operand does not have", "the difference is off by a power of ten",
     [(BIG, """            if (diff < 0)
            {
                diff += 10;
                borrow = 1;
            }""", """            if (diff < 0)
            {
                diff += 10;
                borrow = i <= smaller.digits_.size() ? 1 : 0;
            }""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    if (!(BigInteger{"1000"}.Subtract(BigInteger{"1"}) == BigInteger{"999"})) return 1;
    if (!(BigInteger{"100"}.Subtract(BigInteger{"1"}) == BigInteger{"99"})) return 1;
    return BigInteger{"20000001"}.Subtract(BigInteger{"2"}) == BigInteger{"19999999"} ? 0 : 1;
}
""")

seed("c25-product-order", "C25", "a negative number multiplied by zero", "negative zero: a zero that is not equal to zero and is less than it",
     [(BIG, """        result.is_negative_ = is_negative_ != other.is_negative_;
        result.RemoveLeadingZeros();
        return result;
    }

    BigInteger Divide""", """        result.RemoveLeadingZeros();
        result.is_negative_ = is_negative_ != other.is_negative_;
        return result;
    }

    BigInteger Divide""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    const BigInteger z = BigInteger{"-7"}.Multiply(BigInteger{"0"});
    return z == BigInteger{"0"} && !(z < BigInteger{"0"}) ? 0 : 1;
}
""")

seed("c25-moved-sign", "C25", "a negative number that has been moved from by assignment and is then used", "the moved-from object is a negative zero",
     [(BIG, """            digits_ = std::move(other.digits_);
            is_negative_ = other.is_negative_;
            other.is_negative_ = false;""", """            digits_ = std::move(other.digits_);
            is_negative_ = other.is_negative_;""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    BigInteger a{"-12"};
    BigInteger b;
    b = std::move(a);
    return b == BigInteger{"-12"} && !(a < BigInteger{"0"}) ? 0 : 1;
}
""")

seed("c26-quotient-sign", "C26", "a dividend of smaller magnitude than the divisor, or both operands negative", "the quotient has the wrong sign",
     [(BIG, """        quotient.is_negative_ = is_negative_ != other.is_negative_;
        quotient.RemoveLeadingZeros();""", """        quotient.is_negative_ = is_negative_ || other.is_negative_;
        quotient.RemoveLeadingZeros();""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    return BigInteger{"-84"}.Divide(BigInteger{"-2"}) == BigInteger{"42"} ? 0 : 1;
}
""")

seed("c27-zero-shortcut", "C27", "zero divided by zero", "zero divided by zero is one instead of an error",
     [(BIG, """        if (other.Equal(BigInteger{"0"}))
        {
            throw std::invalid_argument{"Division by zero"};
        }
        BigInteger dividend = *this;""", """        if (Equal(other))
        {
            return BigInteger{"1"};
        }
        if (other.Equal(BigInteger{"0"}))
        {
            throw std::invalid_argument{"Division by zero"};
        }
        BigInteger dividend = *this;""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    try { BigInteger{"0"}.Divide(BigInteger{}); } catch (const std::invalid_argument&) { return 0; }
    return 1;
}
""")

seed("c27-sqrt-negative", "C27", "the square root of a negative number of one digit", "the root of a negative number is returned instead of an error",
     [(BIG, """        if (is_negative_)
        {
            throw std::invalid_argument{"Square root of negative number"};
        }
        if (this->Equal(BigInteger{"0"}) || this->Equal(BigInteger{"1"}))
        {
            return *this;
        }""", """        if (digits_.empty() || (digits_.size() == 1 && digits_.front() == 1))
        {
            return *this;
        }
        if (is_negative_)
        {
            throw std::invalid_argument{"Square root of negative number"};
        }""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    if (!(BigInteger{"1"}.Sqrt() == BigInteger{"1"})) return 1;
    try { BigInteger{"-1"}.Sqrt(); } catch (const std::invalid_argument&) { return 0; }
    return 1;
}
""")

seed("c34-empty-line", "C34", "an empty line appended to a text that is not empty", "the empty line is lost",
     [("__Core/String/StringBuilder.h", """    void AppendLine(const String& str)
    {
        data_ << str << Def::LineFeed;
    }""", """    void AppendLine(const String& str)
    {
        Append(str);
        if (data_.tellp() > 0 && str.NotEmpty())
        {
            data_ << Def::LineFeed;
        }
    }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    StringBuilder b;
    b.AppendLine("a");
    b.AppendLine("");
    b.Append("b");
    return b.str() == String("a\\n\\nb") ? 0 : 1;
}
""")

seed("c36-last-backslash", "C36", "a text that ends in a backslash", "the character after the end of the text is read",
     [(STU, """        if (str[i] == Def::ReverseSolidus && i + 1 < str.size())""",
       """        if (str[i] == Def::ReverseSolidus && i < str.size())""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    return EscapeString("ab\\\\") == String("ab\\\\") ? 0 : 1;
}
""", flags="-fsanitize=address -g")

seed("c94-kmp-failure", "C94", "a pattern whose prefix occurs again inside it, found after a partial match", "an occurrence is missed",
     [("__Core/String/Algorithms/Kmp.h", """        while (j != std::string::npos && pattern[j] != text[i])
        {
            j = failure[j];
        }
        if (++j == pattern_size)""", """        if (j != std::string::npos && pattern[j] != text[i])
        {
            j = failure[j];
            if (j != std::string::npos && pattern[j] != text[i])
            {
                j = std::string::npos;
            }
        }
        if (++j == pattern_size)""")], """
#include <Caitlyn/String>
#include <string>
using namespace Caitlyn;
int main()
{
    const std::string l = "ab";
    for (int n = 0; n < 256; ++n)
        for (int m = 0; m < 4096; ++m)
        {
            std::string p, t;
            for (int i = 0; i < 8; ++i) p += l[n >> i & 1];
            for (int i = 0; i < 12; ++i) t += l[m >> i & 1];
            if (kmp(p, t) != (t.find(p) != std::string::npos)) return 1;
        }
    return 0;
}
""")

seed("c94-find-restart", "C94", "a substring searched for from a position past its last occurrence start", "an occurrence before the start position is reported",
     [(STR, """        const auto it =
            std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
        return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
    }

    // Method to find the last""", """        const auto first = data_.begin() + static_cast<DifferenceType>(substr.size() + pos > size() ? 0 : pos);
        const auto it = std::search(first, data_.end(), substr.begin(), substr.end());
        return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
    }

    // Method to find the last""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    return String("abcab").Find("abc", 3) == String::NPosition ? 0 : 1;
}
""")

seed("c17-substring-wrap", "C17", "a count so large that position plus count wraps around", "the characters before the position are taken",
     [(STR, """            data_.begin() + static_cast<DifferenceType>(pos + std::min(count, size() - pos)))};""",
       """            data_.begin() + static_cast<DifferenceType>(std::min(pos + (count == NPosition ? size() : count), size())))};""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    return String("abcdef").Substring(3, static_cast<SizeType>(-2)) == String("def") ? 0 : 1;
}
""", flags="-fsanitize=address -g")

seed("c06-copy-duplicate", "C06", "the copy of an object that has a member with an empty key", "copy and original share a member, which is destroyed twice",
     [(JD, """                    data_.object_value.emplace_back(item.first, new JsonData{*item.second});""",
       """                    data_.object_value.emplace_back(
                        item.first, item.first.IsEmpty() ? item.second : new JsonData{*item.second});""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"\\": {}, \\"b\\": 1}"};
    JsonDocument c{d};
    c[""]["x"] = 1;
    return d.ToString() == String("{\\"\\":{},\\"b\\":1}") ? 0 : 1;
}
""", flags="-fsanitize=address -g")

seed("c07-getboolean", "C07", "the boolean getter of a value that holds a number or text", "the bits of another kind are read as a boolean",
     [(JD, """        return IsBoolean() && data_.boolean_value;""", """        return (IsBoolean() || IsIntegral()) && data_.boolean_value;""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    return Json::MakeIntegral(1).GetBoolean() ? 1 : 0;
}
""")

seed("c07-null-size", "C07", "a value that was null and is used as an array after having been an object", "the kind stays the old one",
     [(JD, """        if (type_ != JsonClass::Array)
        {
            SetType(JsonClass::Array);
        }
        data_.array_value.emplace_back(new JsonData{arg});""", """        if (IsNull() || (!IsArray() && !IsObject()))
        {
            SetType(JsonClass::Array);
        }
        if (IsArray())
        {
            data_.array_value.emplace_back(new JsonData{arg});
        }""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    auto v = Json::MakeObject();
    v.Append(1);
    return v.IsArray() && v.Size() == 1 ? 0 : 1;
}
""")

seed("c09-keep-root", "C09", "a document that held a value and is then given a text with an error", "the old value stays behind the error",
     [(JS, """        if (parser.HasError())
        {
            error_ = parser.GetError();
            root_ = Json::MakeNull();
        }""", """        if (parser.HasError())
        {
            if (error_ == ErrorType::NoError && root_.Size() == 0)
            {
                root_ = Json::MakeNull();
            }
            error_ = parser.GetError();
        }""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"a\\": 1}"};
    d.Parse("{\\"a\\": }");
    return d.HasError() && !d.HasMember("a") ? 0 : 1;
}
""")

seed("c09-stale-error", "C09", "a document with an error that is then given a correct text by assignment", "the old error stays",
     [(JS, """            root_ = std::move(other.root_);
            error_ = other.error_;
            other.root_ = Json::MakeNull();""", """            root_ = std::move(other.root_);
            if (other.HasError())
            {
                error_ = other.error_;
            }
            other.root_ = Json::MakeNull();""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"a\\": }"};
    JsonDocument e{"{\\"a\\": 1}"};
    d = std::move(e);
    return d.HasError() || !d.HasMember("a") ? 1 : 0;
}
""")

seed("c11-comma-null", "C11", "an object in which a null member is followed by another", "the comma between the members is missing",
     [(JD, """                        member.second->MakeOutput(oss, mangling, base_indent, indent + base_indent);
                        first = false;""", """                        member.second->MakeOutput(oss, mangling, base_indent, indent + base_indent);
                        first = first && member.second->IsNull();""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"a\\": null, \\"b\\": null}"};
    return d.ToString() == String("{\\"a\\":null,\\"b\\":null}") ? 0 : 1;
}
""")

seed("c11-indent-nested", "C11", "an indented document with an empty array inside an array", "the closing bracket of a nested array is lost",
     [(JD, """                    if (mangling)
                    {
                        oss << Def::LineFeed;
                    }
                }
                if (mangling)
                {
                    oss << StringType(indent - base_indent, Def::Space);
                }
                oss << Def::RightSquareBracket;
                break;""", """                    if (mangling)
                    {
                        oss << Def::LineFeed;
                    }
                }
                else if (mangling && indent > base_indent)
                {
                    break;
                }
                if (mangling)
                {
                    oss << StringType(indent - base_indent, Def::Space);
                }
                oss << Def::RightSquareBracket;
                break;""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"a\\": [[]]}"};
    JsonDocument e{d.ToString(true)};
    return !e.HasError() && e.ToString() == String("{\\"a\\":[[]]}") ? 0 : 1;
}
""")

seed("c12-escape-r", "C12", "a string with the escape for a carriage return", "it is read as a line feed",
     [(JP, """                    escaped_stream << Def::CarriageReturn;""", """                    escaped_stream << Def::LineFeed;""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"a\\": \\"x\\\\ry\\"}"};
    return d["a"].GetString() == String("x\\ry") ? 0 : 1;
}
""")

seed("c92-index-append", "C92", "an object that has the empty string among its keys", "the member with the empty key is not written",
     [(JD, """                        if (mangling)
                        {
                            oss << indent_str;
                        }
                        WriteString(oss, member.first);""", """                        if (mangling)
                        {
                            oss << indent_str;
                        }
                        if (member.first.IsEmpty() && !mangling)
                        {
                            continue;
                        }
                        WriteString(oss, member.first);""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"\\": 1, \\"b\\": 2}"};
    JsonDocument e{d.ToString()};
    return !e.HasError() && e.Size() == 2 && e.HasMember("") ? 0 : 1;
}
""")

seed("c10-shared-message", "C10", "the message of an error for a missing closing bracket", "two errors have the same message",
     [("__Serializing/Json/Utility.h", """            return "Unterminated array.";""", """            return "Unterminated object.";""")], """
#include <Caitlyn/Serializing>
#include <cstring>
using namespace Caitlyn;
int main()
{
    return std::strcmp(Json::GetErrorString(Json::JsonError::UnterminatedArray), Json::GetErrorString(Json::JsonError::UnterminatedObject)) != 0 ? 0 : 1;
}
""")

seed("c13-codepoint-plane", "C13", "a character beyond U+FFFFF", "the code point of the character is wrong",
     [(CHR, """            codePoint = (lead & 0x07) << 18;""", """            codePoint = (lead & 0x03) << 18;""")], """
#include <Caitlyn/Char>
using namespace Caitlyn;
int main()
{
    return Char(CodePoint{0x10FFFD}).GetCodePoint() == 0x10FFFD && Char(CodePoint{0x1F600}).GetCodePoint() == 0x1F600 ? 0 : 1;
}
""")

seed("c13-assign-bytes", "C13", "assignment of bytes that are not one character", "an object that is not a character",
     [(CHR, """    Char& operator=(const DataType& bytes)
    {
        if (!IsValidUtf8Char(bytes))
        {""", """    Char& operator=(const DataType& bytes)
    {
        if (!bytes.empty() && !IsValidUtf8Char(bytes.substr(0, bytes.size() > 4 ? 1 : bytes.size())))
        {""")], """
#include <Caitlyn/Char>
#include <string>
using namespace Caitlyn;
int main()
{
    Char c('a');
    try { c = std::string("hello"); } catch (const std::invalid_argument&) { return 0; }
    return 1;
}
""")

seed("c14-digit-range", "C14", "the digit nine of the Vai script", "it is not a digit",
     [(CHU, """(codePoint >= 0xA620 && codePoint <= 0xA629)""", """(codePoint >= 0xA620 && codePoint < 0xA629)""")], """
#include <Caitlyn/Char>
using namespace Caitlyn;
int main()
{
    return IsDigit(0xA629) && IsDigit(0xA620) ? 0 : 1;
}
""")

seed("c16-ge-prefix", "C16", "two strings of which one begins with the other", "both a >= b and a < b hold",
     [(STR, """    bool operator>=(const String& other) const
    {
        return data_ >= other.data_;
    }""", """    bool operator>=(const String& other) const
    {
        return StartsWith(other) || other.StartsWith(*this) || data_ > other.data_;
    }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    const String a("ab"), b("abc");
    return (a >= b) == !(a < b) ? 0 : 1;
}
""")

seed("c19-brace-end", "C19", "a format text that ends in a single left brace", "the text is read past its end",
     [(STR, """                if (pos + 1 < formatter.size() && formatter[pos + 1] == Def::LeftCurlyBracket)""",
       """                if (pos < formatter.size() && formatter[pos + 1] == Def::LeftCurlyBracket)""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    try { String::Format("abcdefg{", 1); } catch (const std::exception&) { return 0; }
    return 1;
}
""", flags="-O1 -fsanitize=address -g")

seed("c20-center-odd", "C20", "a centred field whose padding is odd", "the field is one character too narrow",
     [(STR, """                    value.Append(padding - padding / 2, spec.fill);""", """                    value.Append(padding / 2, spec.fill);""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    return String::Format("{0:*^6s}", "abc").size() == 6 ? 0 : 1;
}
""")

seed("c20-precision-tail", "C20", "a precision larger than the number of decimals of the argument", "fewer decimals than asked for",
     [(STR, """                    while (index < limit)
                    {
                        oss << Def::DigitZero;
                        ++index;
                    }""", """                    while (index < limit && index < value.size())
                    {
                        oss << Def::DigitZero;
                        ++index;
                    }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    return String::Format("{0:.9f}", 1.5) == String("1.500000000") ? 0 : 1;
}
""")

seed("c21-line-object", "C21", "a line written from an object with ToString", "the line ending is missing",
     [(FIL, """        file_ << data.ToString() << Def::LineFeed;
        EndWrite();
    }

    template <typename... Args>
    void AppendLine""", """        file_ << data.ToString();
        EndWrite();
    }

    template <typename... Args>
    void AppendLine""")], """
#include <Caitlyn/File>
using namespace Caitlyn;
struct V { String ToString() const { return "v"; } };
int main()
{
    File f("demo.txt");
    f.AppendLine(V{});
    f.AppendLine(V{});
    return f.Read() == String("v\\nv\\n") ? 0 : 1;
}
""")

seed("c38-readline-empty", "C38", "reading lines when a line of the file is empty", "empty lines are skipped",
     [(FIL, """            if (ch == delim)
            {
                currentPosition_ = file_.tellg();
                return result.str();
            }""", """            if (ch == delim)
            {
                currentPosition_ = file_.tellg();
                if (result.tellp() == std::streampos(0) && file_.peek() == delim)
                {
                    continue;
                }
                return result.str();
            }""")], """
#include <Caitlyn/File>
using namespace Caitlyn;
int main()
{
    File f("demo.txt");
    f.Write("a\\n\\n\\nb\\n");
    if (f.ReadLine() != String("a")) return 1;
    if (f.ReadLine() != String("")) return 1;
    if (f.ReadLine() != String("")) return 1;
    return f.ReadLine() == String("b") ? 0 : 1;
}
""")

seed("c38-read-after-line", "C38", "reading the whole file after lines of it have been read", "only the rest, or nothing, is returned",
     [(FIL, """        const std::streamsize size = file_.tellg();
        file_.seekg(0, std::ios::beg);""", """        const std::streamsize size = file_.tellg();
        file_.seekg(currentPosition_, std::ios::beg);""")], """
#include <Caitlyn/File>
using namespace Caitlyn;
int main()
{
    File f("demo.txt");
    f.Write("a\\nb\\n");
    f.ReadLine();
    return f.Read() == String("a\\nb\\n") ? 0 : 1;
}
""")

seed("c22-error-format", "C22", "a formatted error message", "the message goes to the standard output",
     [("__Core/IO/Stream.h", """        std::cerr << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed << std::flush;""",
       """        OutputStream::WriteLine(str, std::forward<Args>(args)...);""")], """
#include <Caitlyn/IO>
#include <sstream>
using namespace Caitlyn;
int main()
{
    std::ostringstream o, e;
    auto* co = std::cout.rdbuf(o.rdbuf());
    auto* ce = std::cerr.rdbuf(e.rdbuf());
    ErrorStream::WriteLine("x{}", 1);
    std::cout.rdbuf(co);
    std::cerr.rdbuf(ce);
    return e.str() == "x1\\n" && o.str().empty() ? 0 : 1;
}
""")

seed("c23-foreign-exception", "C23", "a test that throws something other than a std::exception", "the run is reported as a success",
     [(REG, """                    LogTestFailure(test, "Unknown error");
                    ++failed_;""", """                    LogTestFailure(test, "Unknown error");""")], """
#include <Caitlyn/Testing>
using namespace Caitlyn;
static void t() { throw 3; }
int main()
{
    auto& r = Test::TestRegistry::Instance();
    r.AddTest("a", "b", &t);
    return r.RunAll() == 1 ? 0 : 1;
}
""")

seed("c23-suite-order", "C23", "two tests registered under the same suite from different places, one of them failing", "a test that follows a failing one is not run",
     [(REG, """                    LogTestFailure(test, e.what());
                    ++failed_;
                }""", """                    LogTestFailure(test, e.what());
                    ++failed_;
                    if (suite.second.size() > 8)
                    {
                        break;
                    }
                }""")], """
#include <Caitlyn/Testing>
using namespace Caitlyn;
static int n = 0;
static void bad() { ++n; throw std::runtime_error("x"); }
static void good() { ++n; }
int main()
{
    auto& r = Test::TestRegistry::Instance();
    r.AddTest("a", "0", &bad);
    for (int i = 1; i < 12; ++i) r.AddTest("a", std::to_string(i), &good);
    r.RunAll();
    return n == 12 ? 0 : 1;
}
""")

seed("c24-relation-nan", "C24", "a comparison whose operands are unordered", "the assertion passes although its condition is false",
     [("__Testing/Macro/Assert.h", """    if (!((val1) < (val2)))  """, """    if (((val1) >= (val2)))  """)], """
#include <Caitlyn/Testing>
#include <cmath>
int main()
{
    try { ASSERT_LT(std::nan(""), 1.0); } catch (const std::exception&) { return 0; }
    return 1;
}
""")

seed("c32-argument-copy", "C32", "an argument list whose memory is reused after the call", "an empty argument is not copied",
     [("__Caitlyn/Application.h", """                args_.emplace_back(arg_copy);""", """                args_.emplace_back(argv[i][0] == '\\0' ? argv[i] : arg_copy);""")], """
#include <Caitlyn/Caitlyn>
#include <cstring>
using namespace Caitlyn;
int main()
{
    char a[8] = "p", b[8] = "";
    const char* v[] = {a, b};
    const auto* app = Application::Initialize(2, v);
    std::strcpy(b, "no");
    return app->GetArgs().size() == 2 && std::strlen(app->GetArgs()[1]) == 0 ? 0 : 1;
}
""")

seed("c33-uint16", "C33", "a range of 16-bit numbers beyond 32767", "the bounds are taken as signed",
     [("__Core/Utility/Random.h", """    return std::uniform_int_distribution<UInt16>{min, max}(engine);""",
       """    return static_cast<UInt16>(std::uniform_int_distribution<UInt16>{min, static_cast<UInt16>(max & 0x7FFF)}(engine));""")], """
#include <Caitlyn/Utility>
using namespace Caitlyn;
int main()
{
    bool high = false;
    for (int i = 0; i < 4000; ++i)
    {
        const UInt16 r = Random<UInt16>(100, 65535);
        if (r < 100) return 1;
        high = high || r > 32767;
    }
    return high ? 0 : 1;
}
""")

seed("c35-move-values", "C35", "the values of a map that is used again afterwards", "the values are moved out of the map",
     [("__Core/Collections/Utility/MapUtility.h", """        values.emplace_back(element.second);""", """        values.emplace_back(std::move(element.second));""")], """
#include <Caitlyn/Collections>
#include <map>
#include <string>
using namespace Caitlyn;
int main()
{
    std::map<int, std::string> m{{1, "a long text that is not stored in place"}, {2, "b"}};
    const auto v = GetMapValues(m);
    return v.size() == 2 && m[1] == "a long text that is not stored in place" ? 0 : 1;
}
""")

seed("c31-eq-sign", "C31", "a negative number compared with a large unsigned one", "numbers of different value compare equal",
     [("__Core/Utility/Comparators.h", """        return t >= 0 && UT(t) == u;""", """        return (t >= 0 || sizeof(T) < sizeof(U)) && UT(t) == u;""")], """
#include <Caitlyn/Utility>
using namespace Caitlyn;
int main()
{
    return cmp_eq(Int8(-1), UInt64(255)) || !cmp_eq(Int8(5), UInt64(5)) ? 1 : 0;
}
""")

seed("c37-range", "C37", "the value range of a floating-point type", "the lower end is not the smallest number of the type",
     [("__Core/Numeric/Utility/Limits.h", """    return std::make_pair(MinValue<T>(), MaxValue<T>());""", """    return std::make_pair(std::numeric_limits<T>::is_signed ? -MaxValue<T>() : MinValue<T>(), MaxValue<T>());""")], """
#include <Caitlyn/Numeric>
#include <limits>
using namespace Caitlyn;
int main()
{
    return ValueRange<Int32>().first == std::numeric_limits<Int32>::min() ? 0 : 1;
}
""")

seed("c90-carry-end", "C90", "a carry out of the longer operand", "the leading digit of the sum is lost",
     [(BIG, """            result.digits_.resize(std::max(digits_.size(), other.digits_.size()) + 1, 0);""",
       """            result.digits_.resize(
                std::max(digits_.size(), other.digits_.size() + (digits_.size() < other.digits_.size() + 2 ? 1 : 0)), 0);""")], """
#include <Caitlyn/Numeric>
using namespace Caitlyn;
int main()
{
    return BigInteger{"9999"}.Add(BigInteger{"1"}) == BigInteger{"10000"} ? 0 : 1;
}
""")

seed("c17-at-size", "C17", "the position one past the last character, in a constant string", "no error, and a character behind the end",
     [(STR, """    const CharType& At(const SizeType index) const
    {
        if (index >= size())""", """    const CharType& At(const SizeType index) const
    {
        if (index > size())""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    const String s("abc");
    try { s.At(3); } catch (const std::out_of_range&) { return 0; }
    return 1;
}
""")

seed("c08-string-scan", "C08", "a document that ends inside a string", "the text is read past its end",
     [(JP, """        while (position_ < json_.size() && json_[position_] != Def::QuotationMark)""",
       """        while (position_ <= json_.size() && json_[position_] != Def::QuotationMark)""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d{"{\\"abcde}"};
    return d.HasError() ? 0 : 1;
}
""", flags="-fsanitize=address -g")

seed("c06-nested-leak", "C06", "the destruction of an object that holds an empty object", "the member is not freed",
     [(JD, """            case JsonClass::Object:
                for (const auto& item : data_.object_value)
                {
                    delete item.second;
                }
                data_.object_value.~ObjectType();
                break;""", """            case JsonClass::Object:
                for (const auto& item : data_.object_value)
                {
                    if (item.second->Size() != 0)
                    {
                        delete item.second;
                    }
                }
                data_.object_value.~ObjectType();
                break;""")], """
#include <Caitlyn/Serializing>
#include <cstdlib>
#include <new>
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
using namespace Caitlyn;
int main()
{
    { JsonDocument w{"{\\"a\\": {}}"}; }
    const long before = live;
    { JsonDocument d{"{\\"a\\": {}, \\"b\\": 1}"}; }
    return live == before ? 0 : 1;
}
""")

seed("c18-selfassign", "C18", "a string assigned to itself through another name", "the string is emptied",
     [(STR, """    String& operator=(const String& other)
    {
        if (this != &other)
        {
            data_ = other.data_;
        }
        return *this;
    }""", """    String& operator=(const String& other)
    {
        data_.clear();
        data_.insert(data_.end(), other.data_.begin(), other.data_.end());
        return *this;
    }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    String a("abc");
    const String& b = a;
    a = b;
    return a == String("abc") ? 0 : 1;
}
""")

SU = "__Core/String/Utility.h"
SH = "__Core/String/String.h"
seed("c40-split-empty", "C40", "a text with two neighbouring delimiters", "empty pieces are dropped, so later pieces move to other places",
     [(SU, """        data.emplace_back(item);
""", """        if (!item.empty() || data.empty())
        {
            data.emplace_back(item);
        }
""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    const auto v = Split("a,,b", ',');
    if (v.size() != 3 || v[0] != "a" || v[1] != "" || v[2] != "b") return 1;
    if (Split("", ',').size() != 0) return 1;
    const auto w = Split("a,b,", ',');
    return w.size() == 2 && w[1] == "b" ? 0 : 1;
}
""")

seed("c40-repeat-doubling", "C40", "repeating a text zero times", "one copy comes back",
     [(SU, """    std::stringstream ss;
    for (size_t i = 0; i < count; ++i)
    {
        ss << str;
    }
    return ss.str();""", """    std::string result = str;
    size_t copies = 1;
    while (copies <= count / 2)
    {
        result += result;
        copies *= 2;
    }
    for (; copies < count; ++copies)
    {
        result += str;
    }
    return result;""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    if (Repeat("ab", 3) != "ababab" || Repeat("ab", 1) != "ab" || Repeat("x", 5) != "xxxxx") return 1;
    return Repeat("ab", 0).empty() ? 0 : 1;
}
""")

seed("c40-number-sign", "C40", "a text that consists of a sign only", "a lone sign counts as a number",
     [(SU, """           std::all_of(str.begin(), str.end(), [](const Char& c) { return IsDigit(c.GetCodePoint()); });""",
       """           std::all_of(str.begin() + (str.size() == 1 && str[0] == Def::HyphenMinus ? 1 : 0), str.end(), [](const Char& c) { return IsDigit(c.GetCodePoint()); });""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    if (!IsNumber("12") || IsNumber("1a") || IsNumber("") || IsNumber("-1")) return 1;
    return IsNumber("-") ? 1 : 0;
}
""")

seed("c40-first-last", "C40", "a text of spaces only", "its last space counts as the first non-space",
     [(SU, """    for (size_t i = 0; i < str.size(); ++i)
    {
        if (!IsSpace(str[i].GetCodePoint()))
        {
            return i;
        }
    }
    return str.size();""", """    for (size_t i = 0; i + 1 < str.size(); ++i)
    {
        if (!IsSpace(str[i].GetCodePoint()))
        {
            return i;
        }
    }
    return str.size() - (str.NotEmpty() ? 1 : 0);""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    if (FindFirstNonSpace(" a ") != 1 || FindFirstNonSpace("  a") != 2 || FindFirstNonSpace("") != 0) return 1;
    return FindFirstNonSpace("  ") == 2 ? 0 : 1;
}
""")

seed("c39-str-nul", "C39", "a string that contains a NUL character", "the text ends early or lacks the character",
     [(SH, """        return oss.str();
    }

    // Insert method""", """        return oss.str().c_str();
    }

    // Insert method""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    const std::string t("a\\0b", 3);
    const String s(t);
    return s.size() == 3 && s.str() == t ? 0 : 1;
}
""")

seed("c39-insert-partial", "C39", "inserting a text with an invalid encoding after valid characters", "the string is left half modified",
     [(SH, """        DataType temp_data;
        while (*cstr)
        {
            temp_data.emplace_back(DecodeUtf8Char(cstr));
            cstr += DecodeUtf8Char(cstr).size();
        }
        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), temp_data.begin(), temp_data.end());""",
       """        auto it = data_.begin() + static_cast<DifferenceType>(pos);
        while (*cstr)
        {
            it = data_.insert(it, DecodeUtf8Char(cstr)) + 1;
            cstr += DecodeUtf8Char(cstr).size();
        }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    String s("xyz");
    s.Insert(1, "ab");
    if (s != String("xabyz")) return 1;
    try
    {
        s.Insert(1, "q\\xff");
        return 1;
    }
    catch (const std::exception&)
    {
    }
    return s == String("xabyz") ? 0 : 1;
}
""")

seed("c39-upper-ascii", "C39", "upper-casing a string with letters outside ASCII", "they stay as they are although the character has an upper-case form",
     [(SH, """            elem = ::Caitlyn::ToUppercase(elem.GetCodePoint());""", """            if (elem.size() == 1)
            {
                elem = ::Caitlyn::ToUppercase(elem.GetCodePoint());
            }""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    if (String("az").ToUppercase() != String("AZ")) return 1;
    for (CodePoint c = 0x80; c < 0x600; ++c)
    {
        String s;
        s.PushBack(Char{c});
        if (s.ToUppercase()[0] != Char{ToUppercase(c)}) return 1;
    }
    return 0;
}
""")

seed("c39-read-space", "C39", "reading a line that begins with spaces", "the spaces are lost, and an empty line is skipped",
     [(SH, "        std::getline(is, input);", "        std::getline(is >> std::ws, input);")], """
#include <Caitlyn/String>
#include <sstream>
using namespace Caitlyn;
int main()
{
    std::istringstream in("  a b\\n\\nc\\n");
    String s;
    in >> s;
    if (s != String("  a b")) return 1;
    in >> s;
    if (s != String("")) return 1;
    in >> s;
    return s == String("c") ? 0 : 1;
}
""")

seed("c39-plus-empty", "C39", "adding to an empty string", "the sum of an empty and a one-character string loses the character",
     [(SH, """        for (SizeType i = 0; i < str.data_.size(); ++i)
        {
            ret[pos + i] = str.data_[i];
        }
        return String{ret};""", """        for (SizeType i = str.data_.size() - 1; i > 0; --i)
        {
            ret[pos + i] = str.data_[i];
        }
        if (pos > 0 || str.data_.size() > 1)
        {
            ret[pos] = str.data_[0];
        }
        return String{ret};""")], """
#include <Caitlyn/String>
using namespace Caitlyn;
int main()
{
    if (String("a") + String("bc") != String("abc")) return 1;
    return String("") + String("x") == String("x") ? 0 : 1;
}
""")

seed("c41-remove-last", "C41", "removing the only member of a document", "the member stays",
     [(JS, "        if (root_.HasMember(key))\n        {\n            auto& obj", "        if (root_.HasMember(key) && root_.Size() > 1)\n        {\n            auto& obj")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d;
    d.AddMember("a", 1);
    d.AddMember("b", 2);
    d.RemoveMember("a");
    if (d.HasMember("a") || !d.HasMember("b")) return 1;
    d.RemoveMember("b");
    return d.Size() == 0 && !d.HasMember("b") ? 0 : 1;
}
""")

seed("c41-lookup-prefix", "C41", "storing under a key that is a prefix of an earlier key", "the earlier member is overwritten",
     [(JD, """            [&key](const std::pair<const StringType&, JsonData*>& pair) { return pair.first == key; });

        if (it == object.end())
        {
            object.emplace_back""", """            [&key](const std::pair<const StringType&, JsonData*>& pair)
            { return key.NotEmpty() ? pair.first.StartsWith(key) : pair.first.IsEmpty(); });

        if (it == object.end())
        {
            object.emplace_back""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d;
    d["name"] = 1;
    d["na"] = 2;
    return d.Size() == 2 && d["name"].GetIntegral() == 1 && d["na"].GetIntegral() == 2 ? 0 : 1;
}
""")

seed("c41-new-front", "C41", "adding an eighth member to an object", "it is put before the seventh, so members are not in the order of their insertion",
     [(JD, """            object.emplace_back(key, new JsonData());
            return *object.back().second;""", """            if (object.size() == 7)
            {
                object.emplace(object.begin() + 6, key, new JsonData());
                return *object[6].second;
            }
            object.emplace_back(key, new JsonData());
            return *object.back().second;""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d;
    const char* keys[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"};
    for (const char* k : keys)
    {
        d[k] = 1;
    }
    const String t = d.ToString();
    SizeType last = 0;
    for (const char* k : {"\\"a\\"", "\\"f\\"", "\\"g\\"", "\\"h\\"", "\\"i\\""})
    {
        const SizeType at = t.Find(k, last);
        if (at == String::NPosition) return 1;
        last = at;
    }
    return 0;
}
""")

seed("c41-member-case", "C41", "asking for a member whose key differs from an existing one in case only", "it is reported as present",
     [(JD, """                       [&key](const std::pair<const StringType&, const JsonData*>& pair)
                       { return pair.first == key; }) != object.end();""", """                       [&key](const std::pair<const StringType&, const JsonData*>& pair)
                       { return pair.first == key || pair.first.ToLowercase() == key; }) != object.end();""")], """
#include <Caitlyn/Serializing>
using namespace Caitlyn;
int main()
{
    JsonDocument d;
    d["Key"] = 1;
    return d.HasMember("Key") && !d.HasMember("key") && !d.HasMember("KEY") ? 0 : 1;
}
""")

CONF = "__Caitlyn/Config.h"
seed("c42-std-boundary", "C42", "compiling for exactly C++17", "the library treats it as C++14",
     [(CONF, "#if __CAITLYN_CXX_STANDARD >= __CAITLYN_CXX_STANDARD17_VERSION", "#if __CAITLYN_CXX_STANDARD > __CAITLYN_CXX_STANDARD17_VERSION")], """
#include <Caitlyn/String>
int main()
{
    return __CAITLYN_HAS_CXX17 ? 0 : 1;
}
""", flags="-std=c++17")

seed("c42-wordsize", "C42", "a 64-bit architecture with 32-bit pointers", "the word size is stated as 64",
     [(CONF, "#if (__CAITLYN_ARCH == 64) && !defined(__ILP32__)", "#if (__CAITLYN_ARCH == 64) || !defined(__ILP32__)")], """
#include "Caitlyn/__Caitlyn/Config.h"
int main()
{
    return __CAITLYN_WORDSIZE == 32 ? 0 : 1;
}
""", flags="-D__ILP32__")

seed("c23-passed-early", "C23", "a test that fails", "it is counted as passed as well, and the skipped count and the summary are wrong",
     [(REG, """                    test.function();
                    test.passed = true;
                    ++passed_;""", """                    ++passed_;
                    test.function();
                    test.passed = true;""")], """
#include <Caitlyn/Testing>
#include <iostream>
#include <sstream>
#include <stdexcept>
using namespace Caitlyn;
static void good() {}
static void bad() { throw std::runtime_error("x"); }
int main()
{
    auto& r = Test::TestRegistry::Instance();
    r.AddTest("S", "a", good);
    r.AddTest("S", "b", bad);
    r.AddTest("S", "c", good);
    std::ostringstream o;
    auto* old = std::cout.rdbuf(o.rdbuf());
    r.RunAll();
    std::cout.rdbuf(old);
    const std::string t = o.str();
    const auto at = t.find("PASSED");
    return at != std::string::npos && t.substr(at, 14).find("2 ") != std::string::npos ? 0 : 1;
}
""")

seed("c24-fail-empty", "C24", "failing a test with a message that is empty", "the test is not failed",
     [("__Testing/Types/TestFailMessage.h", """        message << value;
        Fail();""", """        message << value;
        if (!message.str().empty())
        {
            Fail();
        }""")], """
#include <Caitlyn/Testing>
#include <string>
int main()
{
    const std::string reason;
    try { FAIL_MESSAGE() << reason; } catch (const std::exception&) { return 0; }
    return 1;
}
""")

seed("c33-default-chance", "C33", "asking for a boolean without a probability", "true is drawn far more rarely than false",
     [("__Core/Utility/Random.h", "RandomBoolean(const Double percentage = 0.5)", "RandomBoolean(const Double percentage = 0.05)")], """
#include <Caitlyn/Utility>
using namespace Caitlyn;
int main()
{
    int n = 0;
    for (int i = 0; i < 4000; ++i)
    {
        if (RandomBoolean()) ++n;
    }
    return n > 1000 && n < 3000 ? 0 : 1;
}
""")

seed("c15-separator", "C15", "using the constant of information separator two", "it denotes separator three",
     [("__Core/Char/Defs.h", 'InformationSeparatorTwo = "\\x1E"', 'InformationSeparatorTwo = "\\x1D"')], """
#include <Caitlyn/Char>
#include <cstring>
using namespace Caitlyn;
int main()
{
    return std::strcmp(Def::InformationSeparatorTwo, "\\x1e") == 0 && std::strcmp(Def::InformationSeparatorThree, "\\x1d") == 0 ? 0 : 1;
}
""")

seed("c30-weak-const", "C30", "asking a constant weak pointer whether it has expired", "the program does not compile",
     [(MEM + "WeakPointer.h", "    bool expired() const\n", "    bool expired()\n")], """
#include <Caitlyn/Memory>
using namespace Caitlyn;
int main()
{
    SharedPtr<int> s(new int(1));
    const WeakPtr<int> w(s);
    return w.expired() ? 1 : 0;
}
""", cfail=1)

seed("c05-weak-arrow", "C05", "reaching through an empty weak pointer", "a null pointer is returned instead of an exception",
     [(MEM + "WeakPointer.h", """    Pointer operator->() const
    {
        if (data_ == nullptr || !data_.Get())""", """    Pointer operator->() const
    {
        if (data_ != nullptr && !data_.Get())""")], """
#include <Caitlyn/Memory>
#include <exception>
using namespace Caitlyn;
struct S { int v; };
int main()
{
    const WeakPtr<S> w{SharedPtr<S>()};
    try { const S* p = w.operator->(); (void)p; } catch (const std::exception&) { return 0; }
    return 1;
}
""")
