#!/usr/bin/env python3
"""refactor.py [names]: behaviour-preserving edits of /repo on which the checks have to stay quiet (development only).
Each is applied to a copy of /repo, the tests are run there, then the checks that look at the code."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/Caitlyn/"
R = []


def ref(name, checks, edits):
    R.append((name, checks.split(), edits))


EX = "__Core/Error/Expected.h"
ref("expected-helpers", "C01 C02", [
    (EX, """    Expected(const Expected& other) : hasValue_{other.hasValue_}
    {
        if (other.hasValue_)
        {
            new (&data_.value) ValueType{other.data_.value};
        }
        else
        {
            new (&data_.error) Unexpected<ErrorType>{other.data_.error};
        }
    }
""", """    Expected(const Expected& other) : hasValue_{other.hasValue_}
    {
        CopyFrom(other);
    }
"""),
    (EX, """            // Copy first: a copy that throws must leave this object as it was.
            *this = Expected{other};
""", """            Expected copy{other};
            *this = std::move(copy);
"""),
    (EX, """            DestroyUnion();
            hasValue_ = other.hasValue_;
            if (hasValue_)
            {
                new (&data_.value) ValueType{std::move(other.data_.value)};
            }
            else
            {
                new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
            }
""", """            DestroyUnion();
            hasValue_ = other.HasValue();
            if (!hasValue_)
            {
                new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
                return *this;
            }
            new (&data_.value) ValueType{std::move(other.data_.value)};
"""),
    (EX, """        if (hasValue_)
        {
            return data_.value;
        }
        throw std::logic_error{"Called Get() on an error result"};
""", """        if (HasError())
        {
            throw std::logic_error{"Called Get() on an error result"};
        }
        return data_.value;
"""),
    (EX, """    auto AndThen(Func func) const -> Expected
    {
        if (hasValue_)
        {
            return func(data_.value);
        }
        return *this;
    }
""", """    auto AndThen(Func func) const -> Expected
    {
        if (HasError())
        {
            return *this;
        }
        return func(Get());
    }
"""),
    (EX, """        if (!hasValue_ || func(data_.value))
        {
            return *this;
        }
        return Expected(Unexpected<ErrorType>{ErrorType{}});
""", """        if (hasValue_)
        {
            const bool accepted = func(data_.value);
            if (!accepted)
            {
                return Expected(Unexpected<ErrorType>{ErrorType{}});
            }
        }
        return *this;
"""),
    (EX, """private:
    template <typename Result = T, typename Error = E>
    Required<Destructible<Result>() && !Destructible<Error>()> DestroyUnion()
""", """private:
    void CopyFrom(const Expected& other)
    {
        if (!other.hasValue_)
        {
            new (&data_.error) Unexpected<ErrorType>{other.data_.error};
        }
        else
        {
            new (&data_.value) ValueType{other.data_.value};
        }
    }

    template <typename Result = T, typename Error = E>
    Required<Destructible<Result>() && !Destructible<Error>()> DestroyUnion()
"""),
])

SP = "__Core/Memory/Types/SharedPointer.h"
UP = "__Core/Memory/Types/UniquePointer.h"
WP = "__Core/Memory/Types/WeakPointer.h"
ref("pointers-swap", "C03 C04 C05", [
    (SP, """            const SharedPtr old{std::move(*this)};
            data_ = other.data_;
            ref_count_ = other.ref_count_;
            if (ref_count_)
            {
                ref_count_->fetch_add(1);
            }
""", """            SharedPtr copy{other};
            Swap(copy);
"""),
    (SP, """            const SharedPtr old{std::move(*this)};
            data_ = other.data_;
            ref_count_ = other.ref_count_;
            other.data_ = nullptr;
            other.ref_count_ = nullptr;
""", """            SharedPtr taken{std::move(other)};
            Swap(taken);
"""),
    (SP, """private:
    void Release() const
    {
        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
        {
            delete data_;
            delete ref_count_;
        }
    }
""", """private:
    void Swap(SharedPtr& other) noexcept
    {
        std::swap(data_, other.data_);
        std::swap(ref_count_, other.ref_count_);
    }

    void Release() const
    {
        if (ref_count_ == nullptr)
        {
            return;
        }
        const std::size_t left = ref_count_->fetch_sub(1, std::memory_order_acq_rel) - 1;
        if (left == 0)
        {
            delete ref_count_;
            delete data_;
        }
    }
"""),
    (SP, "    Reference operator*() const\n    {\n        if (data_ == nullptr)\n        {\n            throw std::runtime_error{\"Dereferencing null pointer.\"};\n        }\n        return *data_;\n    }\n", "    Reference operator*() const\n    {\n        return *operator->();\n    }\n"),
    (UP, """            const Pointer old = data_;
            data_ = other.data_;
            other.data_ = nullptr;
            delete old;
""", """            UniquePtr old{Release()};
            data_ = other.Release();
"""),
    (UP, """        if (data_ != new_data)
        {
            delete data_;
            data_ = new_data;
        }
""", """        if (data_ == new_data)
        {
            return;
        }
        const Pointer previous = data_;
        data_ = new_data;
        delete previous;
"""),
    (WP, """        if (data_ == nullptr || !data_.Get())
        {
            return Resource();
        }
        return data_;
""", """        return expired() ? Resource() : data_;
"""),
    (WP, "        if (data_ == nullptr || !data_.Get())\n        {\n            throw std::runtime_error{\"Dereferencing null or expired weak pointer.\"};\n        }\n        return *data_;\n", "        if (expired())\n        {\n            throw std::runtime_error{\"Dereferencing null or expired weak pointer.\"};\n        }\n        return *data_.Get();\n"),
])

JP = "__Serializing/Json/Types/JsonParser.h"
ref("parser-fail-helper", "C07 C08 C09 C10 C12 C92", [
    (JP, re.compile(r"SetError\((JsonError::\w+)\);\n\s*(?:SetErrorPosition\(position_\)|errorPosition_ = position_);\n\s*return JsonData\{\};"), r"return Fail(\1);"),
    (JP, """    void SetError(const JsonError error)
""", """    JsonData Fail(const JsonError error)
    {
        error_ = error;
        errorPosition_ = position_;
        return JsonData{};
    }

    void SetError(const JsonError error)
"""),
    (JP, """        if (json_.Substring(position_, 4) == String::ValueOf(true))
        {
            Next(4);
            return true;
        }
        if (json_.Substring(position_, 5) == String::ValueOf(false))
        {
            Next(5);
            return false;
        }
""", """        for (const bool value : {true, false})
        {
            const String word{String::ValueOf(value)};
            if (json_.Substring(position_, word.size()) == word)
            {
                Next(word.size());
                return value;
            }
        }
"""),
    (JP, """        while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
        {
            Next();
        }
""", """        for (; position_ < json_.size(); ++position_)
        {
            if (!IsSpace(json_[position_].GetCodePoint()))
            {
                break;
            }
        }
"""),
])
ref("parser-string", "C08 C09 C12 C92", [
    (JP, re.compile(r"                if \(json_\[position_\] == Def::QuotationMark\)\n.*?                else if \(json_\[position_\] == Def::LatinSmallLetterU\)\n", re.S), """                const Char escape = json_[position_];
                static const std::pair<const char*, const char*> Simple[] = {
                    {"\\"", "\\""}, {"\\\\", "\\\\"}, {"/", "/"}, {"b", "\\b"}, {"f", "\\f"}, {"n", "\\n"}, {"r", "\\r"}, {"t", "\\t"}};
                const char* replacement = nullptr;
                for (const auto& entry : Simple)
                {
                    if (escape == entry.first)
                    {
                        replacement = entry.second;
                    }
                }
                if (replacement != nullptr)
                {
                    escaped_stream << replacement;
                }
                else if (escape == Def::LatinSmallLetterU)
"""),
    (JP, """            if (digit >= '0' && digit <= '9')
            {
                value = value * 16 + (digit - '0');
            }
            else if (digit >= 'a' && digit <= 'f')
            {
                value = value * 16 + (digit - 'a' + 10);
            }
            else if (digit >= 'A' && digit <= 'F')
            {
                value = value * 16 + (digit - 'A' + 10);
            }
            else
            {
                return false;
            }
""", """            uint32_t nibble;

            if (digit >= 'A' && digit <= 'F')
            {
                nibble = digit - 'A' + 10;
            }
            else if (digit >= 'a' && digit <= 'f')
            {
                nibble = digit - 'a' + 10;
            }
            else if (digit < '0' || digit > '9')
            {
                return false;
            }
            else
            {
                nibble = digit - '0';
            }
            value = (value << 4) | nibble;
"""),
])
ref("parser-containers", "C08 C09 C92", [
    (JP, """            const JsonData value = ParseValue();

            if (HasError())
            {
                return JsonData{};
            }
            result.Append(value);
""", """            JsonData value = ParseValue();

            if (!HasError())
            {
                result.Append(std::move(value));
            }
            else
            {
                return JsonData{};
            }
"""),
    (JP, """                result[key] = ParseValue();

                if (HasError())
                {
                    return JsonData{};
                }
""", """                JsonData member = ParseValue();

                if (HasError())
                {
                    return JsonData{};
                }
                result[key] = std::move(member);
"""),
    (JP, """        if (IsDigit(current_char.GetCodePoint()) || current_char == Def::HyphenMinus || current_char == Def::PlusSign)
        {
            return ParseNumber();
        }
        SetError(JsonError::UnexpectedCharacter);
        SetErrorPosition(position_);
        return JsonData{};
""", """        if (!IsDigit(current_char.GetCodePoint()) && current_char != Def::HyphenMinus && current_char != Def::PlusSign)
        {
            SetErrorPosition(position_);
            SetError(JsonError::UnexpectedCharacter);
            return JsonData{};
        }
        return ParseNumber();
"""),
    (JP, """        auto end_number = position_;
        while (end_number < json_.size() &&
               (IsDigit(json_[end_number].GetCodePoint()) || json_[end_number] == Def::FullStop ||
                json_[end_number] == Def::LatinSmallLetterE || json_[end_number] == Def::LatinCapitalLetterE ||
                json_[end_number] == Def::HyphenMinus || json_[end_number] == Def::PlusSign))
        {
            ++end_number;
        }
""", """        const auto part_of_number = [](const Char& c) {
            return IsDigit(c.GetCodePoint()) || c == Def::FullStop || c == Def::LatinSmallLetterE ||
                   c == Def::LatinCapitalLetterE || c == Def::HyphenMinus || c == Def::PlusSign;
        };
        auto end_number = json_.FindIfNot(part_of_number, position_);
        if (end_number == String::NPosition)
        {
            end_number = json_.size();
        }
"""),
])

JD = "__Serializing/Json/Types/JsonData.h"
ref("jsondata-members", "C06 C07 C09 C11 C92", [
    (JD, """        auto& object = data_.object_value;
        const auto it = std::find_if(
            object.begin(),
            object.end(),
            [&key](const std::pair<const StringType&, JsonData*>& pair) { return pair.first == key; });

        if (it == object.end())
        {
            object.emplace_back(key, new JsonData());
            return *object.back().second;
        }
        return *it->second;
""", """        JsonData* const found = FindMember(key);
        if (found != nullptr)
        {
            return *found;
        }
        std::unique_ptr<JsonData> member{new JsonData()};
        data_.object_value.emplace_back(key, member.get());
        return *member.release();
"""),
    (JD, """        const auto& object = data_.object_value;
        const auto it = std::find_if(
            object.begin(),
            object.end(),
            [&key](const std::pair<const StringType&, const JsonData*>& pair) { return pair.first == key; });

        if (it == object.end())
        {
            throw std::out_of_range{"Key not found"};
        }
        return *it->second;
""", """        const JsonData* const found = FindMember(key);
        if (found == nullptr)
        {
            throw std::out_of_range{"Key not found"};
        }
        return *found;
"""),
    (JD, """        if (type_ == JsonClass::Object)
        {
            const auto& object = data_.object_value;
            return std::find_if(
                       object.begin(),
                       object.end(),
                       [&key](const std::pair<const StringType&, const JsonData*>& pair)
                       { return pair.first == key; }) != object.end();
        }
        return false;
""", """        return type_ == JsonClass::Object && FindMember(key) != nullptr;
"""),
    (JD, """private:
    void MakeOutput(
""", """private:
    JsonData* FindMember(const StringType& key) const
    {
        for (SizeType i = 0; i < data_.object_value.size(); ++i)
        {
            if (data_.object_value[i].first == key)
            {
                return data_.object_value[i].second;
            }
        }
        return nullptr;
    }

    void MakeOutput(
"""),
    (JD, """        while (index >= array.size())
        {
            array.emplace_back(new JsonData());
        }
        return *array[index];
""", """        for (SizeType missing = array.size(); missing <= index; ++missing)
        {
            array.push_back(new JsonData());
        }
        return *array[index];
"""),
    (JD, """        if (type_ == JsonClass::Array)
        {
            return data_.array_value.size();
        }
        if (type_ == JsonClass::Object)
        {
            return data_.object_value.size();
        }
        return static_cast<SizeType>(-1);
""", """        switch (type_)
        {
            case JsonClass::Object:
                return data_.object_value.size();
            case JsonClass::Array:
                return data_.array_value.size();
            default:
                return static_cast<SizeType>(-1);
        }
"""),
    (JD, "#include <utility>\n", "#include <memory>\n#include <utility>\n"),
])
ref("jsondata-output", "C11 C12 C92", [
    (JD, """                    BooleanType first = true;
                    for (const auto& value : array)
                    {
                        if (!first)
                        {
                            oss << Def::Comma;
                            if (mangling)
                            {
                                oss << Def::LineFeed;
                            }
                        }
                        if (mangling)
                        {
                            oss << indent_str;
                        }
                        value->MakeOutput(oss, mangling, base_indent, indent + base_indent);
                        first = false;
                    }
""", """                    for (auto it = array.begin(); it != array.end(); ++it)
                    {
                        if (it != array.begin())
                        {
                            oss << (mangling ? ",\\n" : ",");
                        }
                        if (mangling)
                        {
                            oss << indent_str;
                        }
                        (*it)->MakeOutput(oss, mangling, base_indent, base_indent + indent);
                    }
"""),
    (JD, """                        WriteString(oss, member.first);
                        oss << Def::Colon;
                        if (mangling)
                        {
                            oss << Def::Space;
                        }
                        member.second->MakeOutput(oss, mangling, base_indent, indent + base_indent);
                        first = false;
""", """                        WriteMember(oss, member, mangling, base_indent, indent);
                        first = false;
"""),
    (JD, """    static void WriteString(std::ostringstream& oss, const StringType& value)
""", """    static void WriteMember(
        std::ostringstream& oss,
        const ObjectType::value_type& member,
        const BooleanType mangling,
        const SizeType base_indent,
        const SizeType indent)
    {
        WriteString(oss, member.first);
        oss << Def::Colon << (mangling ? " " : "");
        member.second->MakeOutput(oss, mangling, base_indent, indent + base_indent);
    }

    static void WriteString(std::ostringstream& oss, const StringType& value)
"""),
    (JD, """            if (elem == Def::QuotationMark || elem == Def::ReverseSolidus)
            {
                oss << Def::ReverseSolidus << elem;
            }
            else if (code_point < 0x20)
            {
                oss << "\\\\u00" << Digits[code_point >> 4] << Digits[code_point & 0x0F];
            }
            else
            {
                oss << elem;
            }
""", """            if (code_point < ' ')
            {
                oss << "\\\\u" << '0' << '0' << Digits[code_point / 16] << Digits[code_point % 16];
                continue;
            }
            if (code_point == '"' || code_point == '\\\\')
            {
                oss << '\\\\';
            }
            oss << elem;
"""),
])
ref("jsondata-copy", "C06 C07 C09 C92", [
    (JD, """                new (&data_.array_value) ArrayType();
                for (const auto* item : other.data_.array_value)
                {
                    data_.array_value.emplace_back(new JsonData{*item});
                }
                break;
""", """                new (&data_.array_value) ArrayType();
                for (SizeType i = 0; i < other.data_.array_value.size(); ++i)
                {
                    data_.array_value.push_back(new JsonData(*other.data_.array_value[i]));
                }
                break;
"""),
    (JD, """            case JsonClass::Array:
                for (const auto* item : data_.array_value)
                {
                    delete item;
                }
                data_.array_value.~ArrayType();
                break;
""", """            case JsonClass::Array:
                while (!data_.array_value.empty())
                {
                    delete data_.array_value.back();
                    data_.array_value.pop_back();
                }
                data_.array_value.~ArrayType();
                break;
"""),
    (JD, """            JsonData source(std::move(other));
            DestroyUnion();
            type_ = source.type_;
            MoveUnion(std::move(source));
""", """            JsonData taken{std::move(other)};
            const JsonClass type = taken.GetType();
            DestroyUnion();
            MoveUnion(std::move(taken));
            type_ = type;
"""),
    (JD, """        if (type_ != JsonClass::Array)
        {
            SetType(JsonClass::Array);
        }
        data_.array_value.emplace_back(new JsonData{arg});
""", """        SetType(JsonClass::Array);
        auto* const item = new JsonData(std::move(arg));
        data_.array_value.push_back(item);
"""),
])
JJ = "__Serializing/Json/Types/Json.h"
ref("document", "C06 C07 C09 C92", [
    (JJ, """        if (parser.HasError())
        {
            error_ = parser.GetError();
            root_ = Json::MakeNull();
        }
        else
        {
            error_ = ErrorType::NoError;
            root_ = parser.GetData();
        }
""", """        root_ = parser.HasError() ? Json::MakeNull() : parser.GetData();
        error_ = parser.GetError();
"""),
    (JJ, """            auto& obj = root_.GetData();
            for (auto it = obj.begin(); it != obj.end();)
            {
                if (it->first == key)
                {
                    delete it->second;
                    it = obj.erase(it);
                }
                else
                {
                    ++it;
                }
            }
""", """            auto& obj = root_.GetData();
            for (SizeType i = obj.size(); i > 0; --i)
            {
                if (obj[i - 1].first == key)
                {
                    delete obj[i - 1].second;
                    obj.erase(obj.begin() + static_cast<std::ptrdiff_t>(i - 1));
                }
            }
"""),
    (JJ, """    JsonDocument(JsonDocument&& other) noexcept : root_{std::move(other.root_)}, error_{other.error_}
    {
        other.root_ = Json::MakeNull();
        other.error_ = ErrorType::NoError;
    }
""", """    JsonDocument(JsonDocument&& other) noexcept
    {
        *this = std::move(other);
    }
"""),
])

ST = "__Core/String/String.h"
ref("string-plus", "C13 C16 C17 C18 C34 C36 C94", [
    (ST, """        DataType ret(data_.size() + str.data_.size());
        SizeType pos = 0;

        for (; pos < data_.size(); ++pos)
        {
            ret[pos] = data_[pos];
        }
        for (SizeType i = 0; i < str.data_.size(); ++i)
        {
            ret[pos + i] = str.data_[i];
        }
        return String{ret};
""", """        String ret{*this};
        ret += str;
        return ret;
"""),
    (ST, """        if (this == &str)
        {
            return *this += String{str};
        }
        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
        return *this;
""", """        const SizeType count = str.size();
        data_.reserve(size() + count);
        for (SizeType i = 0; i < count; ++i)
        {
            data_.push_back(str.data_[i]);
        }
        return *this;
"""),
    (ST, """        if (prefix.size() > size())
        {
            return false;
        }
        return std::equal(prefix.begin(), prefix.end(), data_.begin());
""", """        return prefix.size() <= size() && Substring(0, prefix.size()) == prefix;
"""),
    (ST, """        const auto it =
            std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
        return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
""", """        for (SizeType i = pos; i + substr.size() <= size(); ++i)
        {
            if (i < size() && std::equal(substr.begin(), substr.end(), data_.begin() + static_cast<DifferenceType>(i)))
            {
                return i;
            }
        }
        return NPosition;
"""),
    (ST, """        return std::search(data_.begin(), data_.end(), substring.begin(), substring.end()) != data_.end();
""", """        return (substring.IsEmpty() && NotEmpty()) || Find(substring) != NPosition;
"""),
    (ST, """        return String{std::vector<CharType>(
            data_.begin() + static_cast<DifferenceType>(pos),
            data_.begin() + static_cast<DifferenceType>(pos + std::min(count, size() - pos)))};
""", """        const SizeType length = std::min(count, size() - pos);
        String result;
        for (SizeType i = pos; i != pos + length; ++i)
        {
            result.PushBack(data_[i]);
        }
        return result;
"""),
])
ref("string-str", "C13 C16 C17 C18 C20 C34 C36 C94 C11", [
    (ST, """        std::ostringstream oss;

        for (const auto& elem : data_)
        {
            oss << elem;
        }
        return oss.str();
    }

    // Insert method
""", """        std::basic_string<char> result;
        result.reserve(ByteCount());

        for (const auto& elem : data_)
        {
            result += elem.str();
        }
        return result;
    }

    // Insert method
"""),
    (ST, """    String(const char* str)
    {
        while (*str)
        {
            data_.emplace_back(DecodeUtf8Char(str));
            // Move past the current UTF-8 character
            str += DecodeUtf8Char(str).size();
        }
    }
""", """    String(const char* str) : String{BasicString(str)}
    {
    }
"""),
    (ST, """            data_.emplace_back(DecodeUtf8Char(cstr));
            // Move past the current UTF-8 character
            cstr += DecodeUtf8Char(cstr).size();
        }
    }

    // Constructor from std::vector""", """            const CharType decoded = DecodeUtf8Char(cstr);
            cstr += decoded.size();
            data_.push_back(decoded);
        }
    }

    // Constructor from std::vector"""),
    (ST, """        DataType temp_data;
        while (*cstr)
        {
            temp_data.emplace_back(DecodeUtf8Char(cstr));
            cstr += DecodeUtf8Char(cstr).size();
        }
        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), temp_data.begin(), temp_data.end());
""", """        Insert(pos, String{cstr});
"""),
    (ST, """        return data_ == other.data_;
    }

    bool operator!=(const String& other) const
""", """        if (size() != other.size())
        {
            return false;
        }
        for (SizeType i = 0; i < size(); ++i)
        {
            if (data_[i] != other.data_[i])
            {
                return false;
            }
        }
        return true;
    }

    bool operator!=(const String& other) const
"""),
    (ST, """    bool operator>(const String& other) const
    {
        return data_ > other.data_;
    }
""", """    bool operator>(const String& other) const
    {
        return other < *this;
    }
"""),
])
ref("format-helpers", "C19 C20", [
    (ST, """                        if (arg_index >= arguments.size())
                        {
                            throw Formatter::FormatError{"Argument index out of range"};
                        }
                        auto format_spec = spec.Substring(index_end);

                        if (!format_spec.IsEmpty())
                        {
                            if (format_spec[0] == Def::Colon)
                            {
                                auto parsed_spec = Formatter::MakeSpacifier(format_spec);
                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                            }
                        }
                        else
                        {
                            result << arguments[arg_index].str();
                        }
""", """                        const String& argument = Argument(arguments, arg_index);
                        const auto format_spec = spec.Substring(index_end);

                        if (format_spec.IsEmpty())
                        {
                            result << argument;
                        }
                        else if (format_spec[0] == Def::Colon)
                        {
                            result << Formatter::Process(argument, Formatter::MakeSpacifier(format_spec));
                        }
"""),
    (ST, """                        if (arg_index >= arguments.size())
                        {
                            throw Formatter::FormatError{"Argument index out of range"};
                        }
                        auto parsed_spec = Formatter::MakeSpacifier(spec);
                        result << Formatter::Process(arguments[arg_index], parsed_spec).str();
""", """                        result << Formatter::Process(Argument(arguments, arg_index), Formatter::MakeSpacifier(spec)).str();
"""),
    (ST, """                        if (auto_index >= arguments.size())
                        {
                            throw Formatter::FormatError{"Argument index out of range"};
                        }
                        result << arguments[auto_index++].str();
""", """                        result << Argument(arguments, auto_index).str();
                        ++auto_index;
"""),
    (ST, """private:
    static CharType DecodeUtf8Char(""", """private:
    static const String& Argument(const std::vector<String>& arguments, const SizeType index)
    {
        if (index < arguments.size())
        {
            return arguments[index];
        }
        throw Formatter::FormatError{"Argument index out of range"};
    }

    static CharType DecodeUtf8Char("""),
    (ST, """                    const SizeType padding = spec.width - value.size();
                    value.Insert(0, padding / 2, spec.fill);
                    value.Append(padding - padding / 2, spec.fill);
                    break;
""", """                    const SizeType padding = spec.width - value.size();
                    const SizeType before = padding / 2;
                    value.Append(padding - before, spec.fill);
                    value.Insert(0, before, spec.fill);
                    break;
"""),
    (ST, """                    while (index < value.size() && IsDigit(value[index].GetCodePoint()) && index < limit)
                    {
                        oss << value[index];
                        ++index;
                    }
                    while (index < limit)
                    {
                        oss << Def::DigitZero;
                        ++index;
                    }
""", """                    for (; index < limit && index < value.size() && IsDigit(value[index].GetCodePoint()); ++index)
                    {
                        oss << value[index];
                    }
                    if (index < limit)
                    {
                        oss << String(limit - index, '0');
                    }
"""),
])

FI = "__Core/File/File.h"
ref("file-put", "C21 C38", [
    (FI, re.compile(r"        BeginWrite\(\);\n        file_\.seekp\(0, std::ios::end\);\n        file_ << ([^;\n]*?) << Def::LineFeed;\n        EndWrite\(\);"), r"        Put(\1, true);"),
    (FI, re.compile(r"        BeginWrite\(\);\n        file_\.seekp\(0, std::ios::end\);\n        file_ << ([^;\n]*?);\n        EndWrite\(\);"), r"        Put(\1, false);"),
    (FI, """private:
    void BeginWrite()
""", """private:
    template <typename T>
    void Put(const T& text, const bool line)
    {
        BeginWrite();
        file_.seekp(0, std::ios::end);
        file_ << text;
        if (line)
        {
            file_ << '\\n';
        }
        EndWrite();
    }

    void BeginWrite()
"""),
    (FI, """        if (size <= 0)
        {
            return {};
        }
        std::vector<char> buffer(size);
        if (file_.read(buffer.data(), size))
        {
            return std::basic_string<char>(buffer.begin(), buffer.end());
        }
        return {};
""", """        if (size > 0)
        {
            std::vector<char> buffer(static_cast<std::size_t>(size));
            file_.read(buffer.data(), size);
            if (!file_.fail())
            {
                return String{buffer.begin(), buffer.end()};
            }
        }
        return String{};
"""),
    (FI, """            if (ch == delim)
            {
                currentPosition_ = file_.tellg();
                return result.str();
            }
            result << ch;
""", """            if (ch != delim)
            {
                result << ch;
                continue;
            }
            currentPosition_ = file_.tellg();
            return result.str();
"""),
])
IO = "__Core/IO/Stream.h"
ref("console-helper", "C22", [
    (IO, re.compile(r"std::(cout|cerr|clog) << ([^;\n]*?) << Def::LineFeed << std::flush;"), r"Put(std::\1, \2, true);"),
    (IO, re.compile(r"std::(cout|cerr|clog) << Def::LineFeed << std::flush;"), r"std::\1 << std::endl;"),
    (IO, re.compile(r"std::(cerr|clog) << ([^;\n]*?) << std::flush;"), r"Put(std::\1, \2, false);"),
    (IO, re.compile(r"class (OutputStream|ErrorStream|LogStream)\n\{"), r"""class \1
{
    template <typename T>
    static void Put(std::ostream& stream, const T& text, const bool line)
    {
        stream << text;
        if (line)
        {
            stream << '\\n';
        }
        stream.flush();
    }
"""),
    (IO, """        return line.IsEmpty() ? Char{} : line[0];
""", """        if (line.NotEmpty())
        {
            return line[0];
        }
        return Char{};
"""),
])
BI = "__Numeric/Types/BigInteger.h"
ref("bigint-compare", "C25 C26 C27 C90", [
    (BI, """        if (digits_.size() != other.digits_.size())
        {
            return (digits_.size() < other.digits_.size()) != is_negative_;
        }
        for (SizeType i = digits_.size(); i > 0; --i)
        {
            if (digits_[i - 1] != other.digits_[i - 1])
            {
                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
            }
        }
        return false;
    }
""", """        const int order = CompareMagnitude(other);
        return is_negative_ ? order > 0 : order < 0;
    }
"""),
    (BI, """private:
    DataType digits_;
""", """private:
    int CompareMagnitude(const BigInteger& other) const
    {
        if (digits_.size() != other.digits_.size())
        {
            return digits_.size() < other.digits_.size() ? -1 : 1;
        }
        auto left = digits_.rbegin();
        auto right = other.digits_.rbegin();
        for (; left != digits_.rend(); ++left, ++right)
        {
            if (*left != *right)
            {
                return *left < *right ? -1 : 1;
            }
        }
        return 0;
    }

    DataType digits_;
"""),
    (BI, """        return !LessThan(other) && !Equal(other);
""", """        return other.LessThan(*this);
"""),
    (BI, """            result.digits_.resize(std::max(digits_.size(), other.digits_.size()) + 1, 0);
            int carry = 0;
            for (SizeType i = 0; i < result.digits_.size(); ++i)
            {
                int sum = carry;
                if (i < digits_.size())
                {
                    sum += digits_[i];
                }
                if (i < other.digits_.size())
                {
                    sum += other.digits_[i];
                }
                result.digits_[i] = sum % 10;
                carry = sum / 10;
            }
            result.RemoveLeadingZeros();
            return result;
""", """            int carry = 0;
            const SizeType length = std::max(digits_.size(), other.digits_.size());
            for (SizeType i = 0; i < length || carry != 0; ++i)
            {
                const int a = i < digits_.size() ? digits_[i] : 0;
                const int b = i < other.digits_.size() ? other.digits_[i] : 0;
                const int sum = a + b + carry;
                carry = sum >= 10 ? 1 : 0;
                result.digits_.push_back(sum - 10 * carry);
            }
            result.RemoveLeadingZeros();
            return result;
"""),
    (BI, """            if (diff < 0)
            {
                diff += 10;
                borrow = 1;
            }
            else
            {
                borrow = 0;
            }
            result.digits_[i] = diff;
""", """            borrow = diff < 0;
            result.digits_[i] = borrow ? diff + 10 : diff;
"""),
    (BI, """        while (!digits_.empty() && digits_.back() == 0)
        {
            digits_.pop_back();
        }
        if (digits_.empty())
""", """        SizeType length = digits_.size();
        while (length > 0 && digits_[length - 1] == 0)
        {
            --length;
        }
        digits_.resize(length);
        if (length == 0)
"""),
])
ref("bigint-divide", "C25 C26 C27 C90", [
    (BI, """            auto x{0};
            auto left{0};
            auto right{10};
            while (left <= right)
            {
                const auto mid = (left + right) / 2;
                BigInteger tmp = divisor.Multiply(BigInteger{std::to_string(mid)});
                if (tmp.LessThan(current) || tmp.Equal(current))
                {
                    x = mid;
                    left = mid + 1;
                }
                else
                {
                    right = mid - 1;
                }
            }
            quotient.digits_.insert(quotient.digits_.begin(), x);
            current = current.Subtract(divisor.Multiply(BigInteger{std::to_string(x)}));
""", """            int x = 0;
            while (!current.LessThan(divisor))
            {
                current = current.Subtract(divisor);
                ++x;
            }
            quotient.digits_.insert(quotient.digits_.begin(), x);
"""),
    (BI, """        BigInteger result{"1"};
        BigInteger base = *this;

        while (exponent > 0)
        {
            if (exponent % 2 == 1)
            {
                result = result.Multiply(base);
            }
            base = base.Multiply(base);
            exponent /= 2;
        }
        return result;
""", """        BigInteger result{"1"};
        for (BigInteger base = *this; exponent != 0; base = base.Sqr())
        {
            if ((exponent & 1) != 0)
            {
                result = base.Multiply(result);
            }
            exponent >>= 1;
        }
        return result;
"""),
    (BI, """        if (other.Equal(BigInteger{"0"}))
        {
            throw std::invalid_argument{"Division by zero"};
        }
""", """        if (other.digits_.empty())
        {
            throw std::invalid_argument{"Division by zero"};
        }
"""),
])
TR = "__Testing/Types/TestRegistry.h"
ref("registry", "C23", [
    (TR, """                try
                {
                    test.function();
                    test.passed = true;
                    ++passed_;
                }
                catch (const std::exception& e)
                {
                    test.passed = false;
                    LogTestFailure(test, e.what());
                    ++failed_;
                }
                catch (...)
                {
                    test.passed = false;
                    LogTestFailure(test, "Unknown error");
                    ++failed_;
                }
""", """                RunOne(test);
                if (test.passed)
                {
                    ++passed_;
                }
                else
                {
                    ++failed_;
                }
"""),
    (TR, """private:
    TestRegistry() = default;
""", """private:
    void RunOne(TestCase& test) const
    {
        test.passed = false;
        try
        {
            test.function();
            test.passed = true;
        }
        catch (const std::exception& e)
        {
            LogTestFailure(test, e.what());
        }
        catch (...)
        {
            LogTestFailure(test, "Unknown error");
        }
    }

    TestRegistry() = default;
"""),
    (TR, """        return (failed_ != 0) ? 1 : 0;
""", """        return failed_ > 0;
"""),
])
CH = "__Core/Char/Char.h"
ref("char-encode", "C13 C12 C36 C16", [
    (CH, re.compile(r"        const SizeType length = CalculateLength\(codePoint\);\n\n        if \(length == 1\).*?        return oss\.str\(\);\n    \}\n\n    static SizeType CalculateLength", re.S), """        DataType result;

        switch (CalculateLength(codePoint))
        {
            case 1:
                result.push_back(static_cast<char>(codePoint));
                break;
            case 2:
                result.push_back(static_cast<char>(0xC0 | (codePoint >> 6)));
                result.push_back(Continuation(codePoint));
                break;
            case 3:
                result.push_back(static_cast<char>(0xE0 | (codePoint >> 12)));
                result.push_back(Continuation(codePoint >> 6));
                result.push_back(Continuation(codePoint));
                break;
            default:
                result.push_back(static_cast<char>(0xF0 | (codePoint >> 18)));
                result.push_back(Continuation(codePoint >> 12));
                result.push_back(Continuation(codePoint >> 6));
                result.push_back(Continuation(codePoint));
                break;
        }
        return result;
    }

    static char Continuation(const CodePoint bits)
    {
        return static_cast<char>(0x80 | (bits & 0x3F));
    }

    static SizeType CalculateLength"""),
    (CH, """    Char(const StdChar byte)
    {
        if (!IsValidUtf8Char(DataType(1, byte)))
        {
            throw std::invalid_argument("Invalid UTF-8 character");
        }
        data_ = byte;
    }
""", """    Char(const StdChar byte) : Char{DataType(1, byte)}
    {
    }
"""),
    (CH, """    Char(const char* bytes)
    {
        if (!IsValidUtf8Char(bytes))
        {
            throw std::invalid_argument("Invalid UTF-8 character");
        }
        data_ = bytes;
    }
""", """    Char(const char* bytes) : Char{DataType(bytes)}
    {
    }
"""),
    (CH, """        else if ((lead & 0xF0) == 0xE0)
        {
            codePoint = (lead & 0x0F) << 12;
            codePoint |= (static_cast<unsigned char>(data_[1]) & 0x3F) << 6;
            codePoint |= (static_cast<unsigned char>(data_[2]) & 0x3F);
        }
        else if ((lead & 0xF8) == 0xF0)
        {
            codePoint = (lead & 0x07) << 18;
            codePoint |= (static_cast<unsigned char>(data_[1]) & 0x3F) << 12;
            codePoint |= (static_cast<unsigned char>(data_[2]) & 0x3F) << 6;
            codePoint |= (static_cast<unsigned char>(data_[3]) & 0x3F);
        }
""", """        else if ((lead & 0xF0) == 0xE0 || (lead & 0xF8) == 0xF0)
        {
            codePoint = lead & (data_.size() == 3 ? 0x0F : 0x07);
            for (SizeType i = 1; i < data_.size(); ++i)
            {
                codePoint = (codePoint << 6) | (static_cast<unsigned char>(data_[i]) & 0x3F);
            }
        }
"""),
])
CU = "__Core/Char/Utility.h"
ref("char-tables", "C14", [
    (CU, """    if (SpecialCaseUpper.find(codePoint) != SpecialCaseUpper.end())
    {
        return SpecialCaseUpper.at(codePoint);
    }
""", """    const auto special = SpecialCaseUpper.find(codePoint);
    if (special != SpecialCaseUpper.end())
    {
        return special->second;
    }
"""),
    (CU, """    return SpaceCodepoints.find(codePoint) != SpaceCodepoints.end();
""", """    return SpaceCodepoints.count(codePoint) != 0;
"""),
    (CU, """    if (codePoint >= 0x3B1 && codePoint <= 0x3C1)
    {
        return codePoint - 0x20;
    }
    if (codePoint >= 0x3C3 && codePoint <= 0x3C9)
    {
        return codePoint - 0x20;
    }
""", """    if (codePoint >= 0x3B1 && codePoint <= 0x3C9 && codePoint != 0x3C2)
    {
        return codePoint - 0x20;
    }
"""),
    (CU, """    if (codePoint >= 0x014A && codePoint <= 0x0177)
    {
        if (codePoint % 2 == 0)
        {
            return codePoint;
        }
        return codePoint - 1;
    }
    return codePoint;
""", """    if (codePoint >= 0x014A && codePoint <= 0x0177)
    {
        return codePoint & ~CodePoint{1};
    }
    return codePoint;
"""),
    (CU, """    // Latin
    if (codePoint >= 0x41 && codePoint <= 0x5A)
    {
        return true;
    }
    // Cirillic
    if (codePoint >= 0x410 && codePoint <= 0x42F)
    {
        return true;
    }
""", """    static constexpr CodePoint Ranges[][2] = {{0x41, 0x5A}, {0x410, 0x42F}};
    for (const auto& range : Ranges)
    {
        if (codePoint >= range[0] && codePoint <= range[1])
        {
            return true;
        }
    }
"""),
])
RA = "__Core/Utility/Random.h"
MU = "__Core/Collections/Utility/MapUtility.h"
CO = "__Core/Utility/Comparators.h"
AP = "__Caitlyn/Application.h"
SB = "__Core/String/StringBuilder.h"
ref("small", "C31 C32 C33 C34 C35", [
    (RA, """__CAITLYN_GLOBAL_NAMESPACE_BEGIN

template <typename T>
T Random(""", """__CAITLYN_GLOBAL_NAMESPACE_BEGIN

inline std::mt19937_64 MakeEngine()
{
    return std::mt19937_64(std::chrono::steady_clock::now().time_since_epoch().count());
}

template <typename T>
T Random("""),
    (RA, re.compile(r"    std::mt19937_64 engine\(std::chrono::steady_clock::now\(\)\.time_since_epoch\(\)\.count\(\)\);\n    return std::uniform_int_distribution<(\w+)>\{min, max\}\(engine\);"), r"    auto engine = MakeEngine();\n    std::uniform_int_distribution<\1> distribution(min, max);\n    return distribution(engine);"),
    (MU, """    for (auto& element : map)
    {
        keys.emplace_back(element.first);
    }
""", """    keys.reserve(map.size());
    for (auto it = map.begin(); it != map.end(); ++it)
    {
        keys.push_back(it->first);
    }
"""),
    (CO, """    if (std::is_signed<T>::value == std::is_signed<U>::value)
    {
        return t < u;
    }
    if (std::is_signed<T>::value)
    {
        return t < 0 || UT(t) < u;
    }
    return u >= 0 && t < UU(u);
""", """    if (std::is_signed<T>::value != std::is_signed<U>::value)
    {
        if (std::is_signed<T>::value)
        {
            return t < 0 ? true : UT(t) < u;
        }
        return u < 0 ? false : t < UU(u);
    }
    return t < u;
"""),
    (AP, """        if (argc > 0)
        {
            args_.reserve(argc);
            for (int i = 0; i < argc; ++i)
            {
                auto arg_copy = new char[std::strlen(argv[i]) + 1];
                std::strcpy(arg_copy, argv[i]);
                args_.emplace_back(arg_copy);
            }
        }
""", """        for (int i = 0; i < argc; ++i)
        {
            const std::size_t length = std::strlen(argv[i]);
            char* const copy = new char[length + 1];
            std::memcpy(copy, argv[i], length + 1);
            args_.push_back(copy);
        }
"""),
    (AP, """        if (Initialized())
        {
            throw std::runtime_error("caitlyn::init can only be called once.");
        }

        Initialized() = true;
        return Instance();
    }
""", """        return Initialize(0, nullptr);
    }
"""),
    (SB, """    void AppendLine(const String& str)
    {
        data_ << str << Def::LineFeed;
    }
""", """    void AppendLine(const String& str)
    {
        Append(str);
        data_ << '\\n';
    }
"""),
])
SU = "__Core/String/Utility.h"
ref("string-utility", "C36 C08 C09", [
    (SU, """    for (size_t i = 0; i < str.size(); ++i)
    {
        if (!IsSpace(str[i].GetCodePoint()))
        {
            return i;
        }
    }
    return str.size();
""", """    const auto it = std::find_if_not(str.begin(), str.end(), [](const Char& c) { return IsSpace(c.GetCodePoint()); });
    return static_cast<size_t>(it - str.begin());
"""),
    (SU, re.compile(r"            if \(str\[i \+ 1\] == Def::QuotationMark\)\n.*?            else if \(str\[i \+ 1\] == Def::LatinSmallLetterU\)\n", re.S), """            static const String From{"\\"?\\\\/abfnrtv"};
            static const String To{"\\"?\\\\/\\a\\b\\f\\n\\r\\t\\v"};
            const size_t which = From.Find(String(1, str[i + 1]));

            if (which != String::NPosition)
            {
                oss << To[which];
                ++i;
            }
            else if (str[i + 1] == Def::LatinSmallLetterU)
"""),
])
AS = "__Testing/Macro/Assert.h"
ref("assert-macros", "C24", [
    (AS, re.compile(r"    do  +\\\n    if \(!\(\((val1)\) == \(val2\)\)\)  +\\\n    \{  +\\\n        std::ostringstream oss;"), r"""    do \\
    if ((val1) == (val2)) \\
    { \\
    } \\
    else \\
    { \\
        std::ostringstream oss; \\"""[:-2]),
    (AS, """    if (condition)                                                                                                     \\
    {                                                                                                                  \\
    }                                                                                                                  \\
    else                                                                                                               \\
        throw std::runtime_error("Assertion failed: " #condition)
""", """    switch (0) \\
    case 0: \\
    default: \\
        if (condition) \\
            ; \\
        else \\
            throw std::runtime_error("Assertion failed: " #condition)
"""),
])


def one(r):
    name, checks, edits = r
    w = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        for f, old, new in edits:
            p = os.path.join(w, INC, f)
            s = open(p).read()
            if isinstance(old, str):
                if s.count(old) < 1:
                    return "%s: text not found in %s: %r" % (name, f, old[:80])
                s = s.replace(old, new, 1)
            else:
                s, n = old.subn(new if re.search(r'\\[1-9]', new) else (lambda m: new), s)
                if not n:
                    return "%s: pattern not found in %s: %r" % (name, f, old.pattern[:80])
            open(p, "w").write(s)
        d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        t = subprocess.run("g++ -std=c++11 -fsyntax-only -Iinclude -I%s/include -x c++ -" % w, shell=True, input="".join("#include <Caitlyn/%s>\n" % h for h in ("Caitlyn", "Error", "File", "IO", "Memory", "Numeric", "Serializing", "String", "Testing", "Utility", "Collections")), text=True, capture_output=True)
        if t.returncode:
            return "%s: does not compile:\n%s" % (name, t.stderr[:1500])
        out.append("%s (%d lines)" % (name, d.count("\n+") + d.count("\n-")))
        for c in checks:
            q = subprocess.run(["./check", c], cwd=HERE, env=dict(os.environ, CAITLYN_REPO=w, VP_DEBUG="1"), capture_output=True, text=True)
            last = [l for l in q.stdout.split("\n") if "undecided" in l][-1:] or [q.stderr[-200:]]
            out.append("   %s rc=%d %s" % (c, q.returncode, last[0][:120]))
            if q.returncode or " 0 undecided" not in last[0]:
                open("/tmp/ref.%s.%s.log" % (name, c), "w").write(q.stdout + q.stderr)
    finally:
        shutil.rmtree(w)
    return "\n".join(out)


if __name__ == "__main__":
    sel = [r for r in R if not sys.argv[1:] or r[0] in sys.argv[1:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for s in ex.map(one, sel):
            print(s, flush=True)
