From ebcfb254dc481f4ee44bbdb6dcc737033a6a4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 01/88] fix: umbrella header includes Application.h by its real
 path

---
 include/Caitlyn/__Caitlyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn.h b/include/Caitlyn/__Caitlyn.h
index 754ffb6..2ebaa2c 100644
--- a/include/Caitlyn/__Caitlyn.h
+++ b/include/Caitlyn/__Caitlyn.h
@@ -18,6 +18,6 @@
 #ifndef CAITLYN_CAITLYN_H_
 #define CAITLYN_CAITLYN_H_
 
-#include "caitlyn/__caitlyn/application.h"
+#include "Caitlyn/__Caitlyn/Application.h"
 
 #endif // CAITLYN_CAITLYN_H_
-- 
2.43.0


From b68e647eb48ea0ef7d8dfd5e284c60cc0f6a89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:50 +0000
Subject: [PATCH 02/88] fix: version string reports the patch number

---
 include/Caitlyn/__Caitlyn/Config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index c12b652..95f8815 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -29,7 +29,7 @@
 
 #define __CAITLYN_VERSION                                                                                              \
     "Caitlyn " __CAITLYN_TOSTRING(__CAITLYN_MAJOR_VERSION__) "." __CAITLYN_TOSTRING(                                   \
-        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_MINOR_VERSION__)
+        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_PATCH_VERSION__)
 
 //Architecture
 #if defined(__i386__) || defined(_M_IX86) || defined(__32BIT__)
-- 
2.43.0


From eb41f50c5259463d2c897495700ec4064b1c69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:22 +0000
Subject: [PATCH 03/88] fix: char8_t support compiles in C++20 (literal prefix
 and trait name)

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0


From d4dadaa98063cb584b50222772bea5d480764f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 04/88] fix: include <cstdint> where fixed-width integers are
 used

---
 include/Caitlyn/__Numeric/Types/BigInteger.h          | 1 +
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..ab99e0a 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -19,6 +19,7 @@
 #define CAITLYN_NUMERIC_TYPES_BIGINTEGER_H_
 
 #include <algorithm>
+#include <cstdint>
 #include <stdexcept>
 #include <string>
 #include <vector>
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..c2a10ab 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cstdint>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
-- 
2.43.0


From 1caf69c75b185e9fece01e5a1e7648cc09047f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 05/88] fix: Application can be included in more than one
 translation unit

---
 include/Caitlyn/__Caitlyn/Application.h | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..bbc2bd2 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -33,26 +33,26 @@ class Application
 public:
     static const Application* Initialise()
     {
-        if (initialized_)
+        if (Initialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        initialized_ = true;
-        return application_;
+        Initialized() = true;
+        return Instance();
     }
 
     static const Application* Initialize(const int& argc, const char** argv)
     {
-        if (initialized_)
+        if (Initialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        application_->SetArgs(argc, argv);
-        initialized_ = true;
+        Instance()->SetArgs(argc, argv);
+        Initialized() = true;
 
-        return application_;
+        return Instance();
     }
 
     const std::vector<const char*>& GetArgs() const
@@ -117,8 +117,18 @@ private:
     }
 
 private:
-    static Application* application_;
-    static bool initialized_;
+    // Function-local statics: this header may be included in any number of translation units.
+    static Application* Instance()
+    {
+        static Application* application = new Application();
+        return application;
+    }
+
+    static bool& Initialized()
+    {
+        static bool initialized = false;
+        return initialized;
+    }
 
     const char* lib_version_;
     const char* system_name_;
@@ -126,9 +136,6 @@ private:
     std::vector<const char*> args_{};
 };
 
-Application* Application::application_ = new Application();
-bool Application::initialized_ = false;
-
 __CAITLYN_GLOBAL_NAMESPACE_END
 
 #endif // CAITLYN_APPLICATION_H_
-- 
2.43.0


From 44e6c2bc13c78db7b0f97572ab47cef23795d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 06/88] fix: IsRValueReference tests for an rvalue reference

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..006f3ae 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From ff23df80028f0b9abfa77757f8f22ab3c7b5caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 07/88] fix: AlignmentOf, Rank and Extent return the number,
 not a Bool

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..5c68332 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr SizeType AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr SizeType Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr SizeType Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From 042df6f64bc649b5e229e26cce1d8607833df2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 08/88] fix: RemoveConstType and RemoveVolatileType strip only
 their own qualifier

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..f5a2603 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -65,6 +65,30 @@ struct __RemoveCV<const volatile T>
     using Type = T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From ea7daaa893ffc3ec89bf89f4eac43ffc1fb52a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 09/88] fix: HasBitwiseOr and HasIStream traits test the
 operator they name

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..98a60fc 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
@@ -200,7 +200,7 @@ struct HasIStreamOperatorType : FalseType
 };
 
 template <typename T>
-struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T>())>> : TrueType
+struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T&>())>> : TrueType
 {
 };
 
-- 
2.43.0


From b4b0857327ef20e0ee5f0f37b33bc9b59b4df5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 10/88] fix: reference/pointer adding traits handle reference
 types; sign traits accept class types

---
 include/Caitlyn/__Core/Traits/Types/Pointers.h   | 4 ++--
 include/Caitlyn/__Core/Traits/Types/Properties.h | 4 ++--
 include/Caitlyn/__Core/Traits/Types/References.h | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..653725e 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(int) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
@@ -62,7 +62,7 @@ struct __RemovePointer<T* const volatile>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(nullptr))::Type;
+using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(0))::Type;
 
 template <typename T>
 using RemovePointerType = typename __Detail::__RemovePointer<T>::Type;
diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..ce2b2a9 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -24,12 +24,12 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<std::is_signed<T>::value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<std::is_unsigned<T>::value>
 {
 };
 
diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..868aba4 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -24,13 +24,13 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
+auto __TryAddLValueReference(int) -> __TypeIdentity<T&>;
 
 template <typename T>
 auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
 
 template <typename T>
-auto __TryAddRValueReference(T*) -> __TypeIdentity<T&&>;
+auto __TryAddRValueReference(int) -> __TypeIdentity<T&&>;
 
 template <typename T>
 auto __TryAddRValueReference(...) -> __TypeIdentity<T>;
@@ -56,10 +56,10 @@ struct __RemoveReference<T&&>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(nullptr))::Type;
+using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(0))::Type;
 
 template <typename T>
-using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(nullptr))::Type;
+using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(0))::Type;
 
 template <typename T>
 using RemoveReferenceType = typename __Detail::__RemoveReference<T>::Type;
-- 
2.43.0


From f495536af9960e4a3094a824b95f23eea224b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 11/88] fix: character, integer and floating constraints ignore
 cv-qualifiers like their siblings

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index 006f3ae..b172a74 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return IsCharacter<T>() || IsInteger<T>() || IsBooleanType<T>::Value;
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 039e3d5f61245468ec626d77002d7a1f6de125e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 12/88] fix: Expected::UnwrapOrDefault compiles

---
 include/Caitlyn/__Core/Error/Expected.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..11bc6cb 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -219,13 +219,17 @@ public:
 
     const ValueType& UnwrapOrDefault() const
     {
-        static ValueType default_value{};
-        return unwrap_or(default_value);
+        static const ValueType default_value{};
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        if (hasValue_)
+        {
+            return data_.value;
+        }
+        return default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From c8d842bfabdf3f2cfc328d427a6548855785e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 13/88] fix: Expected::Filter compiles and lets an existing
 error through

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 11bc6cb..4c77943 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -254,11 +254,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected(Unexpected<ErrorType>{ErrorType{}});
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From c73c5ba28f4027ab7a7a34f9ae1cabad91f8b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 14/88] fix: Expected::MapError keeps the value when the error
 type changes

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 4c77943..6fa8c3a 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
-- 
2.43.0


From 052d0645a2dc57d79b81139323f779ecbcb3aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 15/88] fix: Expected copy assignment survives a throwing copy

---
 include/Caitlyn/__Core/Error/Expected.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 6fa8c3a..5f7703b 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            // Copy first: a copy that throws must leave this object as it was.
+            *this = Expected{other};
         }
         return *this;
     }
-- 
2.43.0


From 103b62b8a291b147d137d0facc643252cdac2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 16/88] fix: pointer assignment and UniquePtr::Release compile

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..02a338c 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -60,7 +60,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..f45b283 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -53,7 +53,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -126,7 +126,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From e2c7f165ccabedfc02ac4c5306ec3c13fa4ba9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 17/88] fix: UniquePtr move assignment from a pointer owned by
 the old object

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index f45b283..3edee7b 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -18,6 +18,8 @@
 #ifndef CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 #define CAITLYN_CORE_MEMORY_TYPES_UNIQUEPOINTER_H
 
+#include <stdexcept>
+
 #include "Caitlyn/__Base.h"
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
@@ -61,9 +63,11 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
+            // The old object may own `other`: take over before deleting it.
+            const Pointer old = data_;
             data_ = other.data_;
             other.data_ = nullptr;
+            delete old;
         }
         return *this;
     }
-- 
2.43.0


From 207cb342bfed0b133aa0cef8d2ffc1afc0cc7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 18/88] fix: copying an empty SharedPtr does not dereference a
 null counter

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 02a338c..5c8d533 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From 72029fe006df1861daaf17a04243f2f2f21ad8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 19/88] fix: SharedPtr frees the object when the last owner
 leaves

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 5c8d533..e532c95 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -155,7 +155,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From cb1723414b29b101ea82e9b97a77f28f3d0898cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 20/88] fix: SharedPtr assignment from a pointer owned by the
 old object

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e532c95..984ad43 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -71,7 +72,8 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            // The old object may own `other`: share it before letting the old object go.
+            const SharedPtr old{std::move(*this)};
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             if (ref_count_)
@@ -86,7 +88,7 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            const SharedPtr old{std::move(*this)};
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             other.data_ = nullptr;
-- 
2.43.0


From 23a2d2be2c61fcc1d7e4d9719ce37242b4489980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 21/88] fix: decoding a truncated UTF-8 sequence does not read
 past the terminator

---
 include/Caitlyn/__Core/String/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..0e33c78 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,7 +999,8 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
-        return CharType{BasicString(cstr, len)};
+        // Stop at the terminator: a truncated sequence is rejected by Char.
+        return CharType{BasicString(cstr, std::find(cstr, cstr + len, '\0'))};
     }
 
 private:
-- 
2.43.0


From 0f791c34f3de2c8d1e0c991e643e1f9a3a97b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 22/88] fix: String iterator-range constructor compiles

---
 include/Caitlyn/__Core/String/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 0e33c78..63e85ce 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -98,13 +98,8 @@ public:
 
     // Constructor from iterator range
     template <typename InputIt>
-    String(InputIt first, InputIt last)
+    String(InputIt first, InputIt last) : String{BasicString(first, last)}
     {
-        while (first != last)
-        {
-            data_.emplace_back(decode_utf8_char(&(*first)));
-            ++first;
-        }
     }
 
     // Copy constructor
-- 
2.43.0


From befcb2fdcdef3e58f42328e6fa1f91fdeda473dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 23/88] fix: String searches starting past the end find nothing

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 63e85ce..d701235 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -386,6 +386,10 @@ public:
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
@@ -437,6 +441,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -445,6 +453,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From e49795b0c920e0301e60831957a4c125c1de5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 24/88] fix: String::ReverseFind returns where the match starts

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index d701235..5d4aa48 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -411,7 +411,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - std::distance(data_.rbegin(), it) - substr.size() : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From 335eddfc1249f7b23870e90e6846fcc4203a14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 25/88] fix: String operations accept their own contents as
 argument

---
 include/Caitlyn/__Core/String/String.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 5d4aa48..144c1e2 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -236,6 +236,10 @@ public:
 public:
     String& operator+=(const String& str)
     {
+        if (this == &str)
+        {
+            return *this += String{str};
+        }
         data_.insert(data_.end(), str.data_.begin(), str.data_.end());
         return *this;
     }
@@ -284,12 +288,7 @@ public:
 
     void Append(const SizeType count, const CharType& pattern)
     {
-        SizeType i = 0;
-        while (i < count)
-        {
-            data_.emplace_back(pattern);
-            ++i;
-        }
+        data_.insert(data_.end(), count, pattern);
     }
 
     void Clear()
@@ -506,6 +505,10 @@ public:
 
     void Insert(const SizeType pos, const String& str)
     {
+        if (this == &str)
+        {
+            return Insert(pos, String{str});
+        }
         if (pos > size())
         {
             throw std::out_of_range("Position out of range");
-- 
2.43.0


From 6520e0ffe8e2de6e787f1d5d10d97b5c2b65c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 26/88] fix: formatting a signed or unsigned char is not
 ambiguous

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 144c1e2..204ce07 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -725,7 +725,7 @@ private:
         }
 
         template <typename T>
-        static Required<IsInteger<T>(), String> ToString(const T& value)
+        static Required<IsInteger<T>() && !IsCharacter<T>(), String> ToString(const T& value)
         {
             return std::to_string(value);
         }
-- 
2.43.0


From 30f158a28f6456153941135cce57f40f5306f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 27/88] fix: String::Format fields take the argument they
 designate, or throw FormatError

---
 include/Caitlyn/__Core/String/String.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 204ce07..d630c78 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -609,11 +609,11 @@ public:
                         {
                             arg_index = std::stoul(spec.Substring(spec_begin, index_end - spec_begin).str());
                         }
-                        catch (const std::out_of_range&)
+                        catch (const std::exception&)
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
@@ -624,7 +624,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
@@ -634,6 +634,14 @@ public:
                     }
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
+                        if (arguments.size() > 1)
+                        {
+                            arg_index = auto_index++;
+                        }
+                        if (arg_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Argument index out of range"};
+                        }
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
@@ -643,6 +651,10 @@ public:
                     }
                     else if (arguments.size() > 1)
                     {
+                        if (auto_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Argument index out of range"};
+                        }
                         result << arguments[auto_index++].str();
                     }
                     else
-- 
2.43.0


From c4fef1c719fcd1720ff97f239066215371f5af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 28/88] fix: an empty format specification is not read out of
 range

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index d630c78..66e7b11 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -808,6 +808,10 @@ private:
                     ++pos;
                 }
             }
+            else if (pos >= config.size())
+            {
+                return;
+            }
             else if (config[pos] == Def::LessThanSign)
             {
                 spec.align = Alignment::Left;
-- 
2.43.0


From 060be7f8d7cf393a6831ff3df0f458373f1112ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 29/88] fix: a malformed width or precision is a FormatError

---
 include/Caitlyn/__Core/String/String.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 66e7b11..7353cc7 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -833,7 +833,14 @@ private:
         {
             if (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
             {
-                spec.width = std::stoul(config.Substring(pos).str());
+                try
+                {
+                    spec.width = std::stoul(config.Substring(pos).str());
+                }
+                catch (const std::exception&)
+                {
+                    throw FormatError{"Invalid width in format specifier"};
+                }
                 while (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
                 {
                     ++pos;
@@ -848,7 +855,14 @@ private:
                 ++pos;
                 if (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
                 {
-                    spec.precision = std::stoi(config.Substring(pos).str());
+                    try
+                    {
+                        spec.precision = std::stoi(config.Substring(pos).str());
+                    }
+                    catch (const std::exception&)
+                    {
+                        throw FormatError{"Invalid precision in format specifier"};
+                    }
                     while (pos < config.size() && IsDigit(config[pos].GetCodePoint()))
                     {
                         ++pos;
-- 
2.43.0


From 610a2de8f54dd3659fa1ae87ffca7342fe716c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 30/88] fix: floating format without a precision keeps the
 decimals

---
 include/Caitlyn/__Core/String/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 7353cc7..d695026 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -952,9 +952,9 @@ private:
             std::ostringstream oss;
             const auto dot_index = value.Find(Def::FullStop);
 
-            if (dot_index != NPosition)
+            if (dot_index != NPosition && spec.precision >= 0)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                oss << value.Substring(0, spec.precision > 0 ? dot_index + 1 : dot_index).str();
 
                 if (spec.precision > 0)
                 {
-- 
2.43.0


From 94da1edffeb0a85d97d383e349cc214447ec8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 31/88] fix: a copied StringBuilder appends instead of
 overwriting

---
 include/Caitlyn/__Core/String/StringBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..7b9737c 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,7 +51,7 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::ate}
     {
     }
 
-- 
2.43.0


From 58969e8bd308d2707762fc31e7d7bdd21c20ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 32/88] fix: FindLastNonSpace examines the first character and
 accepts an empty string

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..3f4d096 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -166,11 +166,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From 250ac8fc9709762b609cf845e6b9227ac510e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 33/88] fix: Repeat with a count of zero is empty

---
 include/Caitlyn/__Core/String/Utility.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 3f4d096..9e2403c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,10 +42,6 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
-    {
-        return str;
-    }
     std::stringstream ss;
     for (size_t i = 0; i < count; ++i)
     {
-- 
2.43.0


From 5bdc494f4f84988fa48747519a30d66221098e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 34/88] fix: assigning a part of a JSON value to the value
 itself

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..04e3a0c 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -101,9 +101,8 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            // Copy first: `other` may be a part of this value.
+            *this = JsonData(other);
         }
         return *this;
     }
@@ -112,9 +111,11 @@ public:
     {
         if (this != &other)
         {
+            // Take over first: `other` may be a part of this value.
+            JsonData source(std::move(other));
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = source.type_;
+            MoveUnion(std::move(source));
         }
         return *this;
     }
-- 
2.43.0


From 5a9f665c02ee14ef51aabb47b757839eaed2fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 35/88] fix: JSON strings and moved-from members are destroyed

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 04e3a0c..39baf18 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -533,8 +533,8 @@ private:
             default:
                 break;
         }
-        other.type_ = JsonClass::Null;
-        new (&other.data_.null_value) NullType{};
+        // The moved-from member is still an object: an empty container or string.
+        other.SetType(JsonClass::Null);
     }
 
     void DestroyUnion()
@@ -555,6 +555,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 368a11b64a55c0f4b65c016b195768c6fcf75d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 36/88] fix: growing a JSON array by index creates its elements

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 39baf18..97c4674 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -175,13 +175,9 @@ public:
     {
         SetType(JsonClass::Array);
         auto& array = data_.array_value;
-        if (index >= array.size())
+        while (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            array.emplace_back(new JsonData());
         }
         return *array[index];
     }
-- 
2.43.0


From 996827549c6397466795065b38649dbdeec7038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 37/88] fix: const At on a JSON value of another kind throws

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 97c4674..0233a93 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -190,6 +190,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Key not found"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -210,6 +214,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Index out of range"};
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From b1a0361e2ffd8787eaa4422eaa71bdc234cf0b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 38/88] fix: MakeFloating, MakeIntegral and MakeBoolean make
 values of their kind

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 0233a93..8b55bb0 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -662,17 +662,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From 05aebb04ec37d9ef99cf71f3bc95432775ddfb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 39/88] fix: RemoveMember frees the removed value

---
 .../Caitlyn/__Serializing/Json/Types/Json.h   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..aa506f3 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,13 +136,18 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            for (auto it = obj.begin(); it != obj.end();)
+            {
+                if (it->first == key)
+                {
+                    delete it->second;
+                    it = obj.erase(it);
+                }
+                else
+                {
+                    ++it;
+                }
+            }
         }
     }
 
-- 
2.43.0


From 2abd1bf3172e47ff10ef82717f9b6933d94da64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 40/88] fix: every JSON error has a message

---
 include/Caitlyn/__Serializing/Json/Utility.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..52bd9ad 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -43,6 +43,10 @@ inline const char* GetErrorString(const JsonError error)
             return "Unterminated array.";
         case JsonError::InvalidNumber:
             return "Invalid number.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
+        case JsonError::OutOfRangeError:
+            return "Number out of range.";
         case JsonError::NumberConversionError:
             return "Number conversion error.";
         case JsonError::InvalidValue:
-- 
2.43.0


From f1464be6497c1abf2507b825efc8752a9feb0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 41/88] fix: JSON output escapes strings and member names

---
 .../__Serializing/Json/Types/JsonData.h       | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 8b55bb0..2ea0b7e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -391,7 +391,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        WriteString(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -452,7 +453,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                WriteString(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 oss << data_.floating_value;
@@ -471,6 +472,31 @@ private:
         }
     }
 
+    static void WriteString(std::ostringstream& oss, const StringType& value)
+    {
+        static constexpr char Digits[] = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const auto& elem : value)
+        {
+            const CodePoint code_point = elem.GetCodePoint();
+
+            if (elem == Def::QuotationMark || elem == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << elem;
+            }
+            else if (code_point < 0x20)
+            {
+                oss << "\\u00" << Digits[code_point >> 4] << Digits[code_point & 0x0F];
+            }
+            else
+            {
+                oss << elem;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From ba8fff6f535362ae015318c7ec7e75981eea6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:23 +0000
Subject: [PATCH 42/88] fix: JSON output of a number that is not finite is
 valid JSON

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 2ea0b7e..a7167c7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,6 +19,7 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
+#include <cmath>
 #include <deque>
 #include <sstream>
 #include <stdexcept>
@@ -456,7 +457,15 @@ private:
                 WriteString(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+                if (std::isfinite(data_.floating_value))
+                {
+                    oss << data_.floating_value;
+                }
+                else
+                {
+                    // JSON has no notation for infinities and NaN.
+                    oss << String::ValueOf(nullptr);
+                }
                 break;
             case JsonClass::Integral:
                 oss << data_.integral_value;
-- 
2.43.0


From 11888e9e686dd733ab12a6cc7c758f628bee3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 43/88] fix: JSON text of only spaces is not read out of range

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index c2a10ab..d51ed95 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -44,6 +44,12 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
+        if (first == json.size())
+        {
+            parser.SetError(JsonError::InvalidJson);
+            parser.SetErrorPosition(0);
+            return parser;
+        }
         if (json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
-- 
2.43.0


From 14c033516a9bda1244a5e6eac7262389209d92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 44/88] fix: JSON parser does not read past the end of the text

---
 .../__Serializing/Json/Types/JsonParser.h     | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index d51ed95..5647be4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -135,12 +135,12 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightCurlyBracket)
+            if (Current(Def::RightCurlyBracket))
             {
                 Next();
                 return result;
             }
-            if (json_[position_] == Def::QuotationMark)
+            if (Current(Def::QuotationMark))
             {
                 Next();
                 const auto key_end = json_.Find(Def::QuotationMark, position_);
@@ -155,7 +155,7 @@ private:
                 position_ = key_end + 1;
 
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!Current(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -166,19 +166,19 @@ private:
                 result[key] = ParseValue();
 
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (Current(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (Current(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (Current(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -212,7 +212,7 @@ private:
         {
             SkipSpace();
 
-            if (json_[position_] == Def::RightSquareBracket)
+            if (Current(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -221,19 +221,19 @@ private:
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (Current(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (Current(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (Current(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -342,7 +342,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (Current(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -418,6 +418,11 @@ private:
         }
     }
 
+    bool Current(const Char& expected) const
+    {
+        return position_ < json_.size() && json_[position_] == expected;
+    }
+
     void Next(const SizeType count = 1)
     {
         position_ += count;
-- 
2.43.0


From b70086869d482b0b55102b07a8f0119bd28a62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 45/88] fix: JSON escapes keep the character that follows; an
 escaped solidus is accepted

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 5647be4..d35519e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -286,6 +286,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
@@ -334,7 +338,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
-- 
2.43.0


From 6a2d2847b1f28d9da00d3d3c654f69aa0585be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 46/88] fix: JSON unicode escapes yield the character they name

---
 .../__Serializing/Json/Types/JsonParser.h     | 60 +++++++++++++++----
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index d35519e..4ce1002 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -312,25 +312,30 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
+                    uint32_t code_point = 0;
+                    uint32_t low = 0;
+
+                    if (!ReadHex(position_ + 1, code_point) || (code_point >= 0xDC00 && code_point <= 0xDFFF))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
-                    {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
-                    }
-                    catch (const std::exception&)
+                    Next(4);
+                    if (code_point >= 0xD800 && code_point <= 0xDBFF)
                     {
-                        SetError(JsonError::InvalidEscapeSequence);
-                        SetErrorPosition(position_);
-                        return JsonData{};
+                        // A high surrogate is completed by the low surrogate that follows.
+                        if (json_.Substring(position_ + 1, 2) != "\\u" || !ReadHex(position_ + 3, low) ||
+                            low < 0xDC00 || low > 0xDFFF)
+                        {
+                            SetError(JsonError::InvalidEscapeSequence);
+                            SetErrorPosition(position_);
+                            return JsonData{};
+                        }
+                        code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+                        Next(6);
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -355,6 +360,37 @@ private:
         return JsonData{};
     }
 
+    bool ReadHex(const SizeType begin, uint32_t& value) const
+    {
+        if (begin + 4 > json_.size())
+        {
+            return false;
+        }
+        value = 0;
+        for (SizeType i = begin; i < begin + 4; ++i)
+        {
+            const CodePoint digit = json_[i].GetCodePoint();
+
+            if (digit >= '0' && digit <= '9')
+            {
+                value = value * 16 + (digit - '0');
+            }
+            else if (digit >= 'a' && digit <= 'f')
+            {
+                value = value * 16 + (digit - 'a' + 10);
+            }
+            else if (digit >= 'A' && digit <= 'F')
+            {
+                value = value * 16 + (digit - 'A' + 10);
+            }
+            else
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     JsonData ParseBoolean()
     {
         if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
-- 
2.43.0


From ba96c73a4b6acc856b94b3f7322d03ddc45e4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 47/88] fix: JSON member names may contain escapes

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4ce1002..39e7b0a 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -142,18 +142,12 @@ private:
             }
             if (Current(Def::QuotationMark))
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
+                const String key = ParseString().GetString();
 
-                if (key_end == String::NPosition)
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
-
                 SkipSpace();
                 if (!Current(Def::Colon))
                 {
-- 
2.43.0


From aea000496ec51a42b2c7f2f71ed3d8c6dcb6baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 48/88] fix: JSON literals are looked for at a character
 position, not a byte position

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 39e7b0a..cee1679 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -246,7 +246,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -387,12 +387,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From 6c99e1ed15e480eed2cdcda473095f52bc0988b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 49/88] fix: JSON decimals keep their fraction and malformed
 numbers are rejected

---
 .../Caitlyn/__Serializing/Json/Types/JsonParser.h   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index cee1679..19399d0 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -414,17 +414,18 @@ private:
             ++end_number;
         }
         const String number_str = json_.Substring(position_, end_number - position_);
+        std::size_t used = 0;
         try
         {
-            if (number_str.Find(Def::PlusSign) != String::NPosition ||
+            if (number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                result = std::stod(number_str.str(), &used);
             }
             else
             {
-                result = std::stoll(number_str.str());
+                result = std::stoll(number_str.str(), &used);
             }
         }
         catch (const std::out_of_range&)
@@ -439,6 +440,12 @@ private:
             SetErrorPosition(position_);
             return JsonData{};
         }
+        if (used != number_str.size())
+        {
+            SetError(JsonError::InvalidNumber);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
         position_ = end_number;
         return result;
     }
-- 
2.43.0


From ec18bc0246031ffc2073410fab899b29dc0a41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 50/88] fix: JSON text after the document is an error

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 19399d0..75961ef 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -63,6 +63,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
@@ -92,6 +99,8 @@ private:
 
         if (position_ >= json_.size())
         {
+            SetError(JsonError::InvalidValue);
+            SetErrorPosition(position_);
             return JsonData{};
         }
         const auto current_char = json_[position_];
@@ -483,7 +492,7 @@ private:
     JsonError error_;
     const String& json_;
     SizeType position_;
-    SizeType errorPosition_;
+    SizeType errorPosition_{};
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
-- 
2.43.0


From d13900704b18324068c876088d08091d60bc2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 51/88] fix: JSON parsing stops at the first error

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 75961ef..ba3b2ec 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -168,6 +168,11 @@ private:
                 SkipSpace();
                 result[key] = ParseValue();
 
+                if (HasError())
+                {
+                    return JsonData{};
+                }
+
                 SkipSpace();
                 if (Current(Def::Comma))
                 {
@@ -221,6 +226,11 @@ private:
                 return result;
             }
             const JsonData value = ParseValue();
+
+            if (HasError())
+            {
+                return JsonData{};
+            }
             result.Append(value);
 
             SkipSpace();
-- 
2.43.0


From ce637cb2769cb7781e944c5bcea6c1efe1e14488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 52/88] fix: ReadChar of an empty line is not read out of range

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..b92e766 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.IsEmpty() ? Char{} : line[0];
     }
 
     template <typename... Args>
-- 
2.43.0


From 2fd7b5a6e273911e5dcf12907101f4bfe911f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 53/88] fix: File::Read reads exactly the file, also when empty
 or after its end was reached

---
 include/Caitlyn/__Core/File/File.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..bc1b73b 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -121,14 +121,20 @@ public:
         {
             Open();
         }
+        // A previous read may have reached the end.
+        file_.clear();
         file_.seekg(0, std::ios::end);
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
 
+        if (size <= 0)
+        {
+            return {};
+        }
         std::vector<char> buffer(size);
         if (file_.read(buffer.data(), size))
         {
-            return buffer.data();
+            return std::basic_string<char>(buffer.begin(), buffer.end());
         }
         return {};
     }
-- 
2.43.0


From 9c6c3e1da7370d166b4d425fefed7cde54b6414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 54/88] fix: File writes after reading to the end are not lost
 and failures are reported

---
 include/Caitlyn/__Core/File/File.h | 184 +++++++++++------------------
 1 file changed, 67 insertions(+), 117 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index bc1b73b..d6dfcf3 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -169,7 +169,9 @@ public:
         }
         if (file_.eof())
         {
+            file_.clear();
             currentPosition_ = file_.tellg();
+            file_.setstate(std::ios::eofbit);
             return result.str();
         }
         if (file_.fail() || file_.bad())
@@ -181,270 +183,218 @@ public:
 
     void Write(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data;
-        file_.flush();
+        EndWrite();
     }
 
     void Write(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.to_string();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.str();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.ToString();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename... Args>
     void Write(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        EndWrite();
     }
 
     void WriteLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     void WriteLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename... Args>
     void WriteLine(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     void Append(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        EndWrite();
     }
 
     void Append(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
-        file_.flush();
+        EndWrite();
     }
 
     template <typename... Args>
     void Append(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        EndWrite();
     }
 
     void AppendLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     void AppendLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<HasStr<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename T>
     Required<ConvertibleToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        BeginWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        EndWrite();
     }
 
     template <typename... Args>
     void AppendLine(const String& str, Args&&... args)
+    {
+        BeginWrite();
+        file_.seekp(0, std::ios::end);
+        file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
+        EndWrite();
+    }
+
+private:
+    void BeginWrite()
     {
         if (!file_.is_open())
         {
             Open();
         }
-        file_.seekp(0, std::ios::end);
-        file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
+        // A read that reached the end must not swallow the write.
+        file_.clear();
+    }
+
+    void EndWrite()
+    {
         file_.flush();
+        if (file_.fail())
+        {
+            throw std::ios_base::failure{"Failed to write to the file."};
+        }
     }
 
 private:
-- 
2.43.0


From e3b66f82d5ae75b94f4089b44137c8b879e64908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 55/88] fix: cmp_ne, cmp_greater, cmp_le and cmp_ge compile

---
 include/Caitlyn/__Core/Utility/Comparators.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..8b70d75 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -42,7 +42,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +65,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From af6b9c70e05f27e417e8677c720631c343888f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 56/88] fix: RandomBoolean rejects NaN

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..5ad8ac0 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -95,7 +95,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From c97421d3a499eec34d93012724921c065c9977cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 57/88] fix: ASSERT_STREQ fails its test instead of aborting
 the run

---
 include/Caitlyn/__Testing/Macro/Assert.h | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..db8fe39 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,6 +18,10 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+#include <sstream>
+#include <stdexcept>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
@@ -93,25 +97,19 @@
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
     {                                                                                                                  \
-        if ((expected) == nullptr && (actual) == nullptr)                                                              \
+        const char* expected_str = (expected);                                                                         \
+        const char* actual_str = (actual);                                                                             \
+                                                                                                                       \
+        if (expected_str == actual_str)                                                                                \
         {                                                                                                              \
             break;                                                                                                     \
         }                                                                                                              \
-        else if ((expected) == nullptr)                                                                                \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if ((actual) == nullptr)                                                                                  \
-        {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
-        }                                                                                                              \
-        else if (std::strcmp((expected), (actual)) != 0)                                                               \
+        if (expected_str == nullptr || actual_str == nullptr || std::strcmp(expected_str, actual_str) != 0)            \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            std::ostringstream oss;                                                                                    \
+            oss << "Assertion failed: Expected \"" << (expected_str ? expected_str : "nullptr") << "\", but got \""    \
+                << (actual_str ? actual_str : "nullptr") << "\"";                                                      \
+            throw std::runtime_error(oss.str());                                                                       \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 2f883149b1630cf26dcfd5626f1972d94f9bdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 58/88] fix: ASSERT_TRUE and ASSERT_FALSE do not capture a
 following else

---
 include/Caitlyn/__Testing/Macro/Assert.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index db8fe39..1a1ca98 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -26,12 +26,18 @@
 #include "Caitlyn/__Testing/Types.h"
 
 #define ASSERT_TRUE(condition)                                                                                         \
-    if (!(condition))                                                                                                  \
-    throw std::runtime_error("Assertion failed: " #condition)
+    if (condition)                                                                                                     \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
+        throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_FALSE(condition)                                                                                        \
-    if (condition)                                                                                                     \
-    throw std::runtime_error("Assertion failed: " #condition)
+    if (!(condition))                                                                                                  \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
+        throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
     if (!((val1) == (val2)))                                                                                           \
-- 
2.43.0


From acd9a76a57a0d6f53288a2f0a8ebc43b10ea9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 59/88] fix: case conversion of Greek Extended, 0139-0148 and
 characters past U+1FEC

---
 include/Caitlyn/__Core/Char/Utility.h | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..3720024 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -191,27 +191,27 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -311,27 +311,31 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
         return codePoint - 0x08;
     }
+    if (codePoint >= 0x1FDA && codePoint <= 0x1FDB)
+    {
+        return codePoint - 0x64;
+    }
     if (codePoint >= 0x1FE8 && codePoint <= 0x1FE9)
     {
         return codePoint - 0x08;
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -352,7 +356,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From abfceafb05ab16ff72a2279c2bffd069f722b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 60/88] fix: uppercase of Greek small letters with psili/dasia

---
 include/Caitlyn/__Core/Char/Utility.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 3720024..5fe65ea 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,27 +167,27 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-- 
2.43.0


From cd99d36350655d0cfb2d0ee0f66e7e488432c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 61/88] fix: Char rejects a single byte that is not valid UTF-8

---
 include/Caitlyn/__Core/Char/Char.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..5e58745 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -38,6 +38,10 @@ public:
 
     Char(const StdChar byte)
     {
+        if (!IsValidUtf8Char(DataType(1, byte)))
+        {
+            throw std::invalid_argument("Invalid UTF-8 character");
+        }
         data_ = byte;
     }
 
@@ -66,6 +70,10 @@ public:
 public:
     Char& operator=(const char byte)
     {
+        if (!IsValidUtf8Char(DataType(1, byte)))
+        {
+            throw std::invalid_argument("Invalid UTF-8 character");
+        }
         data_ = byte;
         return *this;
     }
-- 
2.43.0


From fec5f77ff80b0b273e0b593dc8c2789c333b700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 62/88] fix: Char rejects overlong, surrogate and out-of-range
 UTF-8 sequences

---
 include/Caitlyn/__Core/Char/Char.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 5e58745..99764df 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -271,16 +271,24 @@ private:
         }
         if ((first & 0xE0) == 0xC0)
         {
-            return str.size() == 2 && IsContinuationByte(str[1]);
+            return str.size() == 2 && IsContinuationByte(str[1]) && first >= 0xC2;
         }
         if ((first & 0xF0) == 0xE0)
         {
-            return str.size() == 3 && IsContinuationByte(str[1]) && IsContinuationByte(str[2]);
+            const auto second = static_cast<unsigned char>(str[1]);
+
+            // Overlong forms and UTF-16 surrogates are not characters
+            return str.size() == 3 && IsContinuationByte(str[1]) && IsContinuationByte(str[2]) &&
+                   (first != 0xE0 || second >= 0xA0) && (first != 0xED || second < 0xA0);
         }
         if ((first & 0xF8) == 0xF0)
         {
+            const auto second = static_cast<unsigned char>(str[1]);
+
+            // Overlong forms and values past U+10FFFF are not characters
             return str.size() == 4 && IsContinuationByte(str[1]) && IsContinuationByte(str[2]) &&
-                   IsContinuationByte(str[3]);
+                   IsContinuationByte(str[3]) && (first != 0xF0 || second >= 0x90) &&
+                   (first < 0xF4 || (first == 0xF4 && second < 0x90));
         }
         return false;
     }
-- 
2.43.0


From d05089fe1b8907e6e9cd7d1f97a52d8ee01452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 63/88] fix: Char rejects code points that are not Unicode
 scalar values

---
 include/Caitlyn/__Core/Char/Char.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 99764df..72a5fca 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -211,6 +211,10 @@ private:
         {
             return {};
         }
+        if (codePoint > 0x10FFFF || (codePoint >= 0xD800 && codePoint <= 0xDFFF))
+        {
+            throw std::invalid_argument("Invalid Unicode code point");
+        }
         const SizeType length = CalculateLength(codePoint);
 
         if (length == 1)
-- 
2.43.0


From 9bf9dd728af218b52508ec8d99234bfbc84da1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 64/88] fix: Char keeps U+0000 as a one-byte character

---
 include/Caitlyn/__Core/Char/Char.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 72a5fca..a6ca5b6 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -207,10 +207,6 @@ public:
 private:
     static DataType FromCodePoint(const CodePoint codePoint)
     {
-        if (codePoint == 0x00)
-        {
-            return {};
-        }
         if (codePoint > 0x10FFFF || (codePoint >= 0xD800 && codePoint <= 0xDFFF))
         {
             throw std::invalid_argument("Invalid Unicode code point");
@@ -219,7 +215,7 @@ private:
 
         if (length == 1)
         {
-            return DataType{static_cast<char>(codePoint)};
+            return DataType(1, static_cast<char>(codePoint));
         }
         std::ostringstream oss;
 
-- 
2.43.0


From ec8a5724d23812e80db4eace4064de0de95b17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 65/88] fix: streaming a Char writes U+0000

---
 include/Caitlyn/__Core/Char/Char.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index a6ca5b6..15b2742 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -306,7 +306,7 @@ __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline std::ostream& operator<<(std::ostream& os, const Caitlyn::Char& c)
 {
-    os << c.data();
+    os << c.str();
     return os;
 }
 
-- 
2.43.0


From dbbd33f856a72d2b7fa865475a072c9d7dd691cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 66/88] fix: BigInteger accepts only ASCII digits and needs at
 least one

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index ab99e0a..80c6b33 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -69,13 +69,18 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            const int digit = ToDigit(number[i].GetCodePoint());
+            if (digit < 0)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-            digits_.push_back(static_cast<int>(number[i].GetCodePoint() - 0x30));
+            digits_.push_back(digit);
         }
         std::reverse(digits_.begin(), digits_.end());
         RemoveLeadingZeros();
-- 
2.43.0


From a425ebf0239f61ef42611a13af0f88bbfc890659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 67/88] fix: ordering of negative BigIntegers

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 80c6b33..134d05c 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -357,15 +357,16 @@ public:
         {
             return is_negative_;
         }
+        // Of two negative numbers the one with the larger magnitude is less
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From 93c6f5299ebdf2fce63433a1c4fed50f31e000da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 68/88] fix: BigInteger addition, subtraction and modulo of
 mixed signs

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 32 +++++++-------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 134d05c..22498de 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -141,27 +141,22 @@ public:
             result.RemoveLeadingZeros();
             return result;
         }
-        BigInteger abs_this = *this;
-        abs_this.is_negative_ = false;
-        BigInteger abs_other = other;
-        abs_other.is_negative_ = false;
-
-        if (abs_this.GreaterThan(abs_other))
-        {
-            return abs_this.Subtract(abs_other);
-        }
-        BigInteger result = abs_other.Subtract(abs_this);
-        result.is_negative_ = other.is_negative_;
-        return result;
+        // Opposite signs: subtract the magnitude of the negative operand
+        return is_negative_ ? other.Subtract(Abs()) : Subtract(other.Abs());
     }
 
     BigInteger Subtract(const BigInteger& other) const
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = !other.is_negative_;
+            negated.RemoveLeadingZeros();
+            return Add(negated);
+        }
+        if (is_negative_)
+        {
+            return other.Abs().Subtract(Abs());
         }
         if (Equal(other))
         {
@@ -264,12 +259,7 @@ public:
 
     BigInteger Modulo(const BigInteger& other) const
     {
-        BigInteger result = Subtract(Divide(other).Multiply(other));
-        if (result.is_negative_ != is_negative_)
-        {
-            result.is_negative_ = is_negative_;
-        }
-        return result;
+        return Subtract(Divide(other).Multiply(other));
     }
 
 public:
-- 
2.43.0


From b1eba438021926dc6abefd45f76d6a44ead4af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 69/88] fix: the test runner survives an exception message that
 is not UTF-8

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..dc7f7ac 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -138,7 +138,8 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    // The message is arbitrary text of the exception, not necessarily valid UTF-8.
+    void LogTestFailure(const TestCase& test, const char* message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From 20cf73eb0312a6bb329a2e2026ab767354a7c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 70/88] fix: RunAll reports only the failures of its own run

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index dc7f7ac..f531f69 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -55,6 +55,8 @@ public:
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
+        passed_ = 0;
+        failed_ = 0;
 
         for (auto& suite : tests_)
         {
-- 
2.43.0


From d29482ccab5e4e0eab6bc350afbd1f8ab9ee348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 71/88] fix: String keeps U+0000 when converted to bytes

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index d695026..e79ea7d 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -482,7 +482,7 @@ public:
 
         for (const auto& elem : data_)
         {
-            oss << elem.data();
+            oss << elem;
         }
         return oss.str();
     }
-- 
2.43.0


From d671799a6b6b3c75a0a29b754ae21b93d97dab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 72/88] fix: EscapeString does not repeat the character of an
 unknown escape

---
 include/Caitlyn/__Core/String/Utility.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 9e2403c..62b2c4b 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -126,12 +126,14 @@ inline String EscapeString(const String& str)
                 {
                     // Incomplete escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
             }
             else
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From 4d7d15b936fee39510adab2f83f85f803bc64e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 73/88] fix: EscapeString decodes \u escapes past U+007F

---
 include/Caitlyn/__Core/String/Utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 62b2c4b..d65d027 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -119,7 +119,7 @@ inline String EscapeString(const String& str)
                 {
                     auto hex = str.Substring(i + 2, 4).str();
                     // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
+                    oss << Char{static_cast<CodePoint>(std::stoul(hex, nullptr, 16))};
                     i += 5; // Skip the escaped sequence
                 }
                 else
-- 
2.43.0


From 15034f7b826c2ca4743fd6f703bff01ddd86fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 74/88] fix: comparison assertions are single statements

---
 include/Caitlyn/__Testing/Macro/Assert.h | 28 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 1a1ca98..1098fb7 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -40,54 +40,67 @@
         throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_NE(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) != (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " != " #val2 << " (" << val1 << " == " << val2 << ")";                       \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_LT(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) < (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " < " #val2 << " (" << val1 << " >= " << val2 << ")";                        \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_LE(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) <= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " <= " #val2 << " (" << val1 << " > " << val2 << ")";                        \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_GT(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) > (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " > " #val2 << " (" << val1 << " <= " << val2 << ")";                        \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_GE(val1, val2)                                                                                          \
+    do                                                                                                                 \
     if (!((val1) >= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " >= " #val2 << " (" << val1 << " < " << val2 << ")";                        \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_EQ_PRINTABLE(val1, val2)                                                                                \
+    do                                                                                                                 \
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
         static_assert(                                                                                                 \
@@ -98,7 +111,8 @@
         std::ostringstream oss;                                                                                        \
         oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
         throw std::runtime_error(oss.str());                                                                           \
-    }
+    }                                                                                                                  \
+    while (false)
 
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
-- 
2.43.0


From 3e6055a08b0323d95c58f9326e800700a74a51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 75/88] fix: assertion messages accept operands with operators
 of low precedence

---
 include/Caitlyn/__Testing/Macro/Assert.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 1098fb7..943284c 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -44,7 +44,7 @@
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -54,7 +54,7 @@
     if (!((val1) != (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " != " #val2 << " (" << val1 << " == " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -64,7 +64,7 @@
     if (!((val1) < (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " < " #val2 << " (" << val1 << " >= " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -74,7 +74,7 @@
     if (!((val1) <= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << val1 << " > " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -84,7 +84,7 @@
     if (!((val1) > (val2)))                                                                                            \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " > " #val2 << " (" << val1 << " <= " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -94,7 +94,7 @@
     if (!((val1) >= (val2)))                                                                                           \
     {                                                                                                                  \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << val1 << " < " << val2 << ")";                        \
+        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";                    \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
@@ -109,7 +109,7 @@
             "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                     \
                                                                                                                        \
         std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << val1 << " != " << val2 << ")";                       \
+        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
         throw std::runtime_error(oss.str());                                                                           \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 5d36c1f8bf43f7b2d0307bc99515b11860ec8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 76/88] fix: appending the bytes of an own character must not
 read replaced storage

---
 include/Caitlyn/__Core/String/String.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index e79ea7d..2237b1c 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -268,21 +268,14 @@ public:
 
     void Append(const char* cstr)
     {
-        while (*cstr)
-        {
-            data_.emplace_back(DecodeUtf8Char(cstr));
-            // Move past the current UTF-8 character
-            cstr += DecodeUtf8Char(cstr).size();
-        }
+        *this += String{cstr};
     }
 
     void Append(const SizeType count, const char* pattern)
     {
-        SizeType i = 0;
-        while (i < count)
+        if (count > 0)
         {
-            data_.emplace_back(pattern);
-            ++i;
+            Append(count, CharType{pattern});
         }
     }
 
-- 
2.43.0


From 41d3c805b182e353272029513bcc10fe6d6367cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:38 +0000
Subject: [PATCH 77/88] fix: kmp must not read past an empty pattern

---
 include/Caitlyn/__Core/String/Algorithms/Kmp.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..2868b0a 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -49,6 +49,11 @@ inline bool kmp(const std::string& pattern, const std::string& text)
 {
     const size_t text_size = text.size();
     const size_t pattern_size = pattern.size();
+
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
     for (size_t i = 0, j = 0; i < text_size; ++i)
-- 
2.43.0


From 94719c006f16444ec8fc6aeb024d342a4df8803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:32 +0000
Subject: [PATCH 78/88] fix: a string built from bytes keeps what follows a NUL
 character

---
 include/Caitlyn/__Core/String/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 2237b1c..6ccae01 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -66,7 +66,8 @@ public:
     String(const BasicString& str)
     {
         const char* cstr = str.c_str();
-        while (*cstr)
+        const char* const last = cstr + str.size();
+        while (cstr != last)
         {
             data_.emplace_back(DecodeUtf8Char(cstr));
             // Move past the current UTF-8 character
@@ -1033,7 +1034,7 @@ private:
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
         // Stop at the terminator: a truncated sequence is rejected by Char.
-        return CharType{BasicString(cstr, std::find(cstr, cstr + len, '\0'))};
+        return CharType{BasicString(cstr, std::find(cstr + 1, cstr + len, '\0'))};
     }
 
 private:
-- 
2.43.0


From fa45312407c9ca9f6ada94236abca6c9e2584a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:54 +0000
Subject: [PATCH 79/88] fix: unescaping leaves a unicode escape without four
 hexadecimal digits or of a surrogate alone

---
 include/Caitlyn/__Core/String/Utility.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index d65d027..ea1a88d 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -115,16 +115,21 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                const auto hex = str.Substring(i + 2, 4).str();
+                const bool isHex =
+                    hex.size() == 4 && hex.find_first_not_of("0123456789ABCDEFabcdef") == std::string::npos;
+                // Convert the hexadecimal representation to a character
+                const auto codePoint = static_cast<CodePoint>(isHex ? std::stoul(hex, nullptr, 16) : 0);
+
+                // A UTF-16 surrogate is no character
+                if (isHex && (codePoint < 0xD800 || codePoint > 0xDFFF))
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
-                    // Convert the hexadecimal representation to a character
-                    oss << Char{static_cast<CodePoint>(std::stoul(hex, nullptr, 16))};
+                    oss << Char{codePoint};
                     i += 5; // Skip the escaped sequence
                 }
                 else
                 {
-                    // Incomplete escape sequence, handle it as an error
+                    // Incomplete or invalid escape sequence, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
                     ++i;
                 }
-- 
2.43.0


From 169c45149bff21b020628106b387e2ae79032d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 80/88] fix: JSON floating-point numbers are written so that
 they are read back as they were

---
 .../__Serializing/Json/Types/JsonData.h       | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index a7167c7..169b5bf 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -21,6 +21,8 @@
 #include <algorithm>
 #include <cmath>
 #include <deque>
+#include <iomanip>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -459,7 +461,7 @@ private:
             case JsonClass::Floating:
                 if (std::isfinite(data_.floating_value))
                 {
-                    oss << data_.floating_value;
+                    WriteFloating(oss, data_.floating_value);
                 }
                 else
                 {
@@ -481,6 +483,29 @@ private:
         }
     }
 
+    static void WriteFloating(std::ostringstream& oss, const FloatingType value)
+    {
+        // As few digits as needed to read the same value back, and always recognisable as floating.
+        std::string text;
+        for (int precision = std::numeric_limits<FloatingType>::digits10;
+             precision <= std::numeric_limits<FloatingType>::max_digits10;
+             ++precision)
+        {
+            std::ostringstream number;
+            number << std::setprecision(precision) << value;
+            text = number.str();
+            if (static_cast<FloatingType>(std::stod(text)) == value)
+            {
+                break;
+            }
+        }
+        oss << text;
+        if (text.find_first_of(".e") == std::string::npos)
+        {
+            oss << ".0";
+        }
+    }
+
     static void WriteString(std::ostringstream& oss, const StringType& value)
     {
         static constexpr char Digits[] = "0123456789abcdef";
-- 
2.43.0


From e8b3bd7c5acf62d5585d5f00efbcf7226d5830e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 81/88] fix: a left brace inside a format field is an error

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 6ccae01..1a82c50 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -589,6 +589,10 @@ public:
                         throw Formatter::FormatError{"Mismatched braces in format string"};
                     }
                     const auto spec = formatter.Substring(pos + 1, end - pos - 1);
+                    if (spec.Find(Def::LeftCurlyBracket) != String::NPosition)
+                    {
+                        throw Formatter::FormatError{"Mismatched braces in format string"};
+                    }
                     SizeType arg_index = 0;
                     constexpr SizeType spec_begin = 0;
 
-- 
2.43.0


From cee34241d37c9491e91dffcc2e141feef6c460f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 82/88] fix: UniquePtr::Reset lets go of its object before
 deleting it

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index 3edee7b..ea3a3d3 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -123,8 +123,10 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            // The old object may own this pointer: let go of it before deleting it.
+            const Pointer old = data_;
             data_ = new_data;
+            delete old;
         }
     }
 
-- 
2.43.0


From 8f0907eacfb5af670ad4fd49ef42c1d115d7b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:52 +0000
Subject: [PATCH 83/88] fix: SharedPtr::Reset lets go of its object before
 releasing it

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 984ad43..7575f6b 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -148,7 +148,8 @@ public:
     {
         if (data_ != data)
         {
-            Release();
+            // The old object may own this pointer: let go of it before releasing it.
+            const SharedPtr old{std::move(*this)};
             data_ = data;
             ref_count_ = data ? new Counter(1) : nullptr;
         }
-- 
2.43.0


From 5743000be52309597eaf05543946a620c5dbfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:00 +0000
Subject: [PATCH 84/88] fix: operators of the library's types are found by
 argument-dependent lookup; MakeError moves its argument

---
 include/Caitlyn/__Core/Char/Char.h              | 4 ++--
 include/Caitlyn/__Core/Error/Unexpected.h       | 6 +++---
 include/Caitlyn/__Core/String/String.h          | 4 ++--
 include/Caitlyn/__Numeric/Types/BigFloat.h      | 4 ++--
 include/Caitlyn/__Numeric/Types/BigInteger.h    | 4 ++--
 include/Caitlyn/__Serializing/Json/Types/Json.h | 3 ++-
 6 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 15b2742..706b95f 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -302,14 +302,14 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline std::ostream& operator<<(std::ostream& os, const Caitlyn::Char& c)
 {
     os << c.str();
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::Char operator""_char(const char* str, const std::size_t)
 {
     return Caitlyn::Char{str};
diff --git a/include/Caitlyn/__Core/Error/Unexpected.h b/include/Caitlyn/__Core/Error/Unexpected.h
index 2ca1572..90683bc 100644
--- a/include/Caitlyn/__Core/Error/Unexpected.h
+++ b/include/Caitlyn/__Core/Error/Unexpected.h
@@ -42,7 +42,7 @@ private:
 template <typename E>
 Unexpected<E> MakeError(E error)
 {
-    return Unexpected<E>{error};
+    return Unexpected<E>{std::move(error)};
 }
 
 inline Unexpected<String> MakeError(const char* error)
@@ -55,8 +55,6 @@ inline Unexpected<String> MakeError(const String& error)
     return Unexpected<String>{error};
 }
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 template <typename E>
 bool operator==(const Caitlyn::Unexpected<E>& lhs, const Caitlyn::Unexpected<E>& rhs)
 {
@@ -69,4 +67,6 @@ bool operator!=(const Caitlyn::Unexpected<E>& lhs, const Caitlyn::Unexpected<E>&
     return !(lhs == rhs);
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #endif //CAITLYN_CORE_ERROR_UNEXPECTED_H_
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 1a82c50..e6c5961 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -1045,8 +1045,6 @@ private:
     DataType data_;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline std::istream& operator>>(std::istream& is, Caitlyn::String& str)
 {
     if (is.good())
@@ -1064,6 +1062,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::String& str)
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::String operator""_str(const char* str, const Caitlyn::SizeType)
 {
     return Caitlyn::String{str};
diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..b944479 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -358,8 +358,6 @@ private:
     SignFlag isNegative_ = false;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline bool operator<(const Caitlyn::BigFloat& lhs, const Caitlyn::BigFloat& rhs)
 {
     return lhs.LessThan(rhs);
@@ -416,6 +414,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigFloat& numbe
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::BigFloat operator""_bigfloat(const char* number, const size_t)
 {
     return Caitlyn::BigFloat{number};
diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 22498de..450ab07 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -403,8 +403,6 @@ private:
     SignFlag is_negative_ = false;
 };
 
-__CAITLYN_GLOBAL_NAMESPACE_END
-
 inline bool operator<(const Caitlyn::BigInteger& lhs, const Caitlyn::BigInteger& rhs)
 {
     return lhs.LessThan(rhs);
@@ -466,6 +464,8 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::BigInteger& num
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 inline Caitlyn::BigInteger operator""_bigint(const char* number, const size_t)
 {
     return Caitlyn::BigInteger{number};
diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index aa506f3..17818f9 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -219,7 +219,6 @@ inline JsonDocument MakeDocument(const std::ifstream& stream)
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-__CAITLYN_GLOBAL_NAMESPACE_END
 
 inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
 {
@@ -235,4 +234,6 @@ inline std::ostream& operator<<(std::ostream& os, const Caitlyn::JsonDocument& v
     return os;
 }
 
+__CAITLYN_GLOBAL_NAMESPACE_END
+
 #endif // CAITLYN_SERIALIZING_JSON_TYPES_DOCUMENT_H_
-- 
2.43.0


From 51dc697047987de5fd280562f637c039d10c4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:07 +0000
Subject: [PATCH 85/88] fix: assertion macros do not capture names of their
 operands

---
 include/Caitlyn/__Testing/Macro/Assert.h | 60 ++++++++++++------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 943284c..cb3c033 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -43,9 +43,9 @@
     do                                                                                                                 \
     if (!((val1) == (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";         \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -53,9 +53,9 @@
     do                                                                                                                 \
     if (!((val1) != (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";                   \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " != " #val2 << " (" << (val1) << " == " << (val2) << ")";         \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -63,9 +63,9 @@
     do                                                                                                                 \
     if (!((val1) < (val2)))                                                                                            \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";                    \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " < " #val2 << " (" << (val1) << " >= " << (val2) << ")";          \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -73,9 +73,9 @@
     do                                                                                                                 \
     if (!((val1) <= (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";                    \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " <= " #val2 << " (" << (val1) << " > " << (val2) << ")";          \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -83,9 +83,9 @@
     do                                                                                                                 \
     if (!((val1) > (val2)))                                                                                            \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";                    \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " > " #val2 << " (" << (val1) << " <= " << (val2) << ")";          \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -93,9 +93,9 @@
     do                                                                                                                 \
     if (!((val1) >= (val2)))                                                                                           \
     {                                                                                                                  \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";                    \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " >= " #val2 << " (" << (val1) << " < " << (val2) << ")";          \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
@@ -108,28 +108,30 @@
                 Caitlyn::HasOStreamOperatorType<decltype(val2)>::Value,                                                \
             "Types must be printable to use ASSERT_EQ_PRINTABLE");                                                     \
                                                                                                                        \
-        std::ostringstream oss;                                                                                        \
-        oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";                   \
-        throw std::runtime_error(oss.str());                                                                           \
+        std::ostringstream __caitlyn_oss;                                                                              \
+        __caitlyn_oss << "Assertion failed: " #val1 " == " #val2 << " (" << (val1) << " != " << (val2) << ")";         \
+        throw std::runtime_error(__caitlyn_oss.str());                                                                 \
     }                                                                                                                  \
     while (false)
 
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
     {                                                                                                                  \
-        const char* expected_str = (expected);                                                                         \
-        const char* actual_str = (actual);                                                                             \
+        const char* __caitlyn_expected = (expected);                                                                   \
+        const char* __caitlyn_actual = (actual);                                                                       \
                                                                                                                        \
-        if (expected_str == actual_str)                                                                                \
+        if (__caitlyn_expected == __caitlyn_actual)                                                                    \
         {                                                                                                              \
             break;                                                                                                     \
         }                                                                                                              \
-        if (expected_str == nullptr || actual_str == nullptr || std::strcmp(expected_str, actual_str) != 0)            \
+        if (__caitlyn_expected == nullptr || __caitlyn_actual == nullptr ||                                            \
+            std::strcmp(__caitlyn_expected, __caitlyn_actual) != 0)                                                    \
         {                                                                                                              \
-            std::ostringstream oss;                                                                                    \
-            oss << "Assertion failed: Expected \"" << (expected_str ? expected_str : "nullptr") << "\", but got \""    \
-                << (actual_str ? actual_str : "nullptr") << "\"";                                                      \
-            throw std::runtime_error(oss.str());                                                                       \
+            std::ostringstream __caitlyn_oss;                                                                          \
+            __caitlyn_oss << "Assertion failed: Expected \""                                                           \
+                << (__caitlyn_expected ? __caitlyn_expected : "nullptr") << "\", but got \""                           \
+                << (__caitlyn_actual ? __caitlyn_actual : "nullptr") << "\"";                                          \
+            throw std::runtime_error(__caitlyn_oss.str());                                                             \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From 27e2949818a49058bffd396dec80db40d04f86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:14 +0000
Subject: [PATCH 86/88] fix: configuration names the right processor on 64-bit
 ARM and the right system on Android

---
 include/Caitlyn/__Caitlyn/Config.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index 95f8815..0eb37a3 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -35,21 +35,24 @@
 #if defined(__i386__) || defined(_M_IX86) || defined(__32BIT__)
     #define __CAITLYN_ARCH_X86
     #define __CAITLYN_ARCH 32
+#elif defined(__aarch64__) || defined(_M_ARM64)
+    #define __CAITLYN_ARCH_ARM64
+    #define __CAITLYN_ARCH 64
 #elif defined(__LP64__) || defined(_LP64) || defined(__x86_64__) || defined(_M_X64)
     #define __CAITLYN_ARCH_X86_64
     #define __CAITLYN_ARCH 64
 #elif defined(__arm__) || defined(__ARM_ARCH_7__) || defined(__thumb__) || defined(_M_ARM)
     #define __CAITLYN_ARCH_ARM
     #define __CAITLYN_ARCH 32
-#elif defined(__aarch64__) || defined(_M_ARM64)
-    #define __CAITLYN_ARCH_ARM64
-    #define __CAITLYN_ARCH 64
 #else
     #error "Unsupported Architecture"
 #endif
 
 //Operating System
-#if defined(__linux__) || defined(__linux) || defined(__gnu_linux__)
+#if defined(__ANDROID__)
+    #define __CAITLYN_OS_ANDROID
+    #define __CAITLYN_OS_NAME "Android"
+#elif defined(__linux__) || defined(__linux) || defined(__gnu_linux__)
     #define __CAITLYN_OS_LINUX
     #define __CAITLYN_OS_NAME "Linux"
 #elif defined(__APPLE__) && defined(__MACH__)
@@ -58,14 +61,11 @@
 #elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32) || defined(_WIN64)
     #define __CAITLYN_OS_WINDOWS
     #define __CAITLYN_OS_NAME "Windows"
-#elif defined(__ANDROID__)
-    #define __CAITLYN_OS_ANDROID
-    #define __CAITLYN_OS_NAME "Android"
 #else
     #error "Unsupported Operating System"
 #endif
 
-#if defined(__CAITLYN_OS_LINUX) || defined(__CAITLYN_OS_APPLE)
+#if defined(__CAITLYN_OS_LINUX) || defined(__CAITLYN_OS_APPLE) || defined(__CAITLYN_OS_ANDROID)
     #define __CAITLYN_OS_UNIX
 #endif
 
@@ -106,7 +106,7 @@
 #elif defined(__CAITLYN_COMPILER_MSVC)
     #define __CAITLYN_COMPILER_VERSION "MSVC " __CAITLYN_TOSTRING(_MSC_VER)
 #elif defined(__CAITLYN_COMPILER_INTEL)
-    #define CAITLYN_COMPILER_VERSION "Intel " __CAITLYN_TOSTRING(__INTEL_COMPILER)
+    #define __CAITLYN_COMPILER_VERSION "Intel " __CAITLYN_TOSTRING(__INTEL_COMPILER)
 #endif
 
 //Standard
-- 
2.43.0


From 7a2dd10c3596ba930f97e05f47793e242807c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:18 +0000
Subject: [PATCH 87/88] fix: the utility header tests the configuration macros
 that exist

---
 include/Caitlyn/__Core/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility.h b/include/Caitlyn/__Core/Utility.h
index 078a233..195e758 100644
--- a/include/Caitlyn/__Core/Utility.h
+++ b/include/Caitlyn/__Core/Utility.h
@@ -36,13 +36,13 @@
 #include "Caitlyn/__Core/Utility/Comparators.h"
 #include "Caitlyn/__Core/Utility/Random.h"
 
-#if __caitlyn_has_cxx17
+#if __CAITLYN_HAS_CXX17
     #include <any>
     #include <optional>
     #include <variant>
 #endif
 
-#if __caitlyn_has_cxx20
+#if __CAITLYN_HAS_CXX20
     #include <source_location>
     #include <version>
 #endif
-- 
2.43.0


From 8746b08dab3a3ee2e8cfcb56b49108de4d041909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:20 +0000
Subject: [PATCH 88/88] fix: C++23 headers are included only where the standard
 library has them

---
 include/Caitlyn/__Core/Algorithms.h | 4 +++-
 include/Caitlyn/__Core/IO.h         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Algorithms.h b/include/Caitlyn/__Core/Algorithms.h
index 54eac30..a583ea6 100644
--- a/include/Caitlyn/__Core/Algorithms.h
+++ b/include/Caitlyn/__Core/Algorithms.h
@@ -31,7 +31,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <generator>
+    #if __has_include(<generator>)
+        #include <generator>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_ALGORITHMS_H_
diff --git a/include/Caitlyn/__Core/IO.h b/include/Caitlyn/__Core/IO.h
index 001f298..1c8ee64 100644
--- a/include/Caitlyn/__Core/IO.h
+++ b/include/Caitlyn/__Core/IO.h
@@ -32,7 +32,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <print>
+    #if __has_include(<print>)
+        #include <print>
+    #endif
     #include <spanstream>
 #endif
 
-- 
2.43.0

