From 01411284316adde5bfc7992879bb4119ffea0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 01/25] fix: do not dereference missing error list on
 duplicates in sets

Pulling an array with duplicates into a set without passing a
JsonDeserializationErrors object dereferenced a null pointer.
---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..3d92132 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -729,7 +729,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From 5954176135676c4305f49313ae8c73df337c19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/25] fix: restore index of outer array after pulling a
 nested array

The error context's index was cleared after an array has been pulled. So
errors occurring afterwards within the same element of an outer array were
reported without index.
---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3d92132..79d5937 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -665,6 +665,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -676,9 +677,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -692,6 +693,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -704,9 +706,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -720,6 +722,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -734,9 +737,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From 115c8a9453968f8cf709418306498a053335df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 03/25] fix: preserve null characters within strings when
 deserializing JSON

Strings and map keys containing null characters have been truncated on the
first null character because the length was not taken into account.
---
 lib/json/reflector.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 79d5937..e619afb 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -604,7 +604,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -757,7 +757,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -775,14 +775,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
+        const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1145,7 +1146,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return std::string(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From eb89539211141c197d8528125e163fe01d5de31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/25] fix: copy keys of maps when populating the intermediate
 JSON document

The document merely referenced the keys of maps and multimaps so it must not
have been used after the map has been modified or destroyed. That contradicts
the README which states that all strings are copied. Additionally, keys
containing null characters were truncated.
---
 lib/json/reflector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index e619afb..32a4a3c 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -247,7 +247,9 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        RAPIDJSON_NAMESPACE::Value key(item.first.data(), rapidJsonSize(item.first.size()), allocator), itemValue;
+        push(item.second, itemValue, allocator);
+        object.AddMember(key, itemValue, allocator);
     }
 }
 
@@ -267,7 +269,8 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(memberName, newArrayValue, allocator);
+            RAPIDJSON_NAMESPACE::Value key(memberName, allocator);
+            value.AddMember(key, newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From dff90aae9c1b0504c541902f7cc797a14ebf7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 05/25] fix: clear previous contents of maps and sets when
 deserializing

Previous contents of maps (JSON) and of maps and sets (binary) were kept so
the result did not equal the serialized object if e.g. a default constructed
object contains a non-empty map.
---
 lib/binary/reflector.h | 2 ++
 lib/json/reflector.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..27d762b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -184,6 +184,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +198,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 32a4a3c..384eedf 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -759,6 +759,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         return;
     }
     auto obj = value.GetObject();
+    reflectable.clear();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
@@ -777,6 +778,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         return;
     }
     auto obj = value.GetObject();
+    reflectable.clear();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-- 
2.43.0


From 2b3f9d8e503b831f5c2bf49afe096ac5901633c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/25] fix: report out-of-range numbers when pulling integers

Converting a double to an integer type which can not represent the value is
undefined behavior and 8-bit integers were silently truncated. Report a
conversion error and leave the value as-is instead.
---
 lib/json/reflector.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 384eedf..302208e 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -543,7 +544,23 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+        return;
+    }
+    const auto number = value.GetDouble();
+    if constexpr (std::is_integral<Type>::value) {
+        // avoid undefined behavior when the (truncated) number can not be represented
+        const auto truncated = std::trunc(number);
+        if (!(truncated >= static_cast<double>(std::numeric_limits<Type>::min())
+                && truncated < std::ldexp(1.0, std::numeric_limits<Type>::digits))) {
+            if (errors) {
+                errors->reportConversionError(JsonType::Number);
+            }
+            return;
+        }
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -553,11 +570,18 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
+    int i = reflectable;
     pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (!value.IsNumber()) {
+        return;
+    }
+    if (i < std::numeric_limits<Type>::min() || i > std::numeric_limits<Type>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
     }
+    reflectable = static_cast<Type>(i);
 }
 
 /*!
-- 
2.43.0


From a168ac05e1ed2ebeff1e4648650959d553ada7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 07/25] fix: allow deserializing floats from integral JSON
 numbers on top-level

A top-level document such as "42" was rejected when deserializing a float or
double (with a mismatch between number and number) although the same number
is accepted for members and elements.
---
 lib/json/reflector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 302208e..b5008ce 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1151,14 +1151,18 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
+    const auto matches = std::is_floating_point<Type>::value ? doc.IsNumber() : doc.Is<Type>();
+    if (!matches) {
         if (errors) {
             errors->reportTypeMismatch<Type>(doc.GetType());
         }
         return Type();
     }
-
-    return doc.Get<Type>();
+    if constexpr (std::is_floating_point<Type>::value) {
+        return static_cast<Type>(doc.GetDouble());
+    } else {
+        return doc.Get<Type>();
+    }
 }
 
 /*!
-- 
2.43.0


From 82f7b1fecee240a8e67ee8d4c4db51cbcfdb7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 08/25] fix: report correct expected type for tuples, pairs and
 multimaps

Tuples and pairs are represented as JSON arrays and multimaps as well as
types treated as map are represented as JSON objects but type mismatches
stated it was the other way around.
---
 lib/json/errorhandling.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..f71b04f 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,6 +6,8 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
+#include "../traits.h"
+
 #include <c++utilities/misc/traits.h>
 
 #include <rapidjson/rapidjson.h>
@@ -14,6 +16,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -63,9 +67,7 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
 }
 
 template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
+    Traits::EnableIfAny<IsArrayOrSet<Type>, Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Array;
@@ -73,9 +75,7 @@ constexpr JsonType jsonType()
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        IsArrayOrSet<Type>, Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 2ff804e018dcae66f2766b7dea4a3b6c3e4d0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 09/25] fix: consider errors about invalid variants when
 throwing is enabled

Invalid variant objects and indexes never caused an exception, not even if
ThrowOn::All was specified.
---
 lib/json/errorhandling.h | 24 ++++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index f71b04f..e89e685 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,26 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports an invalid variant object. The context of the error is determined automatically.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(
+        JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports an invalid variant index. The context of the error is determined automatically.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(
+        JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index b5008ce..ba81d4b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -946,8 +946,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -972,16 +971,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From c9bb5edc09f453e4a205a07b1d2f624fba4336fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 10/25] fix: skip conversion of date/time values on type
 mismatch

When the type did not match, an additional conversion error was reported for
DateTime and the previous value was overwritten in case of TimeSpan.
---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..6347623 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -43,6 +43,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
@@ -58,6 +61,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
-- 
2.43.0


From 7791c8fa935ff97cb2050b768a36f40066e104e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 11/25] fix: make fromBinary() usable for versioned types

The function casted to BinarySerializable<Type> (without version) which is
not a base class in case a version has been specified so it did not compile.
---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From c74bfa9fb93f5406f56142ce71648c7102066ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 12/25] fix: prevent re-use of IDs while serializing shared
 pointers

If an object was freed after it has been serialized and a new object was
allocated at the same address, the same serializer wrote only a reference to
the previous object. So deserializing the data lead to wrong results.
---
 lib/binary/reflector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 27d762b..4f7f2d7 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -115,7 +115,7 @@ public:
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> void write(const Type &customType, BinaryVersion version = 0);
 
 private:
-    std::unordered_map<std::uint64_t, bool> m_pointer;
+    std::unordered_map<std::uint64_t, std::any> m_pointer; // holds the pointers itself to prevent re-use of IDs while the serializer is used
 };
 
 inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
@@ -279,7 +279,8 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std:
     }
     const auto id = reinterpret_cast<std::uintptr_t>(pointer.get());
     const auto bigId = id >= 0x80000000000000;
-    auto &alreadyWritten = m_pointer[id];
+    auto &writtenPointer = m_pointer[id];
+    const auto alreadyWritten = writtenPointer.has_value();
     std::uint8_t mode = alreadyWritten ? 2 : 1;
     if (bigId) {
         mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
@@ -291,7 +292,7 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std:
         writeVariableLengthUIntBE(id);
     }
     if (!alreadyWritten) {
-        alreadyWritten = true;
+        writtenPointer = pointer;
         write(*pointer);
     }
 }
-- 
2.43.0


From 64e9d019bd72fe8266969119588502e262a49490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 13/25] fix: propagate version down to objects within
 containers and pointers

The version was only passed to directly nested objects but not to objects
within containers, pairs, pointers, optionals and variants. So versioned
members of those objects were always considered to be of version 0.
---
 lib/binary/reflector.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 4f7f2d7..20aa18b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -94,6 +94,7 @@ public:
 
 private:
     std::unordered_map<std::uint64_t, std::any> m_pointer;
+    BinaryVersion m_version = 0; // version of the outer scope when reading elements of containers, pointers, ...
 };
 
 /// \brief The BinarySerializer class can write various data types, including custom ones, to an std::ostream.
@@ -116,6 +117,7 @@ public:
 
 private:
     std::unordered_map<std::uint64_t, std::any> m_pointer; // holds the pointers itself to prevent re-use of IDs while the serializer is used
+    BinaryVersion m_version = 0; // version of the outer scope when writing elements of containers, pointers, ...
 };
 
 inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
@@ -242,13 +244,16 @@ template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeseria
 
 template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
 {
+    const auto previousVersion = m_version;
+    m_version = version;
     read(builtInType);
+    m_version = previousVersion;
     return version;
 }
 
 template <typename Type, Traits::EnableIf<IsCustomType<Type>> *> BinaryVersion BinaryDeserializer::read(Type &customType, BinaryVersion version)
 {
-    return readCustomType(*this, customType, version);
+    return readCustomType(*this, customType, version ? version : m_version);
 }
 
 inline BinarySerializer::BinarySerializer(std::ostream *stream)
@@ -328,13 +333,15 @@ template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySeriali
 
 template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
 {
-    CPP_UTILITIES_UNUSED(version)
+    const auto previousVersion = m_version;
+    m_version = version;
     write(builtInType);
+    m_version = previousVersion;
 }
 
 template <typename Type, Traits::EnableIf<IsCustomType<Type>> *> void BinarySerializer::write(const Type &customType, BinaryVersion version)
 {
-    writeCustomType(*this, customType, version);
+    writeCustomType(*this, customType, version ? version : m_version);
 }
 
 } // namespace BinaryReflector
-- 
2.43.0


From f2df2256fb4ff5f3da5769ca65750dd56bc24b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 14/25] fix: do not write versions exceeding the highest
 supported version

A nested object was written using the version of the outer object, even if
that exceeds the highest version supported by the nested type. Data written
that way could not be read anymore as the nested type rejected the version.
---
 lib/versioning.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/versioning.h b/lib/versioning.h
index 42968a9..2864255 100644
--- a/lib/versioning.h
+++ b/lib/versioning.h
@@ -41,7 +41,7 @@ template <typename Type> struct Versioning<Type, true> {
     static constexpr auto maxSupported = Type::version;
     static constexpr auto &applyDefault(std::remove_const_t<decltype(serializationDefault)> &version)
     {
-        if (!version) {
+        if (!version || version > maxSupported) {
             version = serializationDefault;
         }
         return version;
-- 
2.43.0


From cbab679bff923d69c98500c6c19a25450f478fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 15/25] fix: (de)serialize members of indirect base classes
 only once

When all classes of a multi-level hierarchy are serializable, the members of
indirect base classes were pushed once for each level leading to duplicate
names within the JSON object.
---
 generator/serializationcodegenerator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..9501549 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -8,6 +8,7 @@
 #include <clang/AST/PrettyPrinter.h>
 #include <clang/AST/QualTypeNames.h>
 
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -130,6 +131,17 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
             relevantBaseClasses.push_back(&otherClass);
         }
     }
+    // skip indirect base classes which are already covered by another relevant base class
+    const auto allRelevantBaseClasses = relevantBaseClasses;
+    relevantBaseClasses.erase(remove_if(relevantBaseClasses.begin(), relevantBaseClasses.end(),
+                                  [&allRelevantBaseClasses](const RelevantClass *baseClass) {
+                                      return any_of(allRelevantBaseClasses.begin(), allRelevantBaseClasses.end(),
+                                          [baseClass](const RelevantClass *otherBaseClass) {
+                                              return otherBaseClass->record != baseClass->record
+                                                  && otherBaseClass->record->isDerivedFrom(baseClass->record);
+                                          });
+                                  }),
+        relevantBaseClasses.end());
     return relevantBaseClasses;
 }
 
-- 
2.43.0


From 322e5e979b8eac2ece3434c0b4d443dbe2b60af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 16/25] fix: parse floating point numbers with full precision

RapidJSON's default parsing is off by up to 3 ULP so serializing and
deserializing did not restore the original number for many doubles.
---
 lib/json/reflector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index ba81d4b..6a6c9ac 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -74,7 +74,8 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
+    constexpr auto parseFlags = RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag;
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<parseFlags>(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From 4921093b8d03d912e495a93e37829aa761ec8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 17/25] fix: initialize elements of sets before pulling them

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 6a6c9ac..14110d8 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -729,7 +729,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -758,7 +758,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
-- 
2.43.0


From ec68456dfc585d483ae0aada66d0dec24a098a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 18/25] fix: keep null characters within keys of multimaps when
 serializing

---
 lib/json/reflector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 14110d8..a8df0d3 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -263,7 +263,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 {
     value.SetObject();
     for (const auto &item : reflectable) {
-        const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
+        RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator);
         const auto existingMember = value.FindMember(memberName);
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
@@ -271,8 +271,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            RAPIDJSON_NAMESPACE::Value key(memberName, allocator);
-            value.AddMember(key, newArrayValue, allocator);
+            value.AddMember(memberName, newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From ba880f60d71ce8c08e1af6294dc21276eb005e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 19/25] fix: report failure when generated code cannot be
 written

---
 generator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..d6a5a5d 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -58,8 +58,8 @@ int main(int argc, char *argv[])
 
     // setup output stream
     ostream *os = nullptr;
+    ofstream outputFile;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
@@ -127,6 +127,11 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // ensure the generated code has actually been written
+        if (!os->flush()) {
+            throw std::ios_base::failure("unable to write generated code");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From 4a21cab2a359542e20dd1ce42d04f02618578274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 20/25] fix: report numbers which do not fit into an
 enumeration's underlying type

---
 lib/json/reflector.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index a8df0d3..db5ac25 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -615,7 +615,15 @@ inline void pull(
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    const auto number = value.Get<ExpectedType>();
+    if (number < std::numeric_limits<typename std::underlying_type<Type>::type>::min()
+        || number > std::numeric_limits<typename std::underlying_type<Type>::type>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From a53230c363ba99826e652695b454189d7407f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 21/25] fix: keep null characters and the size of strings
 passed to toJsonDocument()

---
 lib/json/reflector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index db5ac25..2d2679b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1080,7 +1080,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1091,7 +1091,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * =
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
@@ -1102,7 +1102,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    push(reflectable, document, document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From 33201bbdb9525dbfb8bbbf82d9bc7bda7874b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:45 +0000
Subject: [PATCH 22/25] fix: do not use RapidJSON's full precision parsing

RapidJSON 1.1.0 yields garbage for numbers like "0e-32" and reads out of
bounds for numbers with many zeros after the decimal point when using
kParseFullPrecisionFlag (see 322e5e9). So revert to normal precision which is
off by at most 3 ULP for numbers with many digits or a big exponent.
---
 lib/json/reflector.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 2d2679b..38ded64 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -74,8 +74,7 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    constexpr auto parseFlags = RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag;
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<parseFlags>(json, jsonSize);
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From 206d83fb73fc57a67ac802ed2cf768d51d8e0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:03 +0000
Subject: [PATCH 23/25] fix: restore version of outer scope if
 (de)serialization throws

---
 lib/binary/reflector.h | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 20aa18b..3ea8cff 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -69,6 +69,31 @@ BinaryVersion readCustomType(BinaryDeserializer &deserializer, Type &customType,
 template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr>
 void writeCustomType(BinarySerializer &serializer, const Type &customType, BinaryVersion version = 0);
 
+/// \cond
+namespace Detail {
+/// \brief Sets the version of the outer scope; restores the previous one also if an exception is thrown.
+class VersionScope {
+public:
+    explicit VersionScope(BinaryVersion &version, BinaryVersion newVersion)
+        : m_version(version)
+        , m_previousVersion(version)
+    {
+        m_version = newVersion;
+    }
+    VersionScope(const VersionScope &) = delete;
+    VersionScope &operator=(const VersionScope &) = delete;
+    ~VersionScope()
+    {
+        m_version = m_previousVersion;
+    }
+
+private:
+    BinaryVersion &m_version;
+    BinaryVersion m_previousVersion;
+};
+} // namespace Detail
+/// \endcond
+
 /// \brief The BinaryDeserializer class can read various data types, including custom ones, from an std::istream.
 class BinaryDeserializer : public CppUtilities::BinaryReader {
     friend class ::BinaryReflectorTests;
@@ -244,10 +269,8 @@ template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeseria
 
 template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
 {
-    const auto previousVersion = m_version;
-    m_version = version;
+    const auto scope = Detail::VersionScope(m_version, version);
     read(builtInType);
-    m_version = previousVersion;
     return version;
 }
 
@@ -333,10 +356,8 @@ template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySeriali
 
 template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
 {
-    const auto previousVersion = m_version;
-    m_version = version;
+    const auto scope = Detail::VersionScope(m_version, version);
     write(builtInType);
-    m_version = previousVersion;
 }
 
 template <typename Type, Traits::EnableIf<IsCustomType<Type>> *> void BinarySerializer::write(const Type &customType, BinaryVersion version)
-- 
2.43.0


From 94868ed37f662f472938f3541fe8e99ea159c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:52 +0000
Subject: [PATCH 24/25] fix: restore error context if deserialization throws

---
 lib/json/errorhandling.h | 41 ++++++++++++++++++++++++++++++++++++++++
 lib/json/reflector.h     | 31 ++++++------------------------
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index e89e685..9240b46 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -195,6 +195,47 @@ inline JsonDeserializationErrors::JsonDeserializationErrors()
 {
 }
 
+/*!
+ * \brief The JsonDeserializationErrorContext class restores the current error context when leaving a member, an array or an object.
+ * \remarks The context is restored regardless whether this happens due to an exception.
+ */
+class JsonDeserializationErrorContext {
+public:
+    explicit JsonDeserializationErrorContext(JsonDeserializationErrors *errors);
+    JsonDeserializationErrorContext(const JsonDeserializationErrorContext &) = delete;
+    JsonDeserializationErrorContext &operator=(const JsonDeserializationErrorContext &) = delete;
+    ~JsonDeserializationErrorContext();
+
+private:
+    JsonDeserializationErrors *const m_errors;
+    const char *const m_record;
+    const char *const m_member;
+    const std::size_t m_index;
+};
+
+/*!
+ * \brief Remembers the current context of the specified \a errors (which might be nullptr).
+ */
+inline JsonDeserializationErrorContext::JsonDeserializationErrorContext(JsonDeserializationErrors *errors)
+    : m_errors(errors)
+    , m_record(errors ? errors->currentRecord : nullptr)
+    , m_member(errors ? errors->currentMember : nullptr)
+    , m_index(errors ? errors->currentIndex : JsonDeserializationError::noIndex)
+{
+}
+
+/*!
+ * \brief Restores the context remembered on construction.
+ */
+inline JsonDeserializationErrorContext::~JsonDeserializationErrorContext()
+{
+    if (m_errors) {
+        m_errors->currentRecord = m_record;
+        m_errors->currentMember = m_member;
+        m_errors->currentIndex = m_index;
+    }
+}
+
 /*!
  * \brief Combines to ThrowOn values.
  */
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 38ded64..4732899 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -699,7 +699,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
-    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -710,11 +710,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace_back();
         pull(reflectable.back(), item, errors);
     }
-
-    // restore previous error context
-    if (errors) {
-        errors->currentIndex = previousIndex;
-    }
 }
 
 /*!
@@ -727,7 +722,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
-    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -739,11 +734,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
-
-    // restore previous error context
-    if (errors) {
-        errors->currentIndex = previousIndex;
-    }
 }
 
 /*!
@@ -756,7 +746,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
-    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -770,11 +760,6 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-
-    // restore previous error context
-    if (errors) {
-        errors->currentIndex = previousIndex;
-    }
 }
 
 /*!
@@ -1018,19 +1003,13 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
     }
 
     // set error context for current member
-    const char *previousMember = nullptr;
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     if (errors) {
-        previousMember = errors->currentMember;
         errors->currentMember = name;
     }
 
     // actually pull value for member
     pull<Type>(reflectable, member->value, errors);
-
-    // restore previous error context
-    if (errors) {
-        errors->currentMember = previousMember;
-    }
 }
 
 /*!
@@ -1045,6 +1024,7 @@ void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_N
         }
         return;
     }
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     pull(reflectable, value.GetObject(), errors);
 }
 
@@ -1143,6 +1123,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
+    const auto previousContext = JsonDeserializationErrorContext(errors);
     Type res;
     pull<Type>(res, doc.GetObject(), errors);
     return res;
-- 
2.43.0


From 45f917ebf450ccd3b5048b5e50b9b6abf59b5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:16 +0000
Subject: [PATCH 25/25] fix: reject date and time texts containing null
 characters

---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 6347623..27310c7 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -47,6 +47,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
         return;
     }
     try {
+        if (str.find('\0') != std::string::npos) {
+            throw CppUtilities::ConversionException("unexpected null character");
+        }
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
@@ -65,6 +68,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
         return;
     }
     try {
+        if (str.find('\0') != std::string::npos) {
+            throw CppUtilities::ConversionException("unexpected null character");
+        }
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
-- 
2.43.0

