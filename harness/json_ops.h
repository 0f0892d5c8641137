// Executes JSON cases for one C++ type and prints what was observed.
#ifndef VERIF_JSON_OPS_H
#define VERIF_JSON_OPS_H

#include "structs.h"
#include <reflective_rapidjson/json/errorformatting.h>
#include <functional>
#include <iostream>
#include <thread>

namespace vf {
using namespace ReflectiveRapidJSON;

using CaseFn = std::function<void(const JV &, Out &)>;
std::map<std::string, CaseFn> &registry();

inline const char *kindName(JsonDeserializationErrorKind k)
{
    switch (k) {
    case JsonDeserializationErrorKind::TypeMismatch: return "TypeMismatch";
    case JsonDeserializationErrorKind::ArraySizeMismatch: return "ArraySizeMismatch";
    case JsonDeserializationErrorKind::ConversionError: return "ConversionError";
    case JsonDeserializationErrorKind::UnexpectedDuplicate: return "UnexpectedDuplicate";
    case JsonDeserializationErrorKind::InvalidVariantObject: return "InvalidVariantObject";
    case JsonDeserializationErrorKind::InvalidVariantIndex: return "InvalidVariantIndex";
    }
    return "?";
}
inline const char *typeName(JsonType t)
{
    switch (t) {
    case JsonType::Null: return "Null";
    case JsonType::Number: return "Number";
    case JsonType::Bool: return "Bool";
    case JsonType::String: return "String";
    case JsonType::Array: return "Array";
    case JsonType::Object: return "Object";
    }
    return "?";
}
inline long long idx(std::size_t i)
{
    return i == JsonDeserializationError::noIndex ? -1 : static_cast<long long>(i);
}
inline void outError(const JsonDeserializationError &e, Out &o)
{
    o.raw("{\"k\":\"");
    o.raw(kindName(e.kind));
    o.raw("\",\"e\":\"");
    o.raw(typeName(e.expectedType));
    o.raw("\",\"a\":\"");
    o.raw(typeName(e.actualType));
    o.raw("\",\"r\":");
    o.str(e.record ? e.record : "");
    o.raw(",\"m\":");
    o.str(e.member ? e.member : "");
    o.raw(",\"i\":");
    o.num(idx(e.index));
    o.raw(",\"fmt\":");
    o.str(formatJsonDeserializationError(e));
    o.raw("}");
}
inline void outErrors(const JsonDeserializationErrors &errors, Out &o)
{
    o.raw(",\"errs\":[");
    bool first = true;
    for (const auto &e : errors) {
        if (!first) {
            o.raw(",");
        }
        first = false;
        outError(e, o);
    }
    o.raw("],\"ctx\":{\"r\":");
    o.str(errors.currentRecord ? errors.currentRecord : "");
    o.raw(",\"m\":");
    o.str(errors.currentMember ? errors.currentMember : "");
    o.raw(",\"i\":");
    o.num(idx(errors.currentIndex));
    o.raw("}");
}
inline void outProbes(Out &o)
{
    o.raw(",\"probes\":[");
    bool first = true;
    for (const auto &e : probeLog()) {
        if (!first) {
            o.raw(",");
        }
        first = false;
        o.raw("{\"r\":");
        o.str(e.record);
        o.raw(",\"m\":");
        o.str(e.member);
        o.raw(",\"i\":");
        o.num(e.index);
        o.raw(",\"ne\":");
        o.num(e.errs);
        o.raw(",\"v\":");
        o.num(e.v);
        o.raw("}");
    }
    o.raw("]");
}

template <typename T> constexpr bool isTopInt()
{
    return std::is_same_v<T, std::int32_t> || std::is_same_v<T, std::uint32_t> || std::is_same_v<T, std::int64_t> || std::is_same_v<T, std::uint64_t>
        || std::is_same_v<T, bool> || std::is_floating_point_v<T>;
}
template <typename T> constexpr bool isMapLike()
{
    return IsMapOrHash<T>::value || IsMultiMapOrHash<T>::value;
}
template <typename T> constexpr bool isStringLike()
{
    return std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view> || std::is_same_v<T, const char *>;
}
template <typename T> constexpr bool canToJson()
{
    if constexpr (HasFields<T>::value || isTopInt<T>()) {
        return true;
    } else {
        return isMapLike<T>() || IsArray<T>::value;
    }
}
template <typename T> constexpr bool canFromJson()
{
    if constexpr (HasFields<T>::value || isTopInt<T>() || std::is_same_v<T, std::string>) {
        return true;
    } else {
        return isMapLike<T>() || (IsArray<T>::value && !std::is_same_v<T, std::string_view>);
    }
}
template <typename T> struct HasMemberApi : std::integral_constant<bool, std::is_base_of_v<JsonSerializable<T>, T>> {};

template <typename T> struct JsonOps {
    static std::string serialize(const T &t, const std::string &api)
    {
        if (api == "member") {
            if constexpr (HasFields<T>::value) {
                if constexpr (HasMemberApi<T>::value) {
                    const auto b = static_cast<const JsonSerializable<T> &>(t).toJson();
                    return std::string(b.GetString(), b.GetSize());
                }
            }
        }
        if (api == "doc") {
            if constexpr (HasMemberApi<T>::value) {
                auto memberDoc = static_cast<const JsonSerializable<T> &>(t).toJsonDocument();
                const auto b = JsonReflector::serializeJsonDocToString(memberDoc);
                return std::string(b.GetString(), b.GetSize());
            }
        }
        if (api == "arr" || api == "obj") {
            // as one of several elements/members
            rapidjson::Document d;
            rapidjson::Value v;
            const rapidjson::Value *res = nullptr;
            if (api == "arr") {
                v.SetArray();
                auto array = v.GetArray();
                array.PushBack(rapidjson::Value(1), d.GetAllocator());
                JsonReflector::push(t, array, d.GetAllocator());
                array.PushBack(rapidjson::Value(2), d.GetAllocator());
                res = v.Size() == 3 && v[0] == 1 && v[2] == 2 ? &v[1] : nullptr;
            } else {
                v.SetObject();
                auto object = v.GetObject();
                object.AddMember("a", 1, d.GetAllocator());
                JsonReflector::push(t, "the name", object, d.GetAllocator());
                object.AddMember("b", 2, d.GetAllocator());
                res = v.MemberCount() == 3 && v.HasMember("the name") && v["a"] == 1 && v["b"] == 2 ? &v["the name"] : nullptr;
            }
            if (!res) {
                return "other elements or members are affected";
            }
            rapidjson::StringBuffer buffer;
            rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
            res->Accept(writer);
            return std::string(buffer.GetString(), buffer.GetSize());
        }
        if (api != "push") {
            if constexpr (canToJson<T>()) {
                const auto b = JsonReflector::toJson(t);
                return std::string(b.GetString(), b.GetSize());
            } else if constexpr (isStringLike<T>()) {
                auto stringDoc = JsonReflector::toJsonDocument<T>(t);
                const auto b = JsonReflector::serializeJsonDocToString(stringDoc);
                return std::string(b.GetString(), b.GetSize());
            }
        }
        rapidjson::Document d;
        rapidjson::Value v;
        JsonReflector::push(t, v, d.GetAllocator());
        rapidjson::StringBuffer buffer;
        rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
        v.Accept(writer);
        return std::string(buffer.GetString(), buffer.GetSize());
    }

    // deserializes text to target
    static void deserialize(std::unique_ptr<T> &target, const std::string &text, const std::string &api, JsonDeserializationErrors *errors, std::string &exc)
    {
        if constexpr (isWriteOnly<T>()) {
            exc = "unsupported";
        } else try {
            if (api == "fromJson" || !api.compare(0, 6, "member")) {
                if constexpr (canFromJson<T>()) {
                    if constexpr (HasFields<T>::value) {
                        if constexpr (HasMemberApi<T>::value) {
                            if (api == "memberc" && text.find('\0') == std::string::npos) {
                                target.reset(new T(JsonSerializable<T>::fromJson(text.c_str(), errors)));
                                return;
                            }
                            if (api == "membersz") {
                                // not followed by a terminator
                                const auto copy = std::vector<char>(text.begin(), text.end());
                                target.reset(new T(JsonSerializable<T>::fromJson(copy.data(), copy.size(), errors)));
                                return;
                            }
                            if (!api.compare(0, 6, "member")) {
                                target.reset(new T(JsonSerializable<T>::fromJson(text, errors)));
                                return;
                            }
                        }
                    }
                    target.reset(new T(JsonReflector::fromJson<T>(text.data(), text.size(), errors)));
                    return;
                }
            }
            auto doc = JsonReflector::parseJsonDocFromString(text.data(), text.size());
            if (api == "iter") {
                // via an iterator which is expected to be advanced
                auto array = rapidjson::Value(rapidjson::kArrayType);
                array.PushBack(rapidjson::Value(doc, doc.GetAllocator()), doc.GetAllocator());
                array.PushBack(rapidjson::Value(rapidjson::kFalseType), doc.GetAllocator());
                auto i = array.Begin();
                JsonReflector::pull(*target, i, errors);
                if (i != array.Begin() + 1) {
                    exc = "iterator not advanced";
                }
                return;
            }
            JsonReflector::pull(*target, static_cast<const rapidjson::Value &>(doc), errors);
        } catch (const JsonDeserializationError &e) {
            exc = "error";
        } catch (const rapidjson::ParseResult &) {
            exc = "parse";
        } catch (const std::exception &e) {
            exc = std::string("std:") + e.what();
        } catch (...) {
            exc = "other";
        }
    }

    static void run(const JV &c, Out &o)
    {
        const std::string op = c["op"].GetString();
        const std::string api = c.HasMember("api") ? c["api"].GetString() : "push";
        probeLog().clear();
        graph() = Graph();
        if (op == "default") {
            o.raw(",\"res\":");
            toModel(*std::make_unique<T>(), o);
        } else if (op == "ser" || op == "rt") {
            auto src = std::make_unique<T>();
            fromModel(c["val"], *src);
            o.raw(",\"val2\":"); // what the harness actually built (unordered containers, const members, ...)
            toModel(*src, o);
            const auto text = serialize(*src, api);
            o.raw(",\"text\":");
            o.bytes(text.data(), text.size());
            if (op == "rt") {
                auto target = std::make_unique<T>();
                if (c.HasMember("cur")) {
                    fromModel(c["cur"], *target);
                }
                JsonDeserializationErrors errors;
                std::string exc = "none";
                deserialize(target, text, c.HasMember("api2") ? c["api2"].GetString() : "push", &errors, exc);
                o.raw(",\"res\":");
                toModel(*target, o);
                o.raw(",\"exc\":");
                o.str(exc);
                outErrors(errors, o);
            }
        } else if (op == "de") {
            auto target = std::make_unique<T>();
            if (c.HasMember("cur")) {
                fromModel(c["cur"], *target);
            }
            o.raw(",\"cur2\":");
            toModel(*target, o);
            JsonDeserializationErrors errors;
            errors.throwOn = static_cast<JsonDeserializationErrors::ThrowOn>(c["thr"].GetUint());
            const bool withErrors = c["we"].GetBool();
            const auto text = bytesOf(c["text"]);
            std::string exc = "none";
            deserialize(target, text, api, withErrors ? &errors : nullptr, exc);
            o.raw(",\"res\":");
            toModel(*target, o);
            o.raw(",\"exc\":");
            o.str(exc);
            outErrors(errors, o);
            outProbes(o);
        } else if (op == "des") {
            // several documents are read one after another, into the same object and with the same list of errors
            auto target = std::make_unique<T>();
            if (c.HasMember("cur")) {
                fromModel(c["cur"], *target);
            }
            JsonDeserializationErrors errors;
            errors.throwOn = static_cast<JsonDeserializationErrors::ThrowOn>(c["thr"].GetUint());
            if (c["ctx0"].GetBool()) {
                errors.currentRecord = "Own::Record";
                errors.currentMember = "own";
                errors.currentIndex = 7;
            }
            o.raw(",\"steps\":[");
            bool first = true;
            for (const auto &step : c["steps"].GetArray()) {
                o.raw(first ? "{\"cur2\":" : ",{\"cur2\":");
                first = false;
                toModel(*target, o);
                std::string exc = "none";
                probeLog().clear();
                deserialize(target, bytesOf(step["text"]), step["api"].GetString(), step["we"].GetBool() ? &errors : nullptr, exc);
                o.raw(",\"res\":");
                toModel(*target, o);
                o.raw(",\"exc\":");
                o.str(exc);
                outErrors(errors, o);
                outProbes(o);
                o.raw("}");
                if (exc != "none" && exc != "parse" && exc != "error") {
                    break;
                }
            }
            o.raw("]");
        } else if (op == "shared") {
            // several threads write one object and read one document at the same time
            auto src = std::make_unique<T>();
            fromModel(c["val"], *src);
            const auto count = c["threads"].GetUint();
            o.raw(",\"val2\":");
            toModel(*src, o);
            rapidjson::Document d;
            rapidjson::Value v;
            JsonReflector::push(*src, v, d.GetAllocator());
            auto outs = std::vector<Out>(count);
            auto threads = std::vector<std::thread>();
            const T &obj = *src;
            const rapidjson::Value &doc = v;
            for (unsigned k = 0; k != count; ++k) {
                threads.emplace_back([&, k] {
                    auto &out = outs[k];
                    const auto text = serialize(obj, api);
                    out.raw("{\"text\":");
                    out.bytes(text.data(), text.size());
                    auto target = std::make_unique<T>();
                    JsonDeserializationErrors errors;
                    std::string exc = "none";
                    if constexpr (isWriteOnly<T>()) {
                        exc = "unsupported";
                    } else {
                        try {
                            JsonReflector::pull(*target, doc, &errors);
                        } catch (...) {
                            exc = "other";
                        }
                    }
                    out.raw(",\"res\":");
                    toModel(*target, out);
                    out.raw(",\"exc\":");
                    out.str(exc);
                    outErrors(errors, out);
                    out.raw("}");
                });
            }
            for (auto &t : threads) {
                t.join();
            }
            o.raw(",\"outs\":[");
            for (unsigned k = 0; k != count; ++k) {
                o.raw(k ? "," : "");
                o.s += outs[k].s;
            }
            o.raw("]");
        } else if (op == "life") {
            // history on the source object between populating the document and serializing the document
            auto src = std::make_unique<T>();
            fromModel(c["val"], *src);
            o.raw(",\"val2\":");
            toModel(*src, o);
            rapidjson::Document d;
            rapidjson::Value v;
            auto ownDoc = rapidjson::Document();
            const bool viaDoc = api != "push";
            if (viaDoc) {
                if constexpr (HasFields<T>::value || isMapLike<T>() || IsArray<T>::value) {
                    ownDoc = JsonReflector::toJsonDocument(*src);
                } else if constexpr (isStringLike<T>()) {
                    ownDoc = JsonReflector::toJsonDocument<T>(*src);
                } else {
                    JsonReflector::push(*src, static_cast<rapidjson::Value &>(ownDoc), ownDoc.GetAllocator());
                }
            } else {
                JsonReflector::push(*src, v, d.GetAllocator());
            }
            rapidjson::Value &doc = viaDoc ? static_cast<rapidjson::Value &>(ownDoc) : v;
            o.raw(",\"texts\":[");
            bool first = true;
            for (const auto &step : c["steps"].GetArray()) {
                const std::string s = step["a"].GetString();
                if (s == "mutate" && src) {
                    fromModel(step["v"], *src);
                } else if (s == "clear" && src) {
                    src = std::make_unique<T>();
                } else if (s == "destroy") {
                    src.reset();
                    for (auto &str : viewStorage()) {
                        std::fill(str.begin(), str.end(), '#');
                    }
                    viewStorage().clear();
                } else if (s == "write") {
                    rapidjson::StringBuffer buffer;
                    rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
                    doc.Accept(writer);
                    if (!first) {
                        o.raw(",");
                    }
                    first = false;
                    o.bytes(buffer.GetString(), buffer.GetSize());
                }
            }
            o.raw("]");
        }
        viewStorage().clear();
    }
};
} // namespace vf
#endif
