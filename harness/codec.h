// Converts between C++ objects and the abstract values used by the TLA+ specification (JSON encoded).
#ifndef VERIF_CODEC_H
#define VERIF_CODEC_H

#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/serializable.h>

#include <cstdint>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <array>
#include <forward_list>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace vf {

using JV = rapidjson::Value;

// ---- output helpers -------------------------------------------------------
struct Out {
    std::string s;
    void raw(const char *c) { s += c; }
    void num(long long n) { s += std::to_string(n); }
    void bytes(const void *p, std::size_t n)
    {
        s += '[';
        for (std::size_t i = 0; i != n; ++i) {
            if (i) {
                s += ',';
            }
            s += std::to_string(static_cast<unsigned>(static_cast<const unsigned char *>(p)[i]));
        }
        s += ']';
    }
    void be64(std::uint64_t v)
    {
        unsigned char b[8];
        for (int i = 0; i != 8; ++i) {
            b[i] = static_cast<unsigned char>(v >> (56 - 8 * i));
        }
        bytes(b, 8);
    }
    void str(std::string_view v)
    {
        s += '"';
        for (char c : v) {
            unsigned char u = static_cast<unsigned char>(c);
            if (u < 0x20 || u == '"' || u == '\\' || u >= 0x7f) {
                char buf[8];
                std::snprintf(buf, sizeof(buf), "\\u%04x", u);
                s += buf;
            } else {
                s += c;
            }
        }
        s += '"';
    }
};
inline std::string bytesOf(const JV &v)
{
    std::string r;
    for (auto &b : v.GetArray()) {
        r += static_cast<char>(b.GetUint());
    }
    return r;
}
inline std::uint64_t be64Of(const JV &v)
{
    std::uint64_t r = 0;
    for (auto &b : v.GetArray()) {
        r = (r << 8) | b.GetUint();
    }
    return r;
}

// ---- points where another operation may be continued (within the same or another thread), see par.cpp -------------
struct YieldHook {
    virtual void yield() = 0;
};
inline YieldHook *&yieldHook()
{
    static thread_local YieldHook *h = nullptr;
    return h;
}
inline void yieldPoint()
{
    if (yieldHook()) {
        yieldHook()->yield();
    }
}

// ---- probe type: logs the error context at the moment it is pulled -------------
struct ProbeEvent {
    std::string record, member;
    long long index;
    long long errs;
    int v;
};
inline std::vector<ProbeEvent> &probeLog()
{
    static thread_local std::vector<ProbeEvent> log;
    return log;
}
struct Probe {
    int v = 0;
    bool operator<(const Probe &o) const { return v < o.v; }
    bool operator==(const Probe &o) const { return v == o.v; }
};

// ---- struct reflection (specialised by generated code) -------------------------
template <typename T> struct Fields; // static void visit(T &, F), with F(const char *name, auto &field)
template <typename T, typename = void> struct HasFields : std::false_type {};
template <typename T> struct HasFields<T, std::void_t<decltype(Fields<T>::known)>> : std::true_type {};

template <typename T, template <typename...> class Tpl> struct Is : std::false_type {};
template <template <typename...> class Tpl, typename... A> struct Is<Tpl<A...>, Tpl> : std::true_type {};

// custom containers treated as standard containers
template <typename T> struct CustomKind {
    static constexpr int value = 0; // 1 map, 2 multimap, 3 set, 4 multiset
};

// ids of objects referred to by shared pointers (binary graph mode)
struct Graph {
    bool enabled = false;
    // building
    std::map<int, std::shared_ptr<void>> objects;
    // projecting
    std::map<const void *, int> ids;
    int next = 0;
    void reset()
    {
        ids.clear();
        order.clear();
        next = 0;
    }
    std::vector<std::pair<const void *, int>> order;
};
inline Graph &graph()
{
    static thread_local Graph g;
    return g;
}

// storage for non-owning strings
inline std::list<std::string> &viewStorage()
{
    static thread_local std::list<std::string> l;
    return l;
}

template <typename T> void fromModel(const JV &m, T &out);
template <typename T> void toModel(const T &in, Out &o);

template <typename T> using Arr0 = std::array<T, 0>;
template <typename T> using Arr3 = std::array<T, 3>;
template <typename T> struct IsStdArray : std::false_type {};
template <typename T, std::size_t N> struct IsStdArray<std::array<T, N>> : std::true_type {};
// types which can only be serialized
template <typename T> constexpr bool isWriteOnly()
{
    if constexpr (std::is_same_v<T, std::vector<bool>> || IsStdArray<T>::value || Is<T, std::forward_list>::value) {
        return true;
    } else if constexpr (Is<T, std::vector>::value) {
        return isWriteOnly<typename T::value_type>();
    } else if constexpr (Is<T, std::map>::value || Is<T, std::multimap>::value) {
        return isWriteOnly<typename T::mapped_type>();
    } else if constexpr (Is<T, std::pair>::value) {
        return isWriteOnly<typename T::first_type>() || isWriteOnly<typename T::second_type>();
    } else {
        return false;
    }
}

template <typename V, std::size_t I = 0> void emplaceAlt(std::size_t idx, V &var, const JV &m)
{
    if constexpr (I < std::variant_size_v<V>) {
        if (I == idx) {
            using A = std::variant_alternative_t<I, V>;
            if constexpr (std::is_same_v<A, std::monostate>) {
                var.template emplace<I>();
            } else {
                fromModel(m, var.template emplace<I>());
            }
        } else {
            emplaceAlt<V, I + 1>(idx, var, m);
        }
    }
}

template <typename T> void fromModel(const JV &m, T &out)
{
    if constexpr (HasFields<T>::value) {
        const auto &fs = m["f"];
        Fields<T>::visit(out, [&](const char *name, auto &field) {
            using F = std::remove_reference_t<decltype(field)>;
            if constexpr (!std::is_const_v<F>) {
                for (auto &f : fs.GetArray()) {
                    if (!std::strcmp(f["n"].GetString(), name)) {
                        fromModel(f["v"], field);
                        return;
                    }
                }
            }
        });
    } else if constexpr (std::is_same_v<T, Probe>) {
        fromModel(m, out.v);
    } else if constexpr (std::is_same_v<T, bool>) {
        out = m["b"].GetBool();
    } else if constexpr (std::is_enum_v<T>) {
        std::underlying_type_t<T> u;
        fromModel(m, u);
        out = static_cast<T>(u);
    } else if constexpr (std::is_integral_v<T>) {
        const auto mag = be64Of(m["m"]);
        out = static_cast<T>(m["n"].GetBool() ? std::uint64_t(0) - mag : mag);
    } else if constexpr (std::is_floating_point_v<T>) {
        const auto bits = be64Of(m["x"]);
        double d;
        std::memcpy(&d, &bits, 8);
        out = static_cast<T>(d);
    } else if constexpr (std::is_same_v<T, std::string>) {
        out = bytesOf(m["s"]);
    } else if constexpr (std::is_same_v<T, const char *>) {
        out = nullptr;
        if (m["t"] == "str") {
            viewStorage().emplace_back(bytesOf(m["s"]));
            out = viewStorage().back().c_str();
        }
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        out = std::string_view();
        if (m["t"] == "str") {
            // the viewed characters are surrounded by others so nothing can rely on a terminator
            const auto bytes = bytesOf(m["s"]);
            viewStorage().emplace_back("<" + bytes + ">#");
            out = std::string_view(viewStorage().back()).substr(1, bytes.size());
        }
    } else if constexpr (std::is_same_v<T, CppUtilities::DateTime>) {
        out = CppUtilities::DateTime(be64Of(m["m"]));
    } else if constexpr (std::is_same_v<T, CppUtilities::TimeSpan>) {
        const auto mag = be64Of(m["m"]);
        out = CppUtilities::TimeSpan(static_cast<std::int64_t>(m["n"].GetBool() ? std::uint64_t(0) - mag : mag));
    } else if constexpr (Is<T, std::pair>::value) {
        fromModel(m["e"][0], out.first);
        fromModel(m["e"][1], out.second);
    } else if constexpr (Is<T, std::tuple>::value) {
        rapidjson::SizeType i = 0;
        std::apply([&](auto &...x) { (fromModel(m["e"][i++], x), ...); }, out);
    } else if constexpr (Is<T, std::shared_ptr>::value) {
        using E = typename T::element_type;
        if (m["t"] == "null") {
            out.reset();
        } else if (m["t"] == "ref") { // graph mode: reference to object by number
            const int id = m["id"].GetInt();
            auto &g = graph();
            if (auto i = g.objects.find(id); i != g.objects.end()) {
                out = std::static_pointer_cast<E>(i->second);
            } else {
                out = std::make_shared<E>();
                // objects without content might be pretended to be at any address
                if constexpr (std::is_empty_v<E>) {
                    if (m.HasMember("a")) {
                        std::uint64_t a = 0;
                        for (const auto &b : m["a"].GetArray()) a = a << 8 | b.GetUint();
                        out = std::shared_ptr<E>(out, reinterpret_cast<E *>(a));
                    }
                }
                g.objects[id] = std::static_pointer_cast<void>(out);
                if (m.HasMember("v")) {
                    fromModel(m["v"], *out);
                }
            }
        } else {
            out = std::make_shared<E>();
            fromModel(m["v"], *out);
        }
    } else if constexpr (Is<T, std::unique_ptr>::value) {
        out.reset();
        if (m["t"] != "null") {
            out = std::make_unique<typename T::element_type>();
            fromModel(m["v"], *out);
        }
    } else if constexpr (Is<T, std::optional>::value) {
        out.reset();
        if (m["t"] != "null") {
            fromModel(m["v"], out.emplace());
        }
    } else if constexpr (Is<T, std::variant>::value) {
        emplaceAlt(m["i"].GetUint(), out, m["v"]);
    } else if constexpr (CustomKind<T>::value == 1 || CustomKind<T>::value == 2 || Is<T, std::map>::value || Is<T, std::unordered_map>::value
        || Is<T, std::multimap>::value || Is<T, std::unordered_multimap>::value) {
        out.clear();
        for (auto &e : m["e"].GetArray()) {
            typename T::mapped_type v{};
            fromModel(e["v"], v);
            if constexpr (std::is_same_v<typename T::key_type, std::string>) {
                if (e["k"].IsArray()) {
                    out.emplace(bytesOf(e["k"]), std::move(v));
                    continue;
                }
            }
            typename T::key_type k{};
            fromModel(e["k"], k);
            out.emplace(std::move(k), std::move(v));
        }
    } else if constexpr (CustomKind<T>::value == 3 || CustomKind<T>::value == 4 || Is<T, std::set>::value || Is<T, std::unordered_set>::value
        || Is<T, std::multiset>::value || Is<T, std::unordered_multiset>::value) {
        out.clear();
        for (auto &e : m["e"].GetArray()) {
            typename T::value_type v{};
            fromModel(e, v);
            out.emplace(std::move(v));
        }
    } else if constexpr (std::is_same_v<T, std::vector<bool>>) {
        out.clear();
        for (auto &e : m["e"].GetArray()) {
            out.push_back(e["b"].GetBool());
        }
    } else if constexpr (IsStdArray<T>::value) {
        for (std::size_t i = 0; i < out.size() && i < m["e"].Size(); ++i) {
            fromModel(m["e"][static_cast<rapidjson::SizeType>(i)], out[i]);
        }
    } else if constexpr (Is<T, std::forward_list>::value) {
        out.clear();
        for (auto i = m["e"].Size(); i--;) {
            out.emplace_front();
            fromModel(m["e"][i], out.front());
        }
    } else {
        out.clear();
        for (auto &e : m["e"].GetArray()) {
            out.emplace_back();
            fromModel(e, out.back());
        }
    }
}

template <typename T> void toModel(const T &in, Out &o)
{
    if constexpr (HasFields<T>::value) {
        o.raw("{\"t\":\"rec\",\"f\":[");
        bool first = true;
        Fields<T>::visit(const_cast<T &>(in), [&](const char *name, auto &field) {
            if (!first) {
                o.raw(",");
            }
            first = false;
            o.raw("{\"n\":");
            o.str(name);
            o.raw(",\"v\":");
            toModel(field, o);
            o.raw("}");
        });
        o.raw("]}");
    } else if constexpr (std::is_same_v<T, Probe>) {
        toModel(in.v, o);
    } else if constexpr (std::is_same_v<T, bool>) {
        // determine representation in memory to catch invalid bool values
        o.raw(in ? "{\"t\":\"bool\",\"b\":true}" : "{\"t\":\"bool\",\"b\":false}");
    } else if constexpr (std::is_enum_v<T>) {
        toModel(static_cast<std::underlying_type_t<T>>(in), o);
    } else if constexpr (std::is_integral_v<T>) {
        const bool neg = in < T(0);
        o.raw(neg ? "{\"t\":\"int\",\"n\":true,\"m\":" : "{\"t\":\"int\",\"n\":false,\"m\":");
        o.be64(neg ? std::uint64_t(0) - static_cast<std::uint64_t>(static_cast<std::int64_t>(in)) : static_cast<std::uint64_t>(in));
        o.raw("}");
    } else if constexpr (std::is_floating_point_v<T>) {
        const double d = in;
        std::uint64_t bits;
        std::memcpy(&bits, &d, 8);
        o.raw("{\"t\":\"flt\",\"x\":");
        o.be64(bits);
        o.raw("}");
    } else if constexpr (std::is_same_v<T, std::string>) {
        o.raw("{\"t\":\"str\",\"s\":");
        o.bytes(in.data(), in.size());
        o.raw("}");
    } else if constexpr (std::is_same_v<T, const char *>) {
        if (in) {
            toModel(std::string(in), o);
        } else {
            o.raw("{\"t\":\"null\"}");
        }
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        if (in.data()) {
            toModel(std::string(in), o);
        } else {
            o.raw("{\"t\":\"null\"}");
        }
    } else if constexpr (std::is_same_v<T, CppUtilities::DateTime>) {
        toModel(static_cast<std::uint64_t>(in.totalTicks()), o);
    } else if constexpr (std::is_same_v<T, CppUtilities::TimeSpan>) {
        toModel(static_cast<std::int64_t>(in.totalTicks()), o);
    } else if constexpr (Is<T, std::pair>::value) {
        o.raw("{\"t\":\"tup\",\"e\":[");
        toModel(in.first, o);
        o.raw(",");
        toModel(in.second, o);
        o.raw("]}");
    } else if constexpr (Is<T, std::tuple>::value) {
        o.raw("{\"t\":\"tup\",\"e\":[");
        bool first = true;
        std::apply(
            [&](auto &...x) {
                ((first ? (void)(first = false) : o.raw(","), toModel(x, o)), ...);
            },
            in);
        o.raw("]}");
    } else if constexpr (Is<T, std::shared_ptr>::value) {
        auto &g = graph();
        if (!in) {
            o.raw("{\"t\":\"null\"}");
        } else if (g.enabled) {
            const void *p = in.get();
            auto i = g.ids.find(p);
            const bool isNew = i == g.ids.end();
            if (isNew) {
                const int id = ++g.next;
                g.ids[p] = id;
                g.order.emplace_back(p, id);
                i = g.ids.find(p);
            }
            o.raw("{\"t\":\"ref\",\"id\":");
            o.num(i->second);
            if (isNew) {
                o.raw(",\"v\":");
                toModel(*in, o);
            }
            o.raw("}");
        } else {
            o.raw("{\"t\":\"some\",\"v\":");
            toModel(*in, o);
            o.raw("}");
        }
    } else if constexpr (Is<T, std::unique_ptr>::value || Is<T, std::optional>::value) {
        if (in) {
            o.raw("{\"t\":\"some\",\"v\":");
            toModel(*in, o);
            o.raw("}");
        } else {
            o.raw("{\"t\":\"null\"}");
        }
    } else if constexpr (Is<T, std::variant>::value) {
        if (in.valueless_by_exception()) {
            o.raw("{\"t\":\"valueless\"}");
            return;
        }
        o.raw("{\"t\":\"var\",\"i\":");
        o.num(static_cast<long long>(in.index()));
        o.raw(",\"v\":");
        std::visit(
            [&](const auto &x) {
                if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) {
                    o.raw("{\"t\":\"null\"}");
                } else {
                    toModel(x, o);
                }
            },
            in);
        o.raw("}");
    } else if constexpr (CustomKind<T>::value == 1 || CustomKind<T>::value == 2 || Is<T, std::map>::value || Is<T, std::unordered_map>::value
        || Is<T, std::multimap>::value || Is<T, std::unordered_multimap>::value) {
        o.raw("{\"t\":\"map\",\"e\":[");
        bool first = true;
        for (const auto &e : in) {
            if (!first) {
                o.raw(",");
            }
            first = false;
            o.raw("{\"k\":");
            if constexpr (std::is_same_v<typename T::key_type, std::string>) {
                o.bytes(e.first.data(), e.first.size());
            } else {
                toModel(e.first, o);
            }
            o.raw(",\"v\":");
            toModel(e.second, o);
            o.raw("}");
        }
        o.raw("]}");
    } else {
        constexpr bool isSet = CustomKind<T>::value == 3 || CustomKind<T>::value == 4 || Is<T, std::set>::value || Is<T, std::unordered_set>::value
            || Is<T, std::multiset>::value || Is<T, std::unordered_multiset>::value;
        o.raw(isSet ? "{\"t\":\"set\",\"e\":[" : "{\"t\":\"seq\",\"e\":[");
        bool first = true;
        for (const auto &e : in) {
            if (!first) {
                o.raw(",");
            }
            first = false;
            toModel(e, o);
        }
        o.raw("]}");
    }
}

} // namespace vf

namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <>
inline void push<vf::Probe>(const vf::Probe &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &)
{
    vf::yieldPoint();
    value.SetInt(reflectable.v);
}
template <>
inline void pull<vf::Probe>(vf::Probe &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value,
    JsonDeserializationErrors *errors)
{
    vf::yieldPoint();
    const int v = value.IsInt() ? value.GetInt() : 0;
    vf::probeLog().push_back(vf::ProbeEvent{ errors && errors->currentRecord ? errors->currentRecord : "",
        errors && errors->currentMember ? errors->currentMember : "",
        errors && errors->currentIndex != JsonDeserializationError::noIndex ? static_cast<long long>(errors->currentIndex) : -1,
        errors ? static_cast<long long>(errors->size()) : -1, v });
    reflectable.v = v;
    // custom code reporting errors itself
    if (!errors || value.IsInt()) return;
    using namespace RAPIDJSON_NAMESPACE;
    switch (value.GetType()) {
    case kNullType: errors->reportTypeMismatch<kFalseType>(value.GetType()); break;
    case kFalseType: errors->reportTypeMismatch<kObjectType>(value.GetType()); break;
    case kTrueType: errors->reportConversionError(JsonType::Bool); break;
    case kStringType: errors->reportTypeMismatch<kNumberType>(value.GetType()); break;
    case kArrayType: errors->reportArraySizeMismatch(); break;
    case kObjectType: errors->reportUnexpectedDuplicate(JsonType::Object); break;
    default:
        if (value.IsDouble()) errors->reportInvalidVariantIndex(JsonType::Number);
        else errors->reportInvalidVariantObject();
    }
}
} // namespace JsonReflector
} // namespace ReflectiveRapidJSON

#endif
