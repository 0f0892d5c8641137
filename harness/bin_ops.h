// Executes binary cases for one C++ type and prints what was observed.
#ifndef VERIF_BIN_OPS_H
#define VERIF_BIN_OPS_H

#include "structs.h"
#include <functional>
#include <iostream>
#include <sstream>
#include <thread>

namespace vf {
using namespace ReflectiveRapidJSON;
using BinaryReflector::BinaryDeserializer;
using BinaryReflector::BinarySerializer;

using CaseFn = std::function<void(const JV &, Out &)>;
std::map<std::string, CaseFn> &registry();

// state shared by the steps of a sequence of reads/writes
struct SeqCtx {
    std::ostream *os = nullptr;
    std::istream *is = nullptr;
    BinarySerializer *ser = nullptr;
    BinaryDeserializer *des = nullptr;
};
inline SeqCtx &seqCtx()
{
    static thread_local SeqCtx c;
    return c;
}
// results which are kept until the end of a sequence (so addresses stay unique)
inline std::vector<std::shared_ptr<void>> &keepAlive()
{
    static thread_local std::vector<std::shared_ptr<void>> v;
    return v;
}

// limit of memory while reading
struct Limiter {
    bool active = false;
    std::size_t total = 0;
};
inline Limiter &limiter()
{
    static thread_local Limiter l;
    return l;
}

// stream buffer which fails after a number of bytes
struct FaultBuf : std::streambuf {
    std::string data;
    std::size_t limit;
    int mode; // 0: report failure, 1: throw
    explicit FaultBuf(std::size_t limit, int mode = 0)
        : limit(limit)
        , mode(mode)
    {
    }
    int_type overflow(int_type c) override
    {
        if (data.size() >= limit) {
            if (mode) {
                throw std::runtime_error("device is full");
            }
            return traits_type::eof();
        }
        data += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        const auto space = static_cast<std::streamsize>(limit - data.size());
        const auto take = std::min(n, space);
        data.append(s, static_cast<std::size_t>(take));
        if (take < n && mode) {
            throw std::runtime_error("device is full");
        }
        return take;
    }
};
struct ReadFaultBuf : std::streambuf {
    std::string data;
    std::size_t limit, pos = 0;
    int mode;
    char ch = 0;
    ReadFaultBuf(const std::string &data, std::size_t limit, int mode)
        : data(data)
        , limit(limit)
        , mode(mode)
    {
    }
    int_type underflow() override
    {
        if (pos >= limit) {
            if (mode) {
                throw std::runtime_error("device error");
            }
            return traits_type::eof();
        }
        ch = data[pos];
        setg(&ch, &ch, &ch + 1);
        ++pos;
        return traits_type::to_int_type(ch);
    }
};

// streams which let other operations continue before each access
struct YieldOutBuf : std::streambuf {
    std::string data;
    int_type overflow(int_type c) override
    {
        yieldPoint();
        data += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        yieldPoint();
        data.append(s, static_cast<std::size_t>(n));
        return n;
    }
};
struct YieldInBuf : std::streambuf {
    std::string data;
    std::size_t pos = 0;
    char ch = 0;
    explicit YieldInBuf(const std::string &data)
        : data(data)
    {
    }
    int_type underflow() override
    {
        if (gptr() && gptr() < egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        yieldPoint();
        if (pos >= data.size()) {
            return traits_type::eof();
        }
        ch = data[pos++];
        setg(&ch, &ch, &ch + 1);
        return traits_type::to_int_type(ch);
    }
    std::size_t consumed() const { return pos - static_cast<std::size_t>(gptr() ? egptr() - gptr() : 0); }
};

template <typename T, typename = void> struct HasMemberApi : std::false_type {};
template <typename T> struct HasMemberApi<T, std::void_t<decltype(std::declval<const T &>().toBinary(std::declval<std::ostream &>()))>> : std::true_type {};

template <typename T> struct BinOps {
    static void write(const std::string &api, std::ostream &os, const T &obj, BinaryVersion ver)
    {
        if constexpr (HasMemberApi<T>::value) {
            if (api == "member") {
                obj.toBinary(os, ver);
                return;
            }
        }
        BinarySerializer ser(&os);
        writeTo(api, ser, obj, ver);
    }
    static void writeTo(const std::string &api, BinarySerializer &ser, const T &obj, BinaryVersion ver)
    {
        if (api == "plain" && !ver) {
            ser.write(obj);
        } else {
            ser.write(obj, ver);
        }
    }
    static BinaryVersion read(const std::string &api, std::istream &is, T &obj, BinaryVersion ver)
    {
        if constexpr (isWriteOnly<T>()) {
            throw CppUtilities::ConversionException("unsupported");
        } else {
            return readAny(api, is, obj, ver);
        }
    }
    static BinaryVersion readAny(const std::string &api, std::istream &is, T &obj, BinaryVersion ver)
    {
        if constexpr (HasMemberApi<T>::value) {
            if (api == "member") {
                return obj.restoreFromBinary(is);
            }
            if constexpr (std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>) {
                if (api == "static") {
                    obj = T::fromBinary(is);
                    return 0;
                }
            }
        }
        BinaryDeserializer des(&is);
        return readFrom(api, des, obj, ver);
    }
    static BinaryVersion readFrom(const std::string &api, BinaryDeserializer &des, T &obj, BinaryVersion ver)
    {
        if constexpr (isWriteOnly<T>()) {
            throw CppUtilities::ConversionException("unsupported");
        } else {
            if (api == "plain" && !ver) {
                des.read(obj);
                return 0;
            }
            return des.read(obj, ver);
        }
    }

    template <typename F> static void guarded(F &&f, Out &o)
    {
        std::string exc = "none";
        BinaryVersionNotSupported ns;
        limiter().total = 0;
        limiter().active = true;
        try {
            f();
            limiter().active = false;
        } catch (const BinaryVersionNotSupported &e) {
            exc = "version";
            ns = e;
        } catch (const CppUtilities::ConversionException &) {
            exc = "conv";
        } catch (const std::ios_base::failure &) {
            exc = "io";
        } catch (const std::bad_alloc &) {
            exc = "alloc";
        } catch (const std::length_error &) {
            exc = "alloc";
        } catch (const std::runtime_error &e) {
            exc = std::strncmp(e.what(), "device", 6) ? std::string("other: ") + e.what() : std::string("io");
        } catch (const std::exception &e) {
            exc = std::string("other: ") + e.what();
        }
        limiter().active = false;
        o.raw(",\"exc\":");
        o.str(exc);
        o.raw(",\"pres\":");
        o.be64(ns.presentVersion);
        o.raw(",\"max\":");
        o.be64(ns.maxVersion);
        o.raw(",\"rec\":");
        o.str(ns.record ? ns.record : "");
    }

    static std::unique_ptr<T> make(const JV &c, const char *key, bool keepObjects = false)
    {
        auto obj = std::make_unique<T>();
        if (!keepObjects) {
            graph().objects.clear();
        }
        graph().enabled = true;
        if (c.HasMember(key)) {
            fromModel(c[key], *obj);
        }
        if (!keepObjects) {
            graph().objects.clear();
        }
        return obj;
    }
    static BinaryVersion version(const JV &c, const char *key)
    {
        return c.HasMember(key) ? be64Of(c[key]) : 0;
    }
    static std::string str(const JV &c, const char *key, const char *def = "plain")
    {
        return c.HasMember(key) ? c[key].GetString() : def;
    }

    static void outRead(const std::string &bytes, const JV &c, Out &o)
    {
        auto obj = make(c, "cur");
        graph().reset();
        o.raw(",\"cur2\":");
        toModel(*obj, o);
        std::istringstream is(bytes, std::ios_base::in | std::ios_base::binary);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
        BinaryVersion ret = 0;
        guarded([&] { ret = read(str(c, "rapi"), is, *obj, version(c, "rver")); }, o);
        is.exceptions(std::ios_base::goodbit);
        o.raw(",\"pos\":");
        is.clear();
        o.num(static_cast<long long>(is.tellg()));
        o.raw(",\"ret\":");
        o.be64(ret);
        graph().reset();
        o.raw(",\"res\":");
        toModel(*obj, o);
    }

    static void outYieldingRead(T &target, const std::string &bytes, const JV &c, Out &o)
    {
        YieldInBuf ib(bytes);
        std::istream is(&ib);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
        BinaryVersion ret = 0;
        guarded([&] { ret = read(str(c, "rapi"), is, target, version(c, "rver")); }, o);
        o.raw(",\"pos\":");
        o.num(static_cast<long long>(ib.consumed()));
        o.raw(",\"ret\":");
        o.be64(ret);
        graph().reset();
        o.raw(",\"res\":");
        toModel(target, o);
    }

    static void run(const JV &c, Out &o)
    {
        const std::string op = c["op"].GetString();
        graph().enabled = true;
        if (op == "default") {
            T obj{};
            graph().reset();
            o.raw(",\"res\":");
            toModel(obj, o);
        } else if (op == "rt") {
            auto obj = make(c, "val");
            graph().reset();
            o.raw(",\"val2\":");
            toModel(*obj, o);
            std::ostringstream os(std::ios_base::out | std::ios_base::binary);
            os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            write(str(c, "wapi"), os, *obj, version(c, "wver"));
            const auto bytes = os.str();
            o.raw(",\"bytes\":");
            o.bytes(bytes.data(), bytes.size());
            graph().reset();
            o.raw(",\"val3\":"); // writing must not alter the object
            toModel(*obj, o);
            outRead(bytes + (c.HasMember("tail") ? bytesOf(c["tail"]) : std::string()), c, o);
        } else if (op == "prt") { // like rt but other operations may be done in between
            auto obj = make(c, "val");
            auto target = make(c, "cur");
            graph().reset();
            o.raw(",\"val2\":");
            toModel(*obj, o);
            graph().reset();
            o.raw(",\"cur2\":");
            toModel(*target, o);
            YieldOutBuf ob;
            std::ostream os(&ob);
            os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            write(str(c, "wapi"), os, *obj, version(c, "wver"));
            o.raw(",\"bytes\":");
            o.bytes(ob.data.data(), ob.data.size());
            graph().reset();
            o.raw(",\"val3\":");
            toModel(*obj, o);
            outYieldingRead(*target, ob.data + (c.HasMember("tail") ? bytesOf(c["tail"]) : std::string()), c, o);
        } else if (op == "pdec") {
            auto target = make(c, "cur");
            graph().reset();
            o.raw(",\"cur2\":");
            toModel(*target, o);
            outYieldingRead(*target, bytesOf(c["bytes"]), c, o);
        } else if (op == "shared") { // one object is written by several threads at the same time
            const auto obj = make(c, "val");
            const auto count = c["threads"].GetUint();
            graph().reset();
            o.raw(",\"val2\":");
            toModel(*obj, o);
            auto written = std::vector<std::string>(count);
            auto threads = std::vector<std::thread>();
            for (unsigned k = 0; k != count; ++k) {
                threads.emplace_back([&, k] {
                    std::ostringstream os(std::ios_base::out | std::ios_base::binary);
                    write(str(c, "wapi"), os, *obj, version(c, "wver"));
                    written[k] = os.str();
                });
            }
            for (auto &t : threads) {
                t.join();
            }
            graph().reset();
            o.raw(",\"val3\":");
            toModel(*obj, o);
            o.raw(",\"written\":[");
            for (unsigned k = 0; k != count; ++k) {
                if (k) {
                    o.raw(",");
                }
                o.bytes(written[k].data(), written[k].size());
            }
            o.raw("]");
        } else if (op == "dec") {
            outRead(bytesOf(c["bytes"]), c, o);
        } else if (op == "wfault") {
            auto obj = make(c, "val");
            graph().reset();
            o.raw(",\"val2\":");
            toModel(*obj, o);
            const int mode = c["mode"].GetInt(); // 0: exceptions of the stream enabled, 1: the buffer throws, 2: no exceptions
            std::ostringstream os(std::ios_base::out | std::ios_base::binary);
            write(str(c, "wapi"), os, *obj, version(c, "wver"));
            const auto full = os.str();
            o.raw(",\"bytes\":");
            o.bytes(full.data(), full.size());
            o.raw(",\"faults\":[");
            for (std::size_t limit = 0; limit <= full.size(); ++limit) {
                FaultBuf buf(limit, mode == 1);
                std::ostream fos(&buf);
                if (mode != 2) {
                    fos.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                }
                o.raw(limit ? ",{\"k\":0" : "{\"k\":0");
                guarded([&] { write(str(c, "wapi"), fos, *obj, version(c, "wver")); }, o);
                o.raw(",\"failed\":");
                o.raw(fos.fail() ? "true" : "false");
                o.raw(",\"out\":");
                o.bytes(buf.data.data(), buf.data.size());
                o.raw("}");
            }
            graph().reset();
            o.raw("],\"val3\":");
            toModel(*obj, o);
        } else if (op == "rfault") {
            const auto bytes = bytesOf(c["bytes"]);
            o.raw(",\"faults\":[");
            for (std::size_t limit = 0; limit <= bytes.size(); ++limit) {
                auto obj = make(c, "cur");
                ReadFaultBuf buf(bytes, limit, c["mode"].GetInt());
                std::istream is(&buf);
                is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
                o.raw(limit ? ",{\"k\":0" : "{\"k\":0");
                guarded([&] { read(str(c, "rapi"), is, *obj, version(c, "rver")); }, o);
                o.raw("}");
                graph().reset();
                Out ignored;
                toModel(*obj, ignored); // the object has to be still usable
            }
            o.raw("]");
        } else if (op == "$w") { // step of a sequence
            auto obj = std::shared_ptr<T>(make(c, "val", true).release());
            keepAlive().emplace_back(obj);
            o.raw("\"val2\":");
            toModel(*obj, o);
            if (seqCtx().ser) {
                writeTo(str(c, "wapi"), *seqCtx().ser, *obj, version(c, "wver"));
            } else {
                write(str(c, "wapi"), *seqCtx().os, *obj, version(c, "wver"));
            }
        } else if (op == "$r") {
            auto obj = std::shared_ptr<T>(make(c, "cur").release());
            keepAlive().emplace_back(obj);
            o.raw("\"k\":0");
            BinaryVersion ret = 0;
            guarded(
                [&] {
                    if (seqCtx().des) {
                        ret = readFrom(str(c, "rapi"), *seqCtx().des, *obj, version(c, "rver"));
                    } else {
                        ret = read(str(c, "rapi"), *seqCtx().is, *obj, version(c, "rver"));
                    }
                },
                o);
            o.raw(",\"pos\":");
            o.num(seqCtx().is->good() ? static_cast<long long>(seqCtx().is->tellg()) : -1);
            o.raw(",\"res\":");
            toModel(*obj, o);
        }
    }
};
} // namespace vf

#endif
