// Sequences of objects on one stream and histories of objects referred to by shared pointers.
#include "bin_ops.h"

namespace vf {

// ---- sequences -------------------------------------------------------------------------------------------------------
static void runSeq(const JV &c, Out &o)
{
    const bool one = c["one"].GetBool(), rone = c["rone"].GetBool(); // whether one serializer/deserializer is used for all steps
    std::ostringstream os(std::ios_base::out | std::ios_base::binary);
    os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    BinarySerializer ser(&os);
    seqCtx() = SeqCtx();
    seqCtx().os = &os;
    seqCtx().ser = one ? &ser : nullptr;
    graph().enabled = true;
    graph().reset();
    graph().objects.clear();
    o.raw(",\"writes\":[");
    bool first = true;
    std::vector<std::streampos> ends;
    for (auto &step : c["steps"].GetArray()) {
        o.raw(first ? "{" : ",{");
        first = false;
        if (!one) {
            graph().reset();
            graph().objects.clear();
        }
        if (step["w"].HasMember("raw")) {
            const auto raw = bytesOf(step["w"]["raw"]);
            os.write(raw.data(), static_cast<std::streamsize>(raw.size()));
            o.raw("\"raw\":");
            o.bytes(raw.data(), raw.size());
        } else {
            registry()[step["type"].GetString()](step["w"], o);
        }
        ends.push_back(os.tellp());
        o.raw(",\"end\":");
        o.num(static_cast<long long>(os.tellp()));
        o.raw("}");
    }
    const auto bytes = os.str();
    o.raw("],\"bytes\":");
    o.bytes(bytes.data(), bytes.size());
    std::istringstream is(bytes, std::ios_base::in | std::ios_base::binary);
    is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
    BinaryDeserializer des(&is);
    seqCtx().is = &is;
    seqCtx().des = rone ? &des : nullptr;
    graph().reset();
    o.raw(",\"reads\":[");
    first = true;
    std::size_t index = 0;
    for (auto &step : c["steps"].GetArray()) {
        o.raw(first ? "{" : ",{");
        first = false;
        if (!rone) {
            graph().reset();
        }
        registry()[step["type"].GetString()](step["r"], o);
        o.raw("}");
        if (step["w"].HasMember("raw")) {
            is.clear();
            is.seekg(ends[index]);
        }
        ++index;
        if (!is.good()) {
            break;
        }
    }
    o.raw("]");
    seqCtx() = SeqCtx();
    keepAlive().clear();
    graph().objects.clear();
    graph().reset();
}

// ---- histories of HNode objects living in a few slots which are re-used as soon as possible ------------------------------
constexpr int slotCount = 4;
alignas(16) static unsigned char slotMemory[slotCount][sizeof(HNode)];
static bool slotUsed[slotCount];

static std::shared_ptr<HNode> allocNode()
{
    for (int i = 0; i != slotCount; ++i) {
        if (slotUsed[i]) {
            continue;
        }
        slotUsed[i] = true;
        graph().ids.erase(slotMemory[i]);
        return std::shared_ptr<HNode>(new (slotMemory[i]) HNode(), [i](HNode *n) {
            n->~HNode();
            slotUsed[i] = false;
        });
    }
    return std::make_shared<HNode>();
}

static void runHist(const JV &c, Out &o)
{
    graph().enabled = true;
    graph().reset();
    std::fill_n(slotUsed, slotCount, false);
    std::shared_ptr<HNode> vars[4];
    std::vector<std::weak_ptr<HNode>> weak;
    std::ostringstream os(std::ios_base::out | std::ios_base::binary);
    os.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    auto ser = std::make_unique<BinarySerializer>(&os);
    o.raw(",\"segs\":[{\"writes\":[");
    bool first = true;
    std::vector<std::size_t> segEnds;
    std::vector<int> segCounts{ 0 };
    const auto closeSeg = [&] {
        segEnds.push_back(os.str().size());
    };
    std::vector<std::string> segs;
    for (auto &step : c["steps"].GetArray()) {
        const std::string a = step["a"].GetString();
        const int v = step.HasMember("v") ? step["v"].GetInt() : 0, w = step.HasMember("w") ? step["w"].GetInt() : 0;
        if (a == "new") {
            vars[v].reset();
            vars[v] = allocNode();
            vars[v]->val = step["x"].GetInt();
            weak.emplace_back(vars[v]);
        } else if (a == "link") {
            if (vars[v]) {
                vars[v]->next = vars[w];
            }
        } else if (a == "copy") {
            vars[v] = vars[w];
        } else if (a == "set") {
            if (vars[v]) {
                vars[v]->val = step["x"].GetInt();
            }
        } else if (a == "drop") {
            vars[v].reset();
        } else if (a == "write") {
            o.raw(first ? "{\"val2\":" : ",{\"val2\":");
            first = false;
            toModel(vars[v], o);
            o.raw("}");
            ser->write(vars[v]);
            ++segCounts.back();
        } else if (a == "newser") {
            o.raw("]},{\"writes\":[");
            first = true;
            closeSeg();
            segCounts.push_back(0);
            ser.reset();
            ser = std::make_unique<BinarySerializer>(&os);
            graph().reset();
        }
    }
    closeSeg();
    o.raw("]}],\"sbytes\":[");
    const auto bytes = os.str();
    std::size_t begin = 0;
    for (auto end : segEnds) {
        segs.push_back(bytes.substr(begin, end - begin));
        begin = end;
        if (segs.size() > 1) {
            o.raw(",");
        }
        o.bytes(segs.back().data(), segs.back().size());
    }
    o.raw("],\"sreads\":[");
    std::vector<std::shared_ptr<HNode>> results;
    for (std::size_t s = 0; s != segs.size(); ++s) {
        o.raw(s ? ",[" : "[");
        std::istringstream is(segs[s], std::ios_base::in | std::ios_base::binary);
        is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
        BinaryDeserializer des(&is);
        graph().reset();
        for (int k = 0; k != segCounts[s]; ++k) {
            o.raw(k ? ",{\"k\":0" : "{\"k\":0");
            std::shared_ptr<HNode> res;
            BinOps<HNode>::guarded([&] { des.read(res); }, o);
            o.raw(",\"pos\":");
            o.num(is.good() ? static_cast<long long>(is.tellg()) : -1);
            o.raw(",\"res\":");
            toModel(res, o);
            o.raw("}");
            results.push_back(res);
        }
        o.raw("]");
    }
    o.raw("]");
    ser.reset();
    for (auto &v : vars) {
        v.reset();
    }
    for (auto &n : weak) {
        if (auto p = n.lock()) {
            p->next.reset();
        }
    }
    for (auto &r : results) {
        auto p = r;
        while (p) {
            auto next = p->next;
            p->next.reset();
            p = next;
        }
    }
    graph().reset();
}

// a pointer to an object and one to its first member (same address, different types)
static void runAlias(const JV &, Out &o)
{
    auto node = std::make_shared<HNode>();
    node->val = 42;
    std::pair<std::shared_ptr<HNode>, std::shared_ptr<std::int32_t>> in, out;
    in.first = node;
    in.second = std::shared_ptr<std::int32_t>(node, &node->val);
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    BinOps<HNode>::guarded(
        [&] {
            BinarySerializer ser(&s);
            ser.write(in);
            BinaryDeserializer des(&s);
            des.read(out);
        },
        o);
    o.raw(",\"same\":");
    o.raw(out.first && out.second && out.first->val == 42 && *out.second == 42 ? "true" : "false");
}

static const bool registered = [] {
    registry()["$alias"] = &runAlias;
    registry()["$seq"] = &runSeq;
    registry()["$hist"] = &runHist;
    return true;
}();

} // namespace vf
