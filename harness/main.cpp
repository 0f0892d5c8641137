// Reads cases (one JSON object per line), runs each on the real code and prints the observation.
#include "codec.h"
#include <fstream>
#include <functional>
#include <iostream>

namespace vf {
using CaseFn = std::function<void(const JV &, Out &)>;
std::map<std::string, CaseFn> &registry()
{
    static std::map<std::string, CaseFn> r;
    return r;
}
} // namespace vf

int main(int argc, char **argv)
{
    if (argc < 3) {
        return 2;
    }
    std::ifstream in(argv[1]);
    std::FILE *out = std::fopen(argv[2], "ab");
    std::string line;
    const long skip = argc > 3 ? std::atol(argv[3]) : 0;
    long n = 0;
    while (std::getline(in, line)) {
        if (n++ < skip || line.empty()) {
            continue;
        }
        rapidjson::Document d;
        d.Parse<rapidjson::kParseFullPrecisionFlag>(line.c_str(), line.size());
        if (d.HasParseError()) {
            std::fprintf(stderr, "bad case: %s\n", line.c_str());
            return 3;
        }
        const auto i = vf::registry().find(d["type"].GetString());
        if (i == vf::registry().end()) {
            std::fprintf(stderr, "unknown type: %s\n", d["type"].GetString());
            return 3;
        }
        vf::Out o;
        o.raw("{\"n\":");
        o.num(n - 1);
        i->second(d, o);
        o.raw("}\n");
        std::fwrite(o.s.data(), 1, o.s.size(), out);
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
