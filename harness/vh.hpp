// Common helpers of the harnesses: a harness reads scenarios (one JSON object per line, {"ev":[op,...], ...}),
// performs the operations on the real code and writes the same objects back with what was observed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

namespace vh {
using J = nlohmann::json;

inline std::vector<unsigned char> bytes(const J& j)
{
    std::vector<unsigned char> v;
    v.reserve(j.size());
    for (const auto& x : j) { v.push_back(static_cast<unsigned char>(x.get<int>())); }
    return v;
}
inline J jbytes(const unsigned char* p, size_t n)
{
    J a = J::array();
    for (size_t i = 0; i < n; ++i) { a.push_back(static_cast<int>(p[i])); }
    return a;
}
inline J jbytes(const std::string& s) { return jbytes(reinterpret_cast<const unsigned char*>(s.data()), s.size()); }

// w-bit word <-> limbs (most significant first; 16 bits each, 8 for w = 8)
template <class U> J limbs(U v)
{
    J a = J::array();
    if constexpr (sizeof(U) == 1) { a.push_back(static_cast<int>(v)); }
    else
    {
        for (int i = sizeof(U) / 2 - 1; i >= 0; --i) { a.push_back(static_cast<int>((v >> (16 * i)) & 0xFFFF)); }
    }
    return a;
}
template <class U> U unlimbs(const J& a)
{
    U v = 0;
    for (const auto& x : a) { v = sizeof(U) == 1 ? static_cast<U>(x.get<int>()) : static_cast<U>((static_cast<uint64_t>(v) << 16) | x.get<uint64_t>()); }
    return v;
}

// Run `fn` on every scenario of argv[1], writing argv[2].
inline int drive(int argc, char** argv, const std::function<void(J&)>& fn)
{
    if (argc < 3) { std::fprintf(stderr, "usage: %s scenarios.ndjson traces.ndjson\n", argv[0]); return 3; }
    std::ifstream in(argv[1]);
    std::FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) { std::fprintf(stderr, "cannot open files\n"); return 3; }
    std::string line;
    size_t n = 0;
    while (std::getline(in, line))
    {
        if (line.empty()) { continue; }
        J sc = J::parse(line);
        ++n;
        // where we are, for a crash report
        if (std::FILE* cur = std::fopen((std::string(argv[2]) + ".cur").c_str(), "w")) { std::fprintf(cur, "%zu\n%s\n", n, line.c_str()); std::fclose(cur); }
        fn(sc);
        const std::string s = sc.dump(-1, ' ', false, J::error_handler_t::replace);
        std::fwrite(s.data(), 1, s.size(), out);
        std::fputc('\n', out);
    }
    std::fclose(out);
    std::remove((std::string(argv[2]) + ".cur").c_str());
    return 0;
}
} // namespace vh
