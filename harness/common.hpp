// Script reader and event writer shared by all harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh
{
struct J  // builder of one flat JSON object
{
    std::string s{"{"};
    J&          raw(const char* k, const std::string& v)
    {
        if (s.size() > 1) s += ',';
        s += '"';
        s += k;
        s += "\":";
        s += v;
        return *this;
    }
    J& str(const char* k, const std::string& v) { return raw(k, "\"" + v + "\""); }
    J& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
    J& boolean(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
    template <typename C>
    J& list(const char* k, const C& c)
    {
        std::string o{"["};
        for (const auto& x : c)
        {
            if (o.size() > 1) o += ',';
            o += std::to_string(x);
        }
        return raw(k, o + "]");
    }
    std::string done() const { return s + "}"; }
};

inline std::FILE*& out()
{
    static std::FILE* f = nullptr;
    return f;
}
inline void emit(const std::string& line)
{
    std::fwrite(line.data(), 1, line.size(), out());
    std::fputc('\n', out());
    std::fflush(out());
}
inline void emit(const J& j) { emit(j.done()); }

[[noreturn]] inline void bad_script(const std::string& why)
{
    std::fprintf(stderr, "bad script: %s\n", why.c_str());
    std::fflush(nullptr);
    std::_Exit(3);
}

struct Op
{
    std::string              name;
    std::vector<long long>   a;
    std::vector<std::string> w;  // all words after the name
    long long                at(std::size_t i) const
    {
        if (i >= a.size()) bad_script("missing argument of " + name);
        return a[i];
    }
};
inline Op parse(const std::string& line)
{
    Op                 o;
    std::istringstream is(line);
    is >> o.name;
    std::string t;
    while (is >> t)
    {
        o.w.push_back(t);
        char* e = nullptr;
        o.a.push_back(std::strtoll(t.c_str(), &e, 10));
    }
    return o;
}

// Runs every history of a script: make(header words) -> object with step(Op) and finish().
template <typename F>
int drive(int argc, char** argv, F&& run_history)
{
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    out() = std::fopen(argv[2], "w");
    if (!in || !out()) return 3;
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        if (line[0] != 'H') bad_script("expected header, got " + line);
        Op              hdr = parse(line);
        std::vector<Op> ops;
        while (std::getline(in, line) && line != ".")
        {
            ops.push_back(parse(line));
        }
        emit("H");
        run_history(hdr, ops);
        emit(".");
    }
    std::fclose(out());
    return 0;
}
}  // namespace vh
#endif
