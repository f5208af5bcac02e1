// Common parts of the drivers: script reader and ndjson trace writer.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <map>
namespace vf {
struct Ev { // one trace line
    std::string s;
    Ev(const char* op) { s = std::string("{\"op\":\"") + op + "\""; }
    Ev& k(const char* key, long long v) { s += std::string(",\"") + key + "\":" + std::to_string(v); return *this; }
    Ev& b(const char* key, bool v) { s += std::string(",\"") + key + "\":" + (v ? "true" : "false"); return *this; }
    Ev& t(const char* key, const std::string& v) { s += std::string(",\"") + key + "\":\"" + v + "\""; return *this; }
    template <class C> Ev& a(const char* key, const C& c) {
        s += std::string(",\"") + key + "\":["; bool f = true;
        for (auto& x : c) { if (!f) s += ","; f = false; s += std::to_string((long long)x); }
        s += "]"; return *this; }
    Ev& raw(const char* key, const std::string& v) { s += std::string(",\"") + key + "\":" + v; return *this; }
};
struct Out {
    FILE* f = nullptr;
    void open(const char* p) { f = fopen(p, "w"); if (!f) { perror(p); exit(3); } setvbuf(f, nullptr, _IOLBF, 1 << 16); }
    // TLC's integers have 32 bits: anything beyond is shown as the extreme ones instead of wrapping around
    static std::string clamped(const std::string& s) {
        std::string o; bool str = false; for (size_t i = 0; i < s.size();) { if (s[i] == '"') str = !str;
            if (str || !isdigit((unsigned char)s[i])) { o += s[i++]; continue; }
            size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) j++;
            std::string d = s.substr(i, j - i); o += d.size() > 10 || (d.size() == 10 && d > "2147483647") ? "2147483647" : d; i = j; }
        return o; }
    void put(const Ev& e) { fputs((clamped(e.s) + "}\n").c_str(), f); }
};
struct Script {
    std::ifstream in; std::string line; std::vector<std::string> w; size_t i = 0;
    void open(const char* p) { in.open(p); if (!in) { perror(p); exit(3); } }
    bool next() { while (std::getline(in, line)) { w.clear(); i = 0; std::istringstream is(line); std::string x; while (is >> x) w.push_back(x); if (!w.empty()) { i = 1; return true; } } return false; }
    const std::string& op() { return w[0]; }
    bool is(const char* o) { return w[0] == o; }
    bool more() { return i < w.size(); }
    std::string str() { if (i >= w.size()) { fprintf(stderr, "script: missing argument: %s\n", line.c_str()); exit(3); } return w[i++]; }
    long long num() { return atoll(str().c_str()); }
    double dbl() { return atof(str().c_str()); }
};
inline void bad(const std::string& m) { fprintf(stderr, "driver: %s\n", m.c_str()); exit(3); }
}
