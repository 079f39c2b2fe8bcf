// NDJSON trace writer. One line per event; the first key is always "e".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
namespace vt
{
    struct Out
    {
        int fd = -1; std::string buf; std::string line; 
        static Out& get() { static Out o; return o; }
        void open(const char* p) { fd = ::open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { perror(p); std::exit(3); } }
        void flush() { size_t o = 0; while (o < buf.size()) { auto n = ::write(fd, buf.data() + o, buf.size() - o); if (n <= 0) std::exit(3); o += n; } buf.clear(); }
        ~Out() { if (fd >= 0) flush(); }
    };
    inline void jstr(std::string& o, const char* s, size_t n)
    {
        o += '"';
        for (size_t i = 0; i < n; ++i)
        {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        o += '"';
    }
    struct E // an event under construction
    {
        std::string s;
        explicit E(const char* e) { s = "{\"e\":\""; s += e; s += '"'; }
        E& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
        E& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
        E& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
        E& str(const char* k, std::string const& v) { key(k); jstr(s, v.data(), v.size()); return *this; }
        E& raw(const char* k, std::string const& v) { key(k); s += v; return *this; }
        template <typename C> E& seq(const char* k, C const& c)
        {
            key(k); s += '['; bool first = true;
            for (auto const& x : c) { if (!first) s += ','; first = false; s += std::to_string((long long)x); }
            s += ']'; return *this;
        }
        template <typename C> E& sseq(const char* k, C const& c)
        {
            key(k); s += '['; bool first = true;
            for (auto const& x : c) { if (!first) s += ','; first = false; std::string t(x); jstr(s, t.data(), t.size()); }
            s += ']'; return *this;
        }
        void end() { s += "}\n"; auto& o = Out::get(); o.buf += s; if (o.buf.size() > 1 << 16 || Out_unbuffered()) o.flush(); }
        static bool& Out_unbuffered() { static bool u = true; return u; }
    };
    // small deterministic generator
    struct Rng
    {
        uint64_t x;
        explicit Rng(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 4; ++i) next(); }
        uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1Dull; }
        int below(int n) { return n <= 0 ? 0 : (int)((next() >> 20) % (uint64_t)n); }
        int range(int a, int b) { return a + below(b - a + 1); }
        bool chance(int num, int den) { return below(den) < num; }
    };
    // element type whose every construction and destruction is accounted for by address
    struct Live
    {
        static std::vector<void const*>& set() { static std::vector<void const*> s; return s; }
        static long long& count() { static long long c = 0; return c; }
        static long long& errors() { static long long c = 0; return c; }
    };
}
