// LEB128 numbers, UUIDs, versions and dumps: written, read back and compared.
//   encoded OUT SHARD SHARDS SEED COUNT
#include <neolib/neolib.hpp>
#include <neolib/core/uuid.hpp>
#include <neolib/core/leb128.hpp>
#include <neolib/app/version.hpp>
#include <neolib/file/hexdump.hpp>
#include <set>
#include "trace.hpp"
using vt::E;
static vt::Rng rng(1);
static std::string codes(std::string const& s) { std::string o = "["; for (unsigned char c : s) { if (o.size() > 1) o += ','; o += std::to_string((int)c); } return o + "]"; }
static std::string bytes(uint64_t v, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> 8 * i); return codes(s); }
template <typename V> static std::string code(V const& v) { return std::visit([](auto const& a) { return codes(std::string(a.begin(), a.end())); }, v); }
static void leb(uint64_t v)
{
    using namespace neolib::leb128;
    E("uleb").raw("v", bytes(v, 8)).raw("code", code(ULEB128(v))).end();
    E("sleb").raw("v", bytes(v, 8)).raw("code", code(SLEB128((int64_t)v))).end();
    E("uleb").raw("v", bytes((uint32_t)v, 4)).raw("code", code(LEB128((uint32_t)v))).end();
}
// what the stream writes afterwards is what it would have written before
static char const* const STREAMS[] = { "dec", "hex", "HEX", "oct", "fill" };
static void style(std::ostream& o, int how) { switch (how) { case 1: o << std::hex; break; case 2: o << std::hex << std::uppercase << std::showbase; break; case 3: o << std::oct; break; case 4: o.fill('*'); break; } }
template <typename F> static void left(int how, F write)
{
    std::ostringstream o, p; style(o, how); style(p, how);
    write(o); auto n = o.str().size(); o << 255 << ' '; o.width(4); o << 10; p << 255 << ' '; p.width(4); p << 10;
    E("left").str("how", STREAMS[how]).raw("before", codes(p.str())).raw("after", codes(o.str().substr(n))).end();
}
static std::string octets(neolib::uuid const& u)
{
    std::string s; for (int i = 3; i >= 0; --i) s += (char)(u.part1 >> 8 * i);
    for (auto p : { u.part2, u.part3, u.part4 }) { s += (char)(p >> 8); s += (char)p; }
    for (auto b : u.part5) s += (char)b; return s;
}
static neolib::uuid some()
{
    auto b = [&]() -> uint32_t { return rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? rng.below(256) : 127 + rng.below(3); };
    neolib::uuid u; u.part1 = b() << 24 | b() << 16 | b() << 8 | b(); u.part2 = b() << 8 | b(); u.part3 = b() << 8 | b(); u.part4 = b() << 8 | b(); for (auto& x : u.part5) x = b(); return u;
}
static void uuids()
{
    auto u = some(); std::string t = neolib::uuid_to_string(u);
    std::istringstream is{ t + " next" }; neolib::uuid v{}; std::string rest; is >> v >> rest;
    E("uuid").raw("u", codes(octets(u))).raw("t", codes(t)).b("same", v == u && rest == "next" && neolib::make_uuid(t) == u).end();
    std::string m = t; for (auto& c : m) if (rng.chance(1, 2)) c = std::tolower(c);
    E("uuidread").raw("t", codes(m)).raw("u", codes(octets(neolib::make_uuid(m)))).end();
    auto w = some(); if (rng.chance(2, 3)) { w = u; switch (rng.below(7)) { case 0: w.part1 = some().part1; break; case 1: w.part2 = some().part2; break; case 2: w.part3 = some().part3; break; case 3: w.part4 = some().part4; break; case 4: case 5: w.part5[rng.below(6)] = rng.below(256); break; } if (rng.chance(1, 2)) w.part5[5] ^= rng.below(2); }
    E("uuidorder").raw("a", codes(octets(u))).raw("b", codes(octets(w))).b("less", u < w).b("eq", u == w).b("more", u > w).b("hash", std::hash<neolib::uuid>{}(u) == std::hash<neolib::uuid>{}(w)).end();
    left(rng.below(5), [&](std::ostream& o) { o << u; });
}
static std::string digits(uint32_t n) { std::string s; for (char c : std::to_string(n)) s += (char)(c - '0'); return codes(s); }
static std::string shown(neolib::i_version const& v)
{
    return "{\"n\":[" + digits(v.version_major()) + "," + digits(v.version_minor()) + "," + digits(v.version_maintenance()) + "," + digits(v.version_build()) + "],\"name\":" + codes(v.version_name().to_std_string()) + "}";
}
static uint32_t number() { switch (rng.below(5)) { case 0: return 0; case 1: return rng.below(4); case 2: return 9 + rng.below(3); case 3: return rng.next(); default: return 4294967295u - rng.below(2); } }
static neolib::version release()
{
    static char const* const names[] = { "", "", "beta", "b", "rc 1", "v2.0 final.", "a.b", "2nd", ".x", " y" };
    return neolib::version{ number(), number(), number(), number(), names[rng.below(10)] };
}
static void versions()
{
    auto v = release(); std::ostringstream full; full << v; neolib::i_version const& iv = v; std::string const brief = neolib::to_string(iv);
    neolib::version copy{ iv };
    E("version").raw("v", shown(v)).raw("t", codes(full.str())).raw("brief", codes(brief)).raw("copy", shown(copy)).end();
    // a name that starts like a number reads back after four numbers only
    for (auto const& t : { full.str(), v.version_build() == 0 && v.version_name().to_std_string()[0] == '2' ? full.str() : brief }) E("versionread").raw("t", codes(t)).raw("v", shown(neolib::version{ t })).end();
    auto w = release(); if (rng.chance(2, 3)) { uint32_t p[4] = { v.version_major(), v.version_minor(), v.version_maintenance(), v.version_build() }; for (int k = rng.below(3); k > 0; --k) p[rng.below(4)] = number(); w = neolib::version{ p[0], p[1], p[2], p[3], rng.chance(1, 2) ? "z" : "" }; }
    E("versionorder").raw("a", shown(v)).raw("b", shown(w)).b("less", v < w).b("eq", v == w).b("more", v > w).end();
    left(rng.below(5), [&](std::ostream& o) { o << v; });
}
static void dumps()
{
    std::string b; for (int n = rng.below(40); n > 0; --n) b += (char)(rng.chance(1, 3) ? "\0\x1f\x20\x7f\x80\xff"[rng.below(6)] : 'a' + rng.below(26));
    int w = 1 + rng.below(18); std::ostringstream o;
    if (w == 16) neolib::hex_dump(b.data(), b.size(), o); else neolib::hex_dump(b.data(), b.size(), o, w);
    E("dump").raw("b", codes(b)).i("w", w).raw("t", codes(o.str())).end();
    left(rng.below(5), [&](std::ostream& s) { neolib::hex_dump(b.data(), b.size(), s, w); });
}
int main(int argc, char** argv)
{
    vt::Out::get().open(argv[1]); int shard = std::atoi(argv[2]), shards = std::atoi(argv[3]); long count = std::atol(argv[5]); rng = vt::Rng(std::atol(argv[4]) * 1000 + shard);
    long k = 0; auto mine = [&]() { return k++ % shards == shard; };
    // around every power of two, and small numbers of either sign
    for (int b = 0; b < 64; ++b) for (int64_t d = -2; d <= 2; ++d) { if (mine()) leb((1ull << b) + d); if (mine()) leb(-(1ull << b) + d); }
    for (int64_t v = -300; v <= 300; ++v) if (mine()) leb(v);
    std::set<std::string> seen;
    for (long i = 0; i < count; ++i)
    {
        leb(((uint64_t)rng.next() << 32 | (uint32_t)rng.next()) >> rng.below(64));
        uuids(); versions(); if (i % 4 == 0) dumps();
        // a line of text over the letters versions are made of
        std::string t; int parts = rng.below(5); for (int p = 0; p < parts; ++p) t += (p ? "." : "") + std::to_string(number());
        if (parts && rng.chance(1, 2)) t += std::string(" ") + std::array<char const*, 5>{ "beta", "b.2", "rc 1 2", "x.", "v1" }[rng.below(5)];
        E("versionread").raw("t", codes(t)).raw("v", shown(neolib::version{ t })).end();
        auto g = neolib::generate_uuid(); E("generated").raw("u", codes(octets(g))).b("fresh", seen.insert(octets(g)).second).end();
    }
    E("end").end();
}
