// Uniform resource identifiers taken apart, changed and written.
//   uri OUT SHARD SHARDS SEED COUNT MAXLEN
#include <neolib/neolib.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/io/uri.hpp>
#include "trace.hpp"
using vt::E; using neolib::uri; using neolib::uri_authority;

static std::string codes(std::string const& s) { std::string r = "["; for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string((int)c); return r + "]"; }
static std::string part(std::optional<std::string> const& s) { return s ? codes(*s) : "[-1]"; }
static std::string state(uri const& u)
{
    auto const& a = u.authority();
    return "{\"scheme\":" + codes(u.scheme()) + ",\"authority\":{\"user\":" + part(a.user_information()) + ",\"host\":" + part(a.host()) + ",\"port\":" + std::to_string(a.port() ? (int)*a.port() : -1) +
        "},\"path\":" + codes(u.path()) + ",\"query\":" + codes(u.query()) + ",\"fragment\":" + codes(u.fragment()) + "}";
}
static void written(uri const& u) { auto t = u.to_string(); E("written").raw("t", codes(t)).end(); }
static void parse(uri& u, std::string const& t)
{
    bool ok = true; try { u = uri{ t }; } catch (std::exception const&) { ok = false; }
    E("parse").raw("t", codes(t)).b("ok", ok).raw("u", state(u)).end();
    if (ok) written(u);
}

int main(int argc, char** argv)
{
    vt::Out::get().open(argv[1]); E::Out_unbuffered() = false;
    int shard = atoi(argv[2]), shards = atoi(argv[3]), count = atoi(argv[5]), max = atoi(argv[6]); vt::Rng rng{ (std::uint64_t)(atoll(argv[4]) * 64 + shard) };
    E("new").end(); uri u;
    // every sequence of a few pieces
    static std::string const pieces[] = { "a", "s://", "%41", "%", "#", "/", ":", "?", "@", "[", "]", "8", "%3f", "%2F", " " };
    constexpr int N = sizeof(pieces) / sizeof(*pieces); long n = 0;
    for (int len = 0; len <= max; ++len)
    {
        long total = 1; for (int i = 0; i < len; ++i) total *= N;
        for (long k = 0; k < total; ++k) if (n++ % shards == shard) { std::string t; for (long i = 0, r = k; i < len; ++i, r /= N) t += pieces[r % N]; parse(u, t); }
    }
    // the usual shape, with all sorts of bytes, and parts set one by one
    auto text = [&](char const* without) { std::string t; for (int k = rng.below(4); k > 0; --k) { static char const odd[] = "%:/?#@[] \"<%\x7f\xc3\xff+\n\t\x0f"; char c = rng.chance(1, 2) ? odd[rng.below(sizeof odd - 1)] : "aZ09.~4fF"[rng.below(9)]; if (!std::strchr(without, c)) t += c; } if (rng.chance(1, 5)) t += "%" + std::string(1, "0247"[rng.below(4)]) + "0aFf9"[rng.below(5)]; return t; };
    static char const* const ports[] = { "", "0", "80", "65535", "65536", "99999999999", "8x", "x", " 8", "-1", "+1", "0080" };
    for (int i = 0; i < count; ++i)
    {
        switch (rng.below(8))
        {
        case 0: case 1: { std::string t; if (!rng.chance(1, 5)) t += text("/?#:") + "://"; if (rng.chance(1, 3)) t += text("/?#@") + "@"; t += rng.chance(1, 5) ? "[::1]" : text("/?#@:["); if (rng.chance(1, 3)) t += std::string(":") + ports[rng.below(12)]; if (rng.chance(3, 4)) t += "/" + text("?#"); if (rng.chance(1, 2)) t += "?" + text("#"); if (rng.chance(1, 2)) t += "#" + text(""); parse(u, t); continue; }
        case 2: { auto t = text(""); u.set_scheme(t); E("set").str("part", "scheme").raw("t", codes(t)).raw("u", state(u)).end(); break; }
        case 3: { auto t = text(""); u.set_path(t); E("set").str("part", "path").raw("t", codes(t)).raw("u", state(u)).end(); break; }
        case 4: { auto t = text(""); u.set_query(t); E("set").str("part", "query").raw("t", codes(t)).raw("u", state(u)).end(); break; }
        case 5: { auto t = text(""); u.set_fragment(t); E("set").str("part", "fragment").raw("t", codes(t)).raw("u", state(u)).end(); break; }
        case 6: { std::string t = (rng.chance(1, 2) ? text("@/?#") + "@" : "") + (rng.chance(1, 5) ? "[a:b]" : text("@:/?#[")) + (rng.chance(1, 2) ? ":7" : ""); u.set_authority(uri_authority{ t }); E("authority").raw("t", codes(t)).raw("u", state(u)).end(); break; }
        case 7: { auto t = text(""); E("code").raw("t", codes(t)).raw("decoded", codes(uri::unescaped(t))).raw("encoded", codes(uri::escaped(t))).end(); continue; }
        }
        written(u);
        if (rng.chance(1, 3)) { uri v{ u.to_string() }; u = uri{}; u = v; E("copy").raw("u", state(u)).end(); }
    }
    E("end").end();
}
