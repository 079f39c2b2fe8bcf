// ZIP archives and gzip data, sound and damaged: what is listed, what is extracted, what is reported.
//   archive zip|gzip OUT SHARD SHARDS SEED COUNT SCRATCH
#include <neolib/neolib.hpp>
#include <neolib/file/zip.hpp>
#include <neolib/file/gunzip.hpp>
#include <zlib.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include "trace.hpp"
using vt::E;
struct G : vt::Rng { using vt::Rng::Rng; int operator()(int n) { return below(n); } };
namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;

static std::string codes(Bytes const& s) { std::string o = "["; for (auto c : s) { if (o.size() > 1) o += ','; o += std::to_string(c); } return o + "]"; }
static Bytes bytes(std::string const& s) { return Bytes(s.begin(), s.end()); }
static void put(Bytes& b, uint64_t v, int n) { while (n--) { b.push_back(v & 255); v >>= 8; } }
static void set(Bytes& b, std::size_t p, uint64_t v, int n) { while (n--) { b.at(p++) = v & 255; v >>= 8; } }
static uint32_t get(Bytes const& b, std::size_t p, int n) { uint32_t v = 0; for (int i = n; i--;) v = (v << 8) | b.at(p + i); return v; }
static uint32_t crc(Bytes const& b) { return ::crc32(0, b.empty() ? reinterpret_cast<Bytef const*>("") : b.data(), b.size()); }
static std::string four(uint32_t v) { Bytes b; put(b, v, 4); return codes(b); }
static Bytes deflated(Bytes const& in, int level)
{
    z_stream z{}; deflateInit2(&z, level, Z_DEFLATED, -MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
    Bytes out(in.size() + 100), from(in); from.push_back(0);
    z.next_in = from.data(); z.avail_in = in.size(); z.next_out = out.data(); z.avail_out = out.size();
    ::deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
// what a stretch of deflated bytes stands for, if it ends properly; how much of it that takes
static std::optional<Bytes> inflated(Bytes const& b, std::size_t at, std::size_t n, std::size_t limit, std::size_t& used)
{
    z_stream z{}; if (inflateInit2(&z, -MAX_WBITS) != Z_OK) return {};
    Bytes out(limit + 1), from(b.begin() + at, b.begin() + at + n); from.push_back(0);
    z.next_in = from.data(); z.avail_in = n; z.next_out = out.data(); z.avail_out = limit + 1;
    int r = ::inflate(&z, Z_FINISH); used = z.total_in; out.resize(z.total_out); inflateEnd(&z);
    if (r != Z_STREAM_END) return {};
    return out;
}
static Bytes content(G& g)
{
    Bytes c; int n = g(5) == 0 ? 0 : g(3) == 0 ? 60 + g(200) : g(24); int kinds = 1 + g(6);
    for (int i = 0; i < n; ++i) c.push_back("abc \n0"[g(kinds)]);
    return c;
}
struct Item { std::string name; int method; Bytes data; bool descriptor; };
static std::vector<std::string> const NAMES{ "a", "b", "a", "b.txt", "d/c", "e/", "../up", "d/../../up", "../../x", "d/../q", "x..y" };
static Bytes archive(std::vector<Item> const& items, G& g)
{
    Bytes z, dir;
    for (auto const& i : items)
    {
        Bytes packed = i.method == 8 ? deflated(i.data, 1 + g(9)) : i.data; uint32_t sum = crc(i.data); std::size_t off = z.size(); int lx = g(4) ? 0 : g(12) ? 1 + g(5) : 250 + g(20), cx = g(4) ? 0 : g(12) ? 1 + g(5) : 250 + g(20), cc = g(5) ? 0 : g(12) ? 1 + g(4) : 250 + g(20);
        put(z, 0x04034b50, 4); put(z, 20, 2); put(z, i.descriptor ? 8 : 0, 2); put(z, i.method, 2); put(z, 0, 4);
        put(z, i.descriptor ? 0 : sum, 4); put(z, i.descriptor ? 0 : packed.size(), 4); put(z, i.descriptor ? 0 : i.data.size(), 4);
        put(z, i.name.size(), 2); put(z, lx, 2); z.insert(z.end(), i.name.begin(), i.name.end()); z.insert(z.end(), lx, 'X'); z.insert(z.end(), packed.begin(), packed.end());
        if (i.descriptor) { put(z, 0x08074b50, 4); put(z, sum, 4); put(z, packed.size(), 4); put(z, i.data.size(), 4); }
        put(dir, 0x02014b50, 4); put(dir, 20, 2); put(dir, 20, 2); put(dir, i.descriptor ? 8 : 0, 2); put(dir, i.method, 2); put(dir, 0, 4);
        put(dir, sum, 4); put(dir, packed.size(), 4); put(dir, i.data.size(), 4); put(dir, i.name.size(), 2); put(dir, cx, 2); put(dir, cc, 2); put(dir, 0, 8); put(dir, off, 4);
        dir.insert(dir.end(), i.name.begin(), i.name.end()); dir.insert(dir.end(), cx, 'Y'); dir.insert(dir.end(), cc, 'Z');
    }
    std::size_t at = z.size(); z.insert(z.end(), dir.begin(), dir.end());
    put(z, 0x06054b50, 4); put(z, 0, 4); put(z, items.size(), 2); put(z, items.size(), 2); put(z, dir.size(), 4); put(z, at, 4); put(z, 0, 2);
    return z;
}
// damage an archive: a field of the end record, of a directory entry, of a local header; some byte; a cut; extra bytes
static void damage(Bytes& z, G& g)
{
    std::size_t end = z.size() - 22, dir = get(z, end + 16, 4), n = get(z, end + 8, 2);
    static uint64_t const V[] = { 0, 1, 2, 30, 46, 255, 256, 65535, 100000, 0x7fffffff, 0x80000000, 0xffffffff };
    auto value = [&](uint64_t old, std::size_t most) { uint64_t v = g(2) ? V[g(12)] : old + g(5) - 2; return v > most && v < 0x7fffffff ? most : v; };
    auto field = [&](std::size_t p, int k, bool size) { uint64_t v = value(get(z, p, k), 100000); if (size && v > 200000) v = 200000; set(z, p, v, k); };
    switch (g(9))
    {
    case 0: { static std::size_t const F[] = { 0, 8, 12 }; int f = g(3); field(end + F[f], f == 1 ? 2 : 4, false); break; }
    case 1: case 2: if (n) { std::size_t p = dir; for (int k = g(n); k--;) p += 46 + get(z, p + 28, 2) + get(z, p + 30, 2) + get(z, p + 32, 2);
        static std::pair<int, int> const F[] = { {0, 4}, {10, 2}, {16, 4}, {20, 4}, {24, 4}, {28, 2}, {30, 2}, {32, 2}, {42, 4} }; auto [o, k] = F[g(9)]; field(p + o, k, o == 24); } break;
    case 3: case 4: if (n) { std::size_t p = dir; for (int k = g(n); k--;) p += 46 + get(z, p + 28, 2) + get(z, p + 30, 2) + get(z, p + 32, 2); p = get(z, p + 42, 4);
        static std::pair<int, int> const F[] = { {0, 4}, {6, 2}, {8, 2}, {14, 4}, {18, 4}, {22, 4}, {26, 2}, {28, 2} }; auto [o, k] = F[g(8)]; field(p + o, k, o == 22); } break;
    case 5: case 6: { std::size_t p = g(z.size()); z[p] ^= 1 << g(8); break; }
    case 7: { std::size_t k = g(3) ? 1 + g(30) : g(z.size() + 1); if (k > z.size()) k = z.size(); if (g(2)) z.erase(z.begin(), z.begin() + k); else z.resize(z.size() - k); break; }
    default: { Bytes x(1 + g(4), 'c'); z.insert(g(2) ? z.begin() : z.end(), x.begin(), x.end()); }
    }
    // no size so large that setting the memory aside for it is what is tested
    for (std::size_t p = 0; p + 46 <= z.size(); ++p) if (get(z, p, 4) == 0x02014b50 && get(z, p + 24, 4) > 200000) set(z, p + 24, 200000, 4);
    for (std::size_t p = 0; p + 30 <= z.size(); ++p) if (get(z, p, 4) == 0x04034b50 && get(z, p + 22, 4) > 200000) set(z, p + 22, 200000, 4);
}
// what the bytes an entry refers to stand for: [start, length, method, unpacks, size, checksum]
struct Fact { std::size_t start = 0, size = 0; int method = 0; std::optional<Bytes> out; };
static std::vector<Fact> facts(Bytes const& z)
{
    std::vector<Fact> r; if (z.size() < 22) return r;
    std::size_t end = z.size() - 22; uint64_t dirSize = get(z, end + 12, 4); if (dirSize > end) return r;
    std::size_t p = end - dirSize; int n = get(z, end + 8, 2);
    for (int k = 0; k < n && p + 46 <= end && get(z, p, 4) == 0x02014b50; ++k)
    {
        Fact f; uint64_t off = get(z, p + 42, 4);
        if (off + 30 <= z.size() && get(z, off, 4) == 0x04034b50)
        {
            f.start = off + 30 + get(z, off + 26, 2) + get(z, off + 28, 2); f.size = get(z, p + 20, 4); f.method = get(z, off + 8, 2);
            if (f.start + f.size <= z.size())
            {
                if (f.method == 0) f.out = Bytes(z.begin() + f.start, z.begin() + f.start + f.size);
                else if (f.method == 8) { std::size_t used; f.out = inflated(z, f.start, f.size, 300000, used); }
            }
        }
        r.push_back(f); p += 46 + get(z, p + 28, 2) + get(z, p + 30, 2) + get(z, p + 32, 2);
    }
    return r;
}
static std::string factsOf(std::vector<Fact> const& fs)
{
    std::string o = "["; for (auto const& f : fs) { if (o.size() > 1) o += ','; uint32_t cap = 1000000000; o += "[" + std::to_string(std::min<std::size_t>(f.start, cap)) + "," + std::to_string(std::min<std::size_t>(f.size, cap)) + "," + std::to_string(f.method) + "," + (f.out ? "true" : "false") + "," + std::to_string(f.out ? f.out->size() : 0) + "," + four(f.out ? crc(*f.out) : 0) + "]"; }
    return o + "]";
}
static std::string names(neolib::zip const& z) { std::string o = "["; for (std::size_t i = 0; i < z.file_count(); ++i) o += (i ? "," : "") + codes(bytes(z.file_path(i))); return o + "]"; }

static void zips(G& g, int count, fs::path const& scratch)
{
    fs::path target = scratch / "1/2/3/4/5/6/target";
    for (int run = 0; run < count; ++run)
    {
        std::vector<Item> items; for (int n = g(4); n--;) items.push_back(Item{ NAMES[g(g(3) ? 4 : NAMES.size())], g(6) == 0 ? 12 : g(2) ? 8 : 0, content(g), g(4) == 0 });
        auto bytesOf = std::make_unique<Bytes>(archive(items, g)); if (run % 3) { damage(*bytesOf, g); if (g(6) == 0 && bytesOf->size() > 60 && get(*bytesOf, bytesOf->size() - 22, 4) == 0x06054b50) { auto keep = *bytesOf; try { damage(*bytesOf, g); } catch (std::out_of_range const&) { *bytesOf = keep; } } }
        Bytes const z = *bytesOf; auto fx = facts(z); int how = g(4); std::unique_ptr<neolib::zip> zip;
        if (how == 0) { fs::path p = scratch / "archive.zip"; { std::ofstream o(p, std::ios::binary); o.write(reinterpret_cast<char const*>(z.data()), z.size()); } zip = std::make_unique<neolib::zip>(p.string()); fs::remove(p); }
        else if (how == 1) { zip = std::make_unique<neolib::zip>(*bytesOf); bytesOf.reset(); }
        else if (how == 2) { zip = std::make_unique<neolib::zip>(std::move(*bytesOf)); bytesOf.reset(); }
        else zip = std::make_unique<neolib::zip>(static_cast<void const*>(bytesOf->data()), bytesOf->size());
        E("open").i("how", how).raw("bytes", codes(z)).raw("facts", factsOf(fx)).b("ok", zip->ok()).raw("names", names(*zip)).end();
        for (int ops = 2 + g(5); ops--;)
        {
            int k = g(zip->file_count() + 1); if (g(12) == 0) k += g(3);
            auto expected = [&](Bytes const& b) { return (std::size_t)k < fx.size() && fx[k].out && *fx[k].out == b; };
            switch (g(7))
            {
            case 0: case 1: { Bytes b; if (g(2)) b = bytes("before"); bool r = zip->extract_to(k, b); E("get").i("k", k + 1).b("ret", r).b("same", expected(b)).raw("sum", four(crc(b))).i("size", b.size()).b("ok", zip->ok()).end(); break; }
            case 2: { std::string s = zip->extract_to_string(k); E("text").i("k", k + 1).b("same", expected(bytes(s))).raw("sum", four(crc(bytes(s)))).i("size", s.size()).b("ok", zip->ok()).end(); break; }
            case 3:
            {
                fs::remove_all(scratch / "1"); fs::create_directories(target); if (g(2)) fs::create_directories(target / "d");
                if (std::size_t(k) < zip->file_count() && zip->file_path(k).size() > 16) break; // a long name, made by damage: may lead out of the scratch directory
                bool r = zip->extract(k, target.string()); int inside = 0, outside = 0; bool same = false; std::string at;
                for (auto const& f : fs::recursive_directory_iterator(scratch)) if (f.is_regular_file())
                {
                    auto rel = f.path().lexically_relative(target).generic_string();
                    if (rel.rfind("..", 0) == 0 && (rel.size() == 2 || rel[2] == '/')) ++outside; else { ++inside; at = rel; std::ifstream in(f.path(), std::ios::binary); Bytes b{ std::istreambuf_iterator<char>(in), {} }; same = expected(b); }
                }
                E("file").i("k", k + 1).b("ret", r).i("inside", inside).i("outside", outside).b("same", same).raw("at", codes(bytes(at))).b("ok", zip->ok()).end();
                fs::remove_all(scratch / "1"); break;
            }
            case 4: { std::string n = g(3) && zip->file_count() ? zip->file_path(g(zip->file_count())) : NAMES[g(NAMES.size())]; int r = 0; try { r = zip->index_of(n) + 1; } catch (neolib::zip::file_not_found const&) {} E("index").raw("name", codes(bytes(n))).i("r", r).end(); break; }
            case 5: { int m = g(4); auto other = m == 0 ? std::make_unique<neolib::zip>(*zip) : m == 1 ? std::make_unique<neolib::zip>(std::move(*zip)) : std::make_unique<neolib::zip>(Bytes{});
                if (m == 2) *other = *zip; else if (m == 3) *other = std::move(*zip); zip = std::move(other);
                E("copy").i("m", m).b("ok", zip->ok()).raw("names", names(*zip)).end(); break; }
            default: E("look").b("ok", zip->ok()).raw("names", names(*zip)).end();
            }
        }
    }
}
static void gzips(G& g, int count, bool huge)
{
    for (int run = 0; run < count; ++run)
    {
        Bytes c = content(g), z; int flags = g(2) ? 0 : g(32);
        put(z, 0x1f, 1); put(z, 0x8b, 1); put(z, 8, 1); put(z, flags, 1); put(z, g(256), 1); put(z, g(65536), 2); put(z, g(256), 1); put(z, 0, 1); put(z, 3, 1);
        if (flags & 4) { int n = g(2) ? g(4) : g(8) ? g(20) : 250 + g(300); put(z, n, 2); for (int i = 0; i < n; ++i) put(z, g(3) ? 0 : g(256), 1); }
        for (int f : { 8, 16 }) if (flags & f) { for (int n = g(4); n--;) put(z, 'n', 1); put(z, 0, 1); }
        if (flags & 2) put(z, ::crc32(0, z.data(), z.size()) & 0xffff, 2);
        std::size_t head = z.size(); Bytes d = deflated(c, 1 + g(9)); z.insert(z.end(), d.begin(), d.end()); put(z, crc(c), 4); put(z, c.size(), 4);
        if (run % 3) switch (g(7))
        {
        case 0: z[g(4)] ^= 1 << g(8); break;
        case 1: z[g(head)] ^= 1 << g(8); break;
        case 2: z[head + g(d.size())] ^= 1 << g(8); break;
        case 3: z[z.size() - 8 + g(4)] ^= 1 << g(8); break;
        case 4: set(z, z.size() - 4, c.size() + g(7) - 3, 4); break;
        case 5: z.resize(g(z.size() + 1)); break;
        default: { Bytes x(1 + g(3), g(2) ? 0 : 'x'); z.insert(z.begin() + (g(2) ? z.size() - 8 : z.size()), x.begin(), x.end()); }
        }
        if (z.size() >= 4 && z.back() > 0 ) { z[z.size() - 1] = huge ? 0x80 : 0; huge = false; }
        if (z.size() >= 4 && z[z.size() - 2] > 15) z[z.size() - 2] &= 15;
        // where the data start, by the header; what they stand for
        std::size_t p = 10; bool bad = z.size() < 18;
        auto skip = [&]() { while (p < z.size() && z[p]) ++p; ++p; };
        if (!bad && (z[3] & 4)) p += 2 + (p + 2 <= z.size() ? get(z, p, 2) : 0);
        if (!bad && (z[3] & 8)) skip();
        if (!bad && (z[3] & 16)) skip();
        if (!bad && (z[3] & 2)) p += 2;
        bad = bad || p + 8 > z.size(); std::optional<Bytes> out; std::size_t used = 0, n = bad ? 0 : z.size() - 8 - p;
        if (!bad) out = inflated(z, p, n, 300000, used);
        std::vector<char> in(z.begin(), z.end()); bool threw = false, ok = false, same = false; std::size_t size = 0;
        try { neolib::gunzip u{ in }; ok = u.ok(); size = u.uncompressed_data().size(); same = out && Bytes(u.uncompressed_data().begin(), u.uncompressed_data().end()) == *out; } catch (std::exception const&) { threw = true; }
        E("gunzip").raw("bytes", codes(z)).i("start", bad ? -1 : (long long)p).b("ends", !!out).b("whole", used == n).raw("sum", four(out ? crc(*out) : 0)).raw("length", four(out ? out->size() : 0)).b("threw", threw).b("ok", ok).b("same", same).i("size", size).end();
    }
}
int main(int argc, char** argv)
{
    std::string mode = argv[1]; vt::Out::get().open(argv[2]); int shard = atoi(argv[3]); G g{ (uint64_t)atoll(argv[5]) * 1000 + shard + 77 }; int count = atoi(argv[6]);
    if (mode == "zip")
    {
        fs::path scratch = fs::path(argv[7]) / ("archive-" + std::to_string(shard)); fs::remove_all(scratch); fs::create_directories(scratch);
        zips(g, count, scratch); fs::remove_all(scratch);
    }
    else gzips(g, count, shard == 0);
}
