// Calls the text functions on all small inputs and on random longer ones; every call and its results is one line of the trace.
//   driver MODE OUT SHARD SHARDS DEPTH SEED COUNT
#include <neolib/neolib.hpp>
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string_ci.hpp>
#include "../common/trace.hpp"
#include <functional>
#include <algorithm>
using vt::E; using namespace std::string_literals;
typedef std::string S;
static S A(S const& s) { std::string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string((unsigned char)s[i]); return o + "]"; }
static S A16(std::u16string const& s) { std::string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string((unsigned)s[i]); return o + "]"; }
static S A32(std::u32string const& s) { std::string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + std::to_string((unsigned)s[i]); return o + "]"; }
template <typename C, typename F> static S L(C const& c, F f) { std::string o = "["; bool first = true; for (auto const& x : c) { if (!first) o += ','; first = false; o += f(x); } return o + "]"; }
static S I(long long v) { return std::to_string(v); }
static S B(bool v) { return v ? "true" : "false"; }
static long long P(size_t p) { return p == S::npos ? -1 : (long long)p; }
// all texts over an alphabet up to a length, in order of length
static std::vector<S> texts(S const& alpha, int n)
{
    std::vector<S> r{ ""s }; size_t from = 0;
    for (int k = 0; k < n; ++k) { size_t to = r.size(); for (size_t i = from; i < to; ++i) for (char c : alpha) r.push_back(r[i] + c); from = to; }
    return r;
}
static int shard, shards, depth; static long count_; static vt::Rng* R;
static bool mine() { static long n = 0; return n++ % shards == shard; }
static S rnd(S const& alpha, int n) { S s; int k = R->below(n + 1); for (int i = 0; i < k; ++i) s += alpha[R->below((int)alpha.size())]; return s; }

static void tokens(S const& x, S const& d, int m, bool k, bool w)
{
    std::vector<S> r, q;
    neolib::tokens(x, d, r, m, k, w);
    switch (R->below(4))
    {
    case 0: q = neolib::tokens(x, d, +m, +k, +w); break;
    case 1: { std::vector<std::pair<char const*, char const*>> pv; neolib::tokens(x.data(), x.data() + x.size(), d.data(), d.data() + d.size(), pv, m, k, w); for (auto& p : pv) q.push_back(neolib::to_string(p)); } break;
    case 2: q = neolib::tokens(x.begin(), x.end(), d, +m, +k, +w); break;
    default: { std::list<S> ql; neolib::tokens(x.begin(), x.end(), d, ql, m, k, w); q.assign(ql.begin(), ql.end()); } break;
    }
    E("tokens").raw("x", A(x)).raw("d", A(d)).i("m", m).b("k", k).b("w", w).raw("r", L(r, A)).raw("q", L(q, A)).end();
}
static void wild(S const& p, std::vector<S> const& ts)
{
    std::vector<bool> r;
    for (auto const& t : ts)
    {
        bool a = neolib::wildcard_match(t, p), b = neolib::wildcard_match<char>(t.data(), t.data() + t.size(), p.data(), p.data() + p.size());
        std::u16string t16(t.begin(), t.end()), p16(p.begin(), p.end());
        bool c = neolib::wildcard_match(t16, p16);
        r.push_back(a);
        if (a != b || a != c) { E("disagree").raw("p", A(p)).raw("t", A(t)).end(); }
    }
    E("wild").raw("p", A(p)).raw("t", L(ts, A)).raw("r", L(r, [](bool b) { return B(b); })).end();
}
static void repl(S const& x, S const& s, S const& y)
{
    neolib::string_spans sp, out; 
    if (!x.empty()) for (int i = R->below(4); i > 0; --i) { int a = R->below((int)x.size()), b = R->range(a + 1, (int)x.size()); sp.push_back({ (size_t)a, (size_t)b, 7u }); }
    out = sp; S t = x; bool r; bool withSpans = !sp.empty();
    if (withSpans) r = neolib::replace_string(t, s, y, &out); else r = neolib::replace_string(t, s, y);
    auto pr = [](neolib::string_span const& z) { return "[" + I((long long)z.first) + "," + I((long long)z.second) + "]"; };
    E("repl").raw("x", A(x)).raw("s", A(s)).raw("y", A(y)).raw("out", A(t)).b("r", r).raw("sp", L(sp, pr)).raw("so", L(out, pr)).end();
}
static void trim(S const& x, S const& c)
{
    S a = x, b = x, d = x;
    neolib::remove_leading(a, c); neolib::remove_trailing(b, c); neolib::remove_leading_and_trailing(d, c);
    E("trim").raw("x", A(x)).raw("c", A(c)).raw("l", A(a)).raw("t", A(b)).raw("b", A(d)).end();
    if (x.empty()) { E("runs0").i("rs", P(neolib::reverse_find_last_of(x, c, 0))).i("rf", P(neolib::reverse_find_first_of(x, c, R->chance(1, 2) ? 0 : S::npos))).end(); return; }
    std::vector<long long> rs, rf;
    for (size_t p = 0; p < x.size(); ++p) { rs.push_back(P(neolib::reverse_find_last_of(x, c, p))); rf.push_back(P(neolib::reverse_find_first_of(x, c, p + 1 == x.size() && R->chance(1, 2) ? S::npos : p))); }
    E("runs").raw("x", A(x)).raw("c", A(c)).seq("rs", rs).seq("rf", rf).end();
}
typedef std::vector<std::pair<long, long>> Sp;
static void fsa(std::vector<S> ps, S const& x)
{
    std::sort(ps.begin(), ps.end()); ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    std::vector<size_t> order; for (size_t i = 0; i < ps.size(); ++i) order.push_back(i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[R->below((int)i)]);
    std::vector<Sp> got(ps.size()); std::vector<Sp> all, mx;
    neolib::string_search_fsa f; long stale = 0;
    for (auto i : order) 
    { 
        if (R->chance(1, 4)) f.add_pattern(ps[i], [&](char const*, char const*) { ++stale; }); // replaced below
        f.add_pattern(ps[i], [&got, i, &x](char const* b, char const* e) { got[i].push_back({ b ? b - x.data() : -7, e - x.data() }); });
    }
    f.search(x, false); all = got; for (auto& g : got) g.clear();
    if (R->chance(1, 2)) f.search(x); else f.search(x, true);
    mx = got;
    if (stale) E("disagree").i("stale", stale).end();
    auto pr = [](Sp const& s) { return L(s, [](auto const& z) { return "[" + I(z.first) + "," + I(z.second) + "]"; }); };
    E("fsa").raw("ps", L(ps, A)).raw("x", A(x)).raw("all", L(all, pr)).raw("max", L(mx, pr)).end();
}
static void fmt()
{
    int na = R->range(1, 3); std::vector<S> args; for (int i = 0; i < na; ++i) args.push_back(i == 1 ? I(R->below(2000) - 1000) : rnd("xyz{}", 4));
    // automatic and explicit numbers in one format are an error of std::format; every field on its own is fine here, so keep them apart
    bool autos = R->chance(1, 2); int used = 0; std::string text, parts = "["; bool first = true;
    for (int k = R->below(7); k > 0; --k)
    {
        if (!first) parts += ','; 
        if (R->chance(1, 2) && !(autos && used == na))
        {
            int a = autos ? -1 : R->below(na); ++used; int id = autos ? used - 1 : a;
            bool spec = R->chance(1, 4); 
            text += "{" + (autos ? S{} : I(a)) + (spec ? (id == 1 ? ":d" : ":s") : "") + "}";
            parts += "{\"lit\":false,\"x\":[],\"arg\":" + I(a) + "}";
        }
        else
        {
            S lit = R->chance(1, 3) ? S("{{") : rnd("ab }", 3);
            text += lit; parts += "{\"lit\":true,\"x\":" + A(lit) + ",\"arg\":-2}";
        }
        first = false;
    }
    parts += "]";
    neolib::format_result r;
    if (na == 1) r = neolib::format(text, args[0]);
    else { int n = std::stoi(args[1]); if (na == 2) r = neolib::format(text, args[0], n); else r = neolib::format(text, args[0], n, args[2]); }
    std::vector<long long> on, after; std::vector<bool> has; std::vector<S> of;
    for (size_t p = 0; p <= r.size(); ++p)
    {
        auto s = r.arg_spanning(p); auto n = r.arg_after(p);
        on.push_back(s == r.args.end() ? -1 : s - r.args.begin()); after.push_back(n == r.args.end() ? -1 : n - r.args.begin());
    }
    for (int a = 0; a < na; ++a)
    {
        has.push_back(r.has_arg(a)); 
        try { of.push_back(S{ r.arg_span(a) }); if (!has.back()) E("disagree").i("arg", a).end(); } catch (std::format_error const&) { of.push_back("!"); if (has.back()) E("disagree").i("arg", a).end(); }
    }
    E("fmt").raw("f", A(text)).raw("parts", parts).raw("args", L(args, A)).raw("r", A(r)).raw("spans", L(r.args, [](auto const& a) { return "[" + I(a.arg) + "," + I(a.begin) + "," + I(a.end) + "]"; }))
        .seq("on", on).seq("after", after).raw("has", L(has, [](bool b) { return B(b); })).raw("of", L(of, A)).end();
}
static void esc(S const& x)
{
    E("unesc").raw("x", A(x)).raw("r", A(neolib::unescape(x))).raw("q", A(neolib::unescape(std::string_view{ x }))).end();
}
static void escaped(S const& x)
{
    int m = R->chance(1, 2) ? 0 : R->below(7); bool d = R->chance(1, 2);
    E("esc").raw("x", A(x)).i("m", m).b("d", d).raw("r", A(neolib::to_escaped_string(x, m, d))).end();
}
static void url()
{
    S x; for (int k = R->below(9); k > 0; --k) { if (R->chance(1, 2)) x += "ab/%41 "[R->below(3)]; else { static const char h[] = "0123456789abcdefABCDEF"; x += '%'; x += h[R->below(22)]; x += h[R->below(22)]; } }
    E("url").raw("x", A(x)).raw("r", A(neolib::parse_url_escapes(x))).end();
}
static void ci(S const& a, S const& b)
{
    auto ca = neolib::make_ci_string(a), cb = neolib::make_ci_string(b);
    neolib::string na{ a }, nb{ b }; neolib::i_string const& ia = na; neolib::i_string const& ib = nb;
    std::vector<bool> eq{ ca == cb, ca == b, a == cb, !(ca != b), !(a != cb), ca == std::string_view{ b }, neolib::ci_equal_to{}(ia, ib), ca.compare(cb) == 0, ca.size() == cb.size() && ca.find(cb) == 0 };
    std::vector<bool> lt{ ca < cb, ca < b, a < cb, neolib::lexicographical_compare_ignoring_case(a, b), ca.compare(cb) < 0 };
    auto pb = [](bool v) { return B(v); };
    E("ci").raw("a", A(a)).raw("b", A(b)).raw("eq", L(eq, pb)).raw("lt", L(lt, pb)).b("lb", neolib::ci_less{}(ia, ib)).end();
}
static void cases(S const& x)
{
    S lo = neolib::to_lower(x), up = neolib::to_upper(x);
    if (x.size() == 1 && (neolib::to_lower(x[0]) != lo[0] || neolib::to_upper(x[0]) != up[0])) E("disagree").raw("x", A(x)).end();
    E("case").raw("x", A(x)).raw("lo", A(lo)).raw("up", A(up)).end();
}
static void num()
{
    using namespace neolib;
    uint64_t v = R->next(); int sh = R->below(64); v >>= sh; int64_t s = (int64_t)v * (R->chance(1, 2) ? -1 : 1);
    if (R->chance(1, 10)) { static const int64_t lim[] = { 0, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX, INT64_MIN, 1, -1 }; s = lim[R->below(10)]; v = (uint64_t)s; }
    std::vector<S> r;
    S x = R->chance(1, 2) ? std::to_string(s) : std::to_string(v); bool neg = x[0] == '-'; bool isS = x == std::to_string(s);
    if (isS) { r.push_back(int64_to_string<char>(string_to_int64(x))); r.push_back(int64_to_string<char>(string_to_int64(std::string_view{ x }))); }
    if (!neg) { uint64_t u = std::stoull(x); r.push_back(uint64_to_string<char>(string_to_uint64(x))); r.push_back(uint64_to_string<char>(string_to_uint64(std::string_view{ x }))); 
        r.push_back(uint64_to_string<char>(string_to_uint64(uint64_to_string<char>(u, 16), 16))); r.push_back(uint64_to_string<char>(string_to_uint64(uint64_to_string<char>(u, 8), 8)));
        if (u <= UINT32_MAX) { r.push_back(uint32_to_string<char>(string_to_uint32(x))); r.push_back(uint32_to_string<char>(string_to_uint32(std::string_view{ x }))); r.push_back(uint32_to_string<char>(string_to_uint32(uint32_to_string<char>((uint32_t)u, 16, 10), 16))); } }
    if (isS && s >= INT32_MIN && s <= INT32_MAX) { r.push_back(int32_to_string<char>(string_to_int32(x))); r.push_back(int32_to_string<char>(string_to_int32(std::string_view{ x }))); }
    E("num").raw("x", A(x)).raw("r", L(r, A)).end();
}
static void u8(S const& x)
{
    using namespace neolib;
    std::vector<bool> ok{ check_utf8(x), check_utf8(std::string_view{ x }), check_utf8(static_cast<i_string const&>(neolib::string{ x })), check_utf8(static_cast<i_string_view const&>(neolib::string_view{ x.data(), x.size() })) };
    std::vector<long long> at32, at16, to16; bool same = true;
    std::u32string a = utf8_to_utf32(x), b = utf8_to_utf32(std::string_view{ x }), c = utf8_to_utf32(x, [&](size_t f, size_t t) { if (t != at32.size()) same = false; at32.push_back(f); });
    std::u16string p = utf8_to_utf16(x), q = utf8_to_utf16(x, [&](size_t f, size_t t) { at16.push_back(f); to16.push_back(t); });
    if (!same) E("disagree").raw("x", A(x)).end();
    E("u8").raw("x", A(x)).raw("ok", L(ok, [](bool v) { return B(v); })).raw("u32", A32(a)).raw("v32", A32(b)).raw("w32", A32(c)).seq("at32", at32).raw("u16", A16(p)).raw("v16", A16(q)).seq("at16", at16).seq("to16", to16)
        .raw("back32", A(utf32_to_utf8(a))).raw("back16", A(utf16_to_utf8(p))).end();
}
static void u16(std::u16string const& x)
{
    using namespace neolib;
    utf16_to_utf8_character_map m; S r = utf16_to_utf8(x), q = utf16_to_utf8(x, m); std::vector<long long> map; bool keys = true;
    for (auto const& e : m) { if (e.first != map.size()) keys = false; map.push_back(e.second); }
    if (!keys) E("disagree").raw("x", A16(x)).end();
    E("u16").raw("x", A16(x)).raw("r", A(r)).raw("q", A(q)).seq("map", map).raw("back", A16(utf8_to_utf16(r))).end();
}
int main(int, char** v)
{
    S mode = v[1]; vt::Out::get().open(v[2]); E::Out_unbuffered() = false;
    shard = atoi(v[3]); shards = atoi(v[4]); depth = atoi(v[5]); vt::Rng r(atoll(v[6]) * 64 + shard); R = &r; count_ = atol(v[7]);
    if (mode == "tokens")
    {
        for (auto const& d : { ""s, "1"s, "12"s, "11"s, "121"s }) for (auto const& x : texts("a12", depth)) if (mine()) for (int m = 0; m < 4; ++m) for (int k = 0; k < 2; ++k) for (int w = 0; w < 2; ++w) tokens(x, d, m, k, w);
        for (long i = 0; i < count_; ++i) tokens(rnd("aab12", 18), rnd("123", 3), R->below(9), R->chance(1, 2), R->chance(1, 2));
    }
    else if (mode == "wild")
    {
        auto ts = texts("ab", depth + 1); for (auto const& p : texts("ab*?", depth)) if (mine()) wild(p, ts);
        for (long i = 0; i < count_; ++i)
        {
            S p = rnd("abc**?", 9); std::vector<S> t; 
            for (int k = 0; k < 12; ++k) // texts made from the pattern, so that many of them match
            {
                S x; for (char c : p) if (c == '*') x += rnd("abc", 4); else if (c == '?') x += "abc"[R->below(3)]; else x += c;
                if (R->chance(1, 3) && !x.empty()) x[R->below((int)x.size())] = "abc*?"[R->below(5)];
                if (R->chance(1, 6)) x += "abc"[R->below(3)]; 
                t.push_back(x);
            }
            wild(p, t);
        }
    }
    else if (mode == "repl")
    {
        for (auto const& x : texts("ab", depth)) for (auto const& s : texts("ab", 3)) if (mine()) for (auto const& y : { ""s, "a"s, "b"s, "ab"s, "aba"s, "bbbb"s }) repl(x, s, y);
        for (long i = 0; i < count_; ++i) repl(rnd("aab", 24), rnd("ab", 3), rnd("abc", 4));
        for (auto const& x : texts("ab ", depth)) for (auto const& c : { ""s, " "s, "a "s, "ab "s }) if (mine()) trim(x, c);
        for (long i = 0; i < count_; ++i) trim(rnd("ab  \t", 14), rnd(" \ta", 3));
    }
    else if (mode == "fsa")
    {
        S al = "ab*?"; auto good = [](S const& p) { return !p.empty() && p.find("**") == S::npos; };
        auto ps = texts(al, 3); ps.erase(std::remove_if(ps.begin(), ps.end(), [&](S const& p) { return !good(p); }), ps.end());
        for (auto const& p : ps) if (mine()) for (auto const& x : texts("ab", depth)) fsa({ p }, x);
        for (long i = 0; i < count_; ++i)
        {
            std::vector<S> q; for (int k = R->range(1, 6); k > 0; --k) { S p; do p = R->chance(1, 3) && !q.empty() ? q.back() + rnd("ab*?", 2) : rnd("abb*?a", 4); while (!good(p)); q.push_back(p); }
            fsa(q, rnd("aab", 9));
        }
    }
    else if (mode == "misc")
    {
        for (long i = 0; i < count_; ++i) fmt();
        for (auto const& x : texts("\\nx4\"", depth)) if (mine()) esc(x);
        for (long i = 0; i < count_; ++i) { esc(rnd("\\\\\\nrtx\"'0aFgZ", 12)); S y; for (int k = R->below(9); k > 0; --k) y += R->chance(1, 2) ? (char)R->below(128) : (char)R->below(256); escaped(y); url(); }
        for (long i = 0; i < count_; ++i) { S a = rnd("abABzZ[_{1 ", 5), b; if (R->chance(1, 2)) b = rnd("abABzZ[_{1 ", 5); else { b = a; for (auto& c : b) if (R->chance(1, 2)) c = R->chance(1, 2) ? std::toupper(c) : std::tolower(c); } ci(a, b); }
        for (long i = 0; i < count_; ++i) { S x; for (int k = R->below(9); k > 0; --k) x += (char)R->range(32, 126); cases(x); num(); }
    }
    else if (mode == "unicode")
    {
        // bytes at every boundary of the encoding
        static const unsigned char edge[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF };
        S al(reinterpret_cast<char const*>(edge), sizeof edge);
        for (auto const& x : texts(al, 2)) if (mine()) u8(x);
        for (char a : S("\xE0\xE1\xEC\xED\xEF\xF0\xF1\xF4\xF5\xF7")) for (char b : al) for (char c : S("\x41\x80\xBF\xBD\xC2")) for (char d : S("\x80\xBF\x41\xF0")) if (mine()) u8(S{ a, b, c, d });
        static const char32_t cps[] = { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0x20AC };
        auto cp = [&]() -> char32_t { if (R->chance(2, 3)) return cps[R->below(14)]; for (;;) { char32_t c = R->below(0x110000); if (c < 0xD800 || c > 0xDFFF) return c; } };
        auto enc = [](char32_t c) { S s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
            else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; };
        for (long i = 0; i < count_; ++i)
        {
            S x; std::u16string y;
            for (int k = R->below(9); k > 0; --k) { auto c = cp(); x += enc(c); if (c < 0x10000) y += (char16_t)c; else { y += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); y += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
            u16(y); u8(x);
            for (int k = R->below(3); k > 0 && !x.empty(); --k) switch (R->below(3)) { case 0: x[R->below((int)x.size())] = al[R->below((int)al.size())]; break; case 1: x.erase(R->below((int)x.size()), 1); break; default: x.insert(R->below((int)x.size()), 1, al[R->below((int)al.size())]); }
            u8(x);
        }
    }
    return 0;
}
