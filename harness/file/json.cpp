// JSON documents: what texts are read as, what edits do to documents, how they are written.
//   json texts|numbers|strings|random|edit OUT SHARD SHARDS DEPTH SEED COUNT
#include <neolib/neolib.hpp>
#include <neolib/file/json.hpp>
#include <charconv>
#include <functional>
#include <sstream>
#include "trace.hpp"
using vt::E;
using namespace neolib;
using nokw_json = basic_json<json_syntax::StandardNoKeywords>;

static std::string codes(std::string const& s)
{
    std::string o = "["; for (unsigned char c : s) { if (o.size() > 1) o += ','; o += std::to_string(c); } return o + "]";
}
static std::string number(double d) { char b[64]; return std::string(b, std::to_chars(b, b + 64, d).ptr); }
template <class J> struct Seen
{
    using V = typename J::json_value; using S = typename J::json_string; using K = typename J::json_keyword;
    static std::string str(S const& s) { return std::string(s.begin(), s.end()); }
    static char kind(V const& v)
    {
        switch (v.type())
        {
        case json_type::Object: return 'o'; case json_type::Array: return 'a'; case json_type::String: return 's';
        case json_type::Double: case json_type::Int64: case json_type::Uint64: case json_type::Int: case json_type::Uint: return 'n';
        case json_type::Bool: return std::get<bool>(*v) ? 't' : 'f'; case json_type::Null: return 'z'; case json_type::Keyword: return 'w';
        default: return 'u';
        }
    }
    static std::string scalar(V const& v)
    {
        switch (v.type())
        {
        case json_type::String: return str(std::get<S>(*v));
        case json_type::Double: return number(std::get<double>(*v));
        case json_type::Int64: return std::to_string(std::get<std::int64_t>(*v));
        case json_type::Uint64: return std::to_string(std::get<std::uint64_t>(*v));
        case json_type::Int: return std::to_string(std::get<std::int32_t>(*v));
        case json_type::Uint: return std::to_string(std::get<std::uint32_t>(*v));
        case json_type::Keyword: return str(std::get<K>(*v).text);
        default: return "";
        }
    }
    static std::string tree(V const& v)
    {
        std::string o = "{\"k\":\""; o += kind(v);
        o += "\",\"nk\":\""; o += !v.has_name() ? '-' : v.name_is_keyword() ? 'w' : 's';
        o += "\",\"n\":" + (v.has_name() ? codes(str(v.name())) : std::string("[]")) + ",\"v\":" + codes(scalar(v)) + ",\"c\":[";
        bool first = true;
        for (auto i = v.begin(); i != v.end(); ++i) { if (!first) o += ','; first = false; o += tree(*i); }
        return o + "]}";
    }
};
static char const* NOTREE = "{\"k\":\"u\",\"nk\":\"-\",\"n\":[],\"v\":[],\"c\":[]}";
template <class J> static void read(char const* event, char const* syn, J& j, std::string const& text, bool seekable = true)
{
    bool ok = false, err = false;
    try
    {
        std::istringstream in{ text };
        if (seekable) ok = j.read(in);
        else // a stream which cannot be rewound
        {
            struct Buf : std::stringbuf { using std::stringbuf::stringbuf; 
                pos_type seekoff(off_type, std::ios::seekdir, std::ios::openmode) override { return pos_type(off_type(-1)); }
                pos_type seekpos(pos_type, std::ios::openmode) override { return pos_type(off_type(-1)); } } b{ text };
            std::istream s{ &b }; ok = j.read(s);
        }
        err = !ok && !j.error_text().empty();
    }
    catch (std::exception& e) { E("exception").str("t", text).str("what", e.what()).end(); return; }
    E(event).str("syn", syn).raw("t", codes(text)).b("ok", ok).b("err", err).raw("tree", ok && j.has_root() ? Seen<J>::tree(j.root()) : NOTREE).end();
}
// the syntaxes take turns in reading into the same and into new documents
static void parse(std::string const& text, int which)
{
    static json reused; static nokw_json reusedNoKw; static rjson reusedRelaxed;
    switch (which % 8)
    {
    case 0: { json j; read("parse", "std", j, text); } break;
    case 1: case 4: read("parse", "std", reused, text); break;
    case 2: case 5: read("parse", "nokw", reusedNoKw, text); break;
    case 3: case 6: read("parse", "relaxed", reusedRelaxed, text); break;
    default: { fast_json j; read("parse", "std", j, text, false); } break;
    }
}
static void each(std::vector<std::string> const& alphabet, int depth, std::string const& text, std::function<void(std::string const&)> const& f)
{
    f(text);
    if (depth > 0) for (auto const& a : alphabet) each(alphabet, depth - 1, text + a, f);
}
struct Gen
{
    vt::Rng& r; bool words; bool spaces; bool comments;
    std::string ws()
    {
        std::string s;
        if (spaces) while (r.chance(1, 3)) s += " \n\r\t"[r.below(4)];
        if (comments && r.chance(1, 4)) { static char const* c[] = { "/**/", "/*c*/", "//x\n", "/* \" ' */", "// {\n", "/* // */", "/***/" }; s += c[r.below(7)]; }
        return s;
    }
    std::string chars()
    {
        static char const* parts[] = { "a", "b", "xyz", "0", " ", "\\n", "\\\"", "\\\\", "\\/", "\\b\\f\\r\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\uD834\\uDD1E",
            "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "'", "`", "{", "}", "[", "]", ",", ":", "//", "/*", "*/", "\\u0001", "\\u001f", "\\u0000", "\x7f", ".", "true" };
        std::string s; for (int n = r.below(5); n > 0; --n) s += parts[r.below(int(sizeof parts / sizeof *parts))];
        return s;
    }
    std::string string() { return "\"" + chars() + "\""; }
    std::string word() { static char const* w[] = { "foo", "x1", "truely", "nul", "a.b", "_c", "e", "u2" }; return w[r.below(8)]; }
    std::string digits(int n) { std::string s; while (n-- > 0) s += char('0' + r.below(10)); return s; }
    std::string numb()
    {
        static char const* edge[] = { "0", "-0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
            "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0.1", "1e22", "1e23", "-1.5E-10", "123456789012.345", "3.14159265358979", "1E+2", "100000.0", "5e-7" };
        if (r.chance(1, 3)) return edge[r.below(22)];
        std::string s = r.chance(1, 3) ? "-" : "";
        s += r.chance(1, 4) ? "0" : std::string(1, char('1' + r.below(9))) + digits(r.below(6));
        if (r.chance(1, 3)) s += "." + digits(1 + r.below(5));
        if (r.chance(1, 4)) { s += "eE"[r.below(2)]; if (r.chance(1, 2)) s += "+-"[r.below(2)]; s += digits(1 + r.below(2)); }
        return s;
    }
    std::string value(int depth)
    {
        int k = r.below(depth > 0 ? 9 : 5);
        if (k < 5)
            switch (r.below(words ? 6 : 5)) { case 0: return "true"; case 1: return r.chance(1, 2) ? "false" : "null"; case 2: case 3: return numb(); case 4: return string(); default: return word(); }
        std::string s; int n = r.below(4);
        if (k < 7)
        {
            s = "[" + ws();
            for (int i = 0; i < n; ++i) s += (i ? "," + ws() : "") + value(depth - 1) + ws();
            return s + "]";
        }
        s = "{" + ws();
        for (int i = 0; i < n; ++i) s += (i ? "," + ws() : "") + (words && r.chance(1, 4) ? word() : string()) + ws() + ":" + ws() + value(depth - 1) + ws();
        return s + "}";
    }
    std::string document() { std::string b = r.chance(1, 10) ? "\xEF\xBB\xBF" : ""; return b + ws() + value(r.below(4)) + ws(); }
    std::string mutated(std::string s)
    {
        for (int n = 1 + r.below(2); n > 0; --n)
        {
            int p = r.below(int(s.size()) + 1);
            switch (r.below(3))
            {
            case 0: if (p < (int)s.size()) s.erase(p, 1); break;
            case 1: s.insert(p, 1, "{}[],:\" 1ae-.\\/u\n\t\x01"[r.below(19)]); break;
            default: if (p < (int)s.size()) s[p] = "{}[],:\" 1ae-.\\/u\n\t\x01"[r.below(19)]; break;
            }
        }
        return s;
    }
};
static bool utf8ok(std::string const& s) { return neolib::check_utf8(std::string_view{ s }); }

template <class J> struct Edit
{
    using V = typename J::json_value; using S = typename J::json_string; using T = typename J::value_type; using O = typename J::json_object; using A = typename J::json_array;
    vt::Rng& r; J j; 
    static constexpr char const* KEYS[] = { "a", "b", "c", "key", "n\"q", "\xC3\xA9", "long name with spaces and \\ and more" };
    S key() { return S{ KEYS[r.below(7)] }; }
    std::vector<std::pair<std::vector<int>, V*>> nodes()
    {
        std::vector<std::pair<std::vector<int>, V*>> n; std::vector<int> at;
        std::function<void(V&)> go = [&](V& v) { n.push_back({ at, &v }); int i = 0; for (auto c = v.begin(); c != v.end(); ++c) { at.push_back(++i); go(*c); at.pop_back(); } };
        go(j.root()); return n;
    }
    std::pair<std::vector<int>, V*> pick(char kind = 0)
    {
        auto n = nodes(); std::vector<std::pair<std::vector<int>, V*>> m;
        for (auto& x : n) if (!kind || Seen<J>::kind(*x.second) == kind || (kind == 'c' && x.second->is_composite())) m.push_back(x);
        if (m.empty()) return { {}, nullptr };
        return m[r.below(int(m.size()))];
    }
    static int pos(V& parent, V* child) { int i = 0; for (auto c = parent.begin(); c != parent.end(); ++c) { ++i; if (&*c == child) return i; } return 0; }
    static std::string node(char const* k, std::string const& v) { return std::string("{\"k\":\"") + k + "\",\"nk\":\"-\",\"n\":[],\"v\":" + codes(v) + ",\"c\":[]}"; }
    T value(std::string& n)
    {
        switch (r.below(11))
        {
        case 0: n = node("t", ""); return T{ true };
        case 1: n = node("f", ""); return T{ false };
        case 2: n = node("z", ""); return T{ typename J::json_null{} };
        case 3: { std::int32_t v = r.chance(1, 4) ? INT32_MIN : r.range(-50, 50); n = node("n", std::to_string(v)); return T{ v }; }
        case 4: { std::uint64_t v = r.chance(1, 3) ? UINT64_MAX : r.next() >> 10; n = node("n", std::to_string(v)); return T{ v }; }
        case 5: { double v = r.chance(1, 3) ? 0.1 : double(r.range(-100000, 100000)) / 64; n = node("n", number(v)); return T{ v }; }
        case 6: case 7: { static char const* s[] = { "", "x", "a\"b", "tab\there", "\x01\x1f", "\xE2\x82\xAC", "back\\slash", "line\nline", "/", "{}[],:" }; std::string v = s[r.below(10)]; n = node("s", v); return T{ S{ v } }; }
        case 8: n = node("a", ""); return T{ A{} };
        default: n = node("o", ""); return T{ O{} };
        }
    }
    E& done(E& e, std::vector<int> const& path) { e.seq("path", path).raw("tree", Seen<J>::tree(j.root())); return e; }
    void look()
    {
        auto [path, v] = pick('c'); if (!v) return;
        E e("look"); e.seq("path", path).i("size", (long long)v->size()).b("empty", v->empty());
        std::string keys = "["; std::vector<int> at, idx, eachv; std::string has = "[";
        if (v->type() == json_type::Object)
        {
            auto& o = v->template as<O>();
            for (auto k : KEYS)
            {
                if (keys.size() > 1) { keys += ','; has += ','; }
                keys += codes(k); has += o.has(S{ k }) ? "true" : "false";
                try { at.push_back(pos(*v, &o.at(S{ k }))); if (!at.back()) at.back() = -1; } catch (std::out_of_range&) { at.push_back(0); }
            }
        }
        else
        {
            auto& a = v->template as<A>();
            for (std::size_t i = 0; ; ++i) try { idx.push_back(pos(*v, &a[i])); } catch (std::out_of_range&) { break; }
            for (auto x : a) eachv.push_back(pos(*v, x));
        }
        e.raw("keys", keys + "]").raw("has", has + "]").seq("at", at).seq("idx", idx).seq("each", eachv).end();
    }
    void path()
    {
        std::string p, keys = "[";
        for (int n = 1 + r.below(3); n > 0; --n) { std::string k = KEYS[r.below(5)]; p += (p.empty() ? "" : ".") + k; keys += (keys.size() > 1 ? "," : "") + codes(k); }
        std::vector<int> at;
        try { V* v = &j.at(S{ p.c_str() }); while (v->has_parent()) { at.insert(at.begin(), pos(v->parent(), v)); v = &v->parent(); } if (v != &j.root()) at = { -1 }; }
        catch (json_path_not_found&) { at = { 0 }; }
        E("path").raw("keys", keys + "]").seq("r", at).end();
    }
    void walk()
    {
        std::vector<std::string> k, w;
        for (auto i = j.cbegin(); i != j.cend(); ++i) k.push_back(std::string(1, Seen<J>::kind(i.value())));
        j.visit([&](auto&& a)
        {
            using X = std::decay_t<decltype(a)>;
            if constexpr (std::is_same_v<X, O>) w.push_back("o"); else if constexpr (std::is_same_v<X, A>) w.push_back("a"); else if constexpr (std::is_same_v<X, S>) w.push_back("s");
            else if constexpr (std::is_same_v<X, bool>) w.push_back(a ? "t" : "f"); else if constexpr (std::is_arithmetic_v<X>) w.push_back("n");
            else if constexpr (std::is_same_v<X, typename J::json_null>) w.push_back("z"); else w.push_back("w");
        });
        E("walk").sseq("k", k).sseq("visit", w).end();
    }
    void write(bool fresh)
    {
        std::ostringstream out; j.write(out, std::string(r.below(3), ' '));
        if (fresh) { J k; back(out.str(), k); }
        else { static J k; back(out.str(), k); }
    }
    void back(std::string const& text, J& k)
    {
        std::istringstream in{ text }; bool ok = k.read(in);
        E("write").raw("t", codes(text)).b("ok", ok).raw("back", ok && k.has_root() ? Seen<J>::tree(k.root()) : NOTREE).end();
    }
    void run(int steps)
    {
        bool known = false;
        for (int n = 0; n < steps; ++n)
        {
            std::string node; int op = r.below(20);
            if (!known || op == 0)
            {
                if (r.chance(1, 3))
                {
                    Gen g{ r, true, true, false }; auto t = g.document(); if (r.chance(1, 4)) t = g.mutated(t);
                    if (!utf8ok(t) || t.find("\\ud") != t.npos || t.find("\\uD") != t.npos) continue;
                    read("read", "std", j, t); known = j.has_root() && j.error_text().empty() ? true : false;
                    std::istringstream in{ t }; J k; known = k.read(in);
                }
                else { auto v = value(node); j.root() = std::move(v); E("root").raw("node", node).raw("tree", Seen<J>::tree(j.root())).end(); known = true; }
                continue;
            }
            if (nodes().size() > 25) { j.root().clear(); E e("clear"); done(e, {}).end(); continue; }
            switch (op)
            {
            case 1: { auto [p, v] = pick(); auto x = value(node); *v = std::move(x); E e("assign"); done(e.raw("node", node), p).end(); } break;
            case 2: case 3: case 4: case 5:
                { auto [p, v] = pick('o'); if (!v) break; auto k = key(); auto x = value(node); V& c = v->template as<O>()[k]; c = std::move(x);
                  E e("member"); done(e.raw("key", codes(Seen<J>::str(k))).raw("node", node).i("at", pos(*v, &c)), p).end(); } break;
            case 6: case 7: case 8: case 9:
                { auto [p, v] = pick('a'); if (!v) break; auto x = value(node); V* c;
                  switch (r.below(2)) { case 0: c = &v->template as<A>().push_back(std::move(x)); break; default: c = &v->emplace_back(std::move(x)); break; }
                  E e("push"); done(e.raw("node", node).i("at", pos(*v, c)), p).end(); } break;
            case 10: case 11: { if (!r.chance(1, 3)) break; auto [p, v] = pick('c'); if (!v) break; v->clear(); E e("clear"); done(e, p).end(); } break;
            case 12: { auto [p, v] = pick('o'); if (!v || v->empty()) break; auto k = key(); int m = 1 + r.below((int)v->size()); auto c = v->begin(); for (int q = 1; q < m; ++q) ++c;
                       (*c).set_name(k); p.push_back(m); E e("name"); done(e.raw("key", codes(Seen<J>::str(k))), p).end(); } break;
            case 13: case 14: case 15: look(); break;
            case 16: path(); break;
            case 17: walk(); break;
            default: write(r.chance(1, 2)); break;
            }
        }
    }
};

int main(int argc, char** argv)
{
    if (argc < 8) return 2;
    std::string mode = argv[1]; vt::Out::get().open(argv[2]); E::Out_unbuffered() = false;
    int shard = std::atoi(argv[3]), shards = std::atoi(argv[4]), depth = std::atoi(argv[5]); vt::Rng r(std::atoi(argv[6]) * 1000 + shard); int count = std::atoi(argv[7]);
    int n = 0;
    auto mine = [&](std::string const& t) { if (n++ % shards == shard) parse(t, n / shards + n % 7); };
    if (mode == "texts") // every sequence of tokens
    {
        each({ "{", "}", "[", "]", ",", ":", "\"a\"", "1", "b", "true", " " }, depth, "", mine);
        for (auto s : { "[1,[2,[3]]]", "{\"a\":{\"b\":[]}}", "{\"a\":1,\"b\":[true]}", "[{},[],\"\"]" })
            each({ "{", "}", "[", "]", ",", ":", "\"a\"", "1" }, depth > 4 ? 3 : 2, s, mine);
    }
    else if (mode == "numbers")
        each({ "0", "1", "-", ".", "e", "+" }, depth, "", [&](std::string const& t) { mine(t); if (t.size() < 4) mine("[" + t + "]"), mine("{\"a\":" + t + "}"); });
    else if (mode == "strings")
    {
        each({ "\\", "\"", "u", "0", "4", "n", "'", "/", "*" }, depth, "", [&](std::string const& t) { mine("\"" + t + "\""); if (t.size() < 4) mine("{\"" + t + "\":\"" + t + "\"}"), mine("[\"ab" + t + "\"]"); });
        for (int c = 0; c < 256; ++c) for (auto f : { "\"%\"", "\"a%\"", "\"\\%\"", "%", "[1%]", "{%a%:1}" })
        {
            std::string t, x = c < 128 ? std::string(1, char(c)) : std::string(1, char(0xC3)) + std::string(1, char(0x80 + c % 64));
            if (c == 0x60 || c == 0x27) continue;
            for (char const* p = f; *p; ++p) if (*p == '%') t += x; else t += *p;
            mine(t);
        }
        for (unsigned u = 1; u < 0x10000; u += 1 + r.below(97)) if (u < 0xD800 || u > 0xDFFF) { char b[32]; std::snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", u); mine("\"" + std::string(b) + "x" + b + "\""); mine("{\"" + std::string(b) + "\":\"" + b + "\"}"); }
        for (int i = 0; i < 200; ++i) { char b[32]; std::snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + r.below(0x400), 0xDC00 + r.below(0x400)); mine("\"" + std::string(b) + "\""); mine("{\"" + std::string(b) + b + "\":\"" + "a" + b + "\\n" + b + "\"}"); }
    }
    else if (mode == "random")
        for (int i = 0; i < count; ++i)
        {
            int k = r.below(8);
            Gen g{ r, k == 0 || k == 1 || k == 4 || k == 7, r.chance(2, 3), k == 3 || k == 6 };
            auto t = g.document(); if (r.chance(1, 3)) t = g.mutated(t);
            if (utf8ok(t)) parse(t, k);
        }
    else
        for (int i = 0; i < count; ++i)
            if (i % 3) { Edit<json> e{ r }; e.run(depth); } else { Edit<fast_json> e{ r }; e.run(depth); }
    return 0;
}
