// XML documents: what texts are read as, what edits do to documents, what lookups find, how they are written.
//   xml texts|random|edit OUT SHARD SHARDS DEPTH SEED COUNT
#include <neolib/neolib.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/allocator.hpp>
#include <neolib/file/xml.hpp>
#include <deque>
#include <functional>
#include <sstream>
#include "trace.hpp"
using vt::E;

static std::string codes(std::string_view s)
{
    std::string o = "["; for (unsigned char c : s) { if (o.size() > 1) o += ','; o += std::to_string(c); } return o + "]";
}
static std::string ints(std::vector<int> const& v) { std::string o = "["; for (int i : v) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "]"; }
template <class S> static std::string str(S const& s) { return std::string(s.begin(), s.end()); }
// neolib::quick_string may refer to the characters it is made from: keep them
static std::string const& kept(std::string const& s) { static std::deque<std::string> all; all.push_back(s); return all.back(); }

template <class X> struct Doc
{
    using N = typename X::node; using Elem = typename X::element; using S = typename X::string;
    static char kind(N const& n)
    {
        switch (n.type()) { case N::Element: return 'e'; case N::Text: return 't'; case N::Comment: return 'c'; case N::Declaration: return 'd'; case N::Cdata: return 'x'; case N::Dtd: return 'y'; default: return '?'; }
    }
    static std::string content(N const& n)
    {
        switch (n.type())
        {
        case N::Element: return str(static_cast<Elem const&>(n).name());
        case N::Text: return str(static_cast<typename X::text const&>(n).content());
        case N::Comment: return str(static_cast<typename X::comment const&>(n).content());
        case N::Declaration: return str(static_cast<typename X::declaration const&>(n).content());
        case N::Cdata: return str(static_cast<typename X::cdata const&>(n).content());
        case N::Dtd: return str(static_cast<typename X::dtd const&>(n).content());
        default: return "";
        }
    }
    static void dump(N const& n, int depth, std::string& o)
    {
        for (typename N::const_iterator i = n.begin(); i != n.end(); ++i)
        {
            if (o.size() > 1) o += ',';
            o += std::string("[\"") + kind(*i) + "\"," + std::to_string(depth) + "," + codes(content(*i)) + ",[";
            if (i->type() == N::Element) { bool first = true; for (auto const& a : static_cast<Elem const&>(*i).attributes()) { o += std::string(first ? "" : ",") + "[" + codes(str(a.first)) + "," + codes(str(a.second)) + "]"; first = false; } }
            o += "]]"; dump(*i, depth + 1, o);
        }
    }
    static std::string tree(X const& x) { std::string o = "["; dump(x.document(), 1, o); return o + "]"; }
    static void read(char const* event, X& x, std::string const& text, bool strip, bool seekable)
    {
        bool ok = false; std::string what;
        try
        {
            std::istringstream in{ text };
            if (seekable) ok = x.read(in);
            else // a stream which cannot be rewound
            {
                struct Buf : std::stringbuf { using std::stringbuf::stringbuf;
                    pos_type seekoff(off_type, std::ios::seekdir, std::ios::openmode) override { return pos_type(off_type(-1)); }
                    pos_type seekpos(pos_type, std::ios::openmode) override { return pos_type(off_type(-1)); } } b{ text };
                std::istream s{ &b }; ok = x.read(s);
            }
        }
        catch (std::exception& e) { E("exception").raw("t", codes(text)).str("what", e.what()).end(); return; }
        E(event).b("strip", strip).raw("t", codes(text)).b("ok", ok).b("err", x.error()).raw("tree", tree(x)).end();
    }
    // every node, by its number in document order: its parent and its place in the list
    struct Place { N* parent; typename N::iterator it; int number; int dad; int child; };
    static void places(N& n, int number, std::vector<Place>& v) { int c = 0; for (auto i = n.begin(); i != n.end(); ++i) { int me = int(v.size()) + 1; v.push_back({ &n, i, me, number, c++ }); places(*i, me, v); } }

    X x; bool strip; vt::Rng& r; std::vector<Place> v;
    Doc(vt::Rng& r_, bool s) : x{ s }, strip{ s }, r{ r_ } { E("new").b("strip", s).raw("tree", tree(x)).end(); }
    N& node(int p) { return p == 0 ? x.document() : *v[p - 1].it; }
    int number(N const& n) { for (auto const& p : v) if (&*p.it == &n) return p.number; return 0; }
    void index() { v.clear(); places(x.document(), 0, v); }
    static std::string name(vt::Rng& r) { static char const* n[] = { "a", "b", "item", "x:y", "n-1", "_z" }; return n[r.below(6)]; }
    static std::string value(vt::Rng& r)
    {
        static char const* parts[] = { "x", "yz", "<", ">", "&", "\"", "'", " ", "\n", "\t", "&amp;", "]]>", "--", "\xC3\xA9", "/", "=", "0", "&#65;", ";", "#" };
        std::string s; for (int n = r.below(5); n > 0; --n) s += parts[r.below(20)]; return s;
    }
    static std::string quiet(vt::Rng& r) { static char const* parts[] = { "c", " d ", "<e>", "&", "\n", "'", "" }; std::string s; for (int n = r.below(4); n > 0; --n) s += parts[r.below(7)]; return s; }
    int pick(std::function<bool(N&)> ok, bool doc = false) { std::vector<int> c; if (doc) c.push_back(0); for (auto& p : v) if (ok(*p.it)) c.push_back(p.number); return c.empty() ? -1 : c[r.below(int(c.size()))]; }
    static bool element(N& n) { return n.type() == N::Element; }
    static int kids(N& n) { int c = 0; for (auto i = n.begin(); i != n.end(); ++i) ++c; return c; }
    void end(E& e) { e.raw("tree", tree(x)).end(); }
    void step(int big)
    {
        index(); int op = r.below(100);
        if (!x.got_root())
        {
            int k = r.below(3);
            if (k == 0) { x.root(); E e("root"); end(e); index(); int p = number(x.root()); std::string n = name(r); x.root().name() = S(n); E f("content"); f.i("p", p).raw("x", codes(n)); end(f); return; }
            int c = int(kids(x.document())); std::string const& n = kept(name(r));
            if (k == 1) { x.append(x.document(), n.c_str()); index(); E e("element"); e.i("p", 0).i("c", c).raw("name", codes(n)).i("at", number(x.document().back())); end(e); }
            else { auto i = x.find_or_append(x.document(), n.c_str()); index(); E e("ensure"); e.i("p", 0).raw("name", codes(n)).i("at", number(*i)); end(e); }
            return;
        }
        bool full = int(v.size()) > big;
        if (op < 22)
        {
            if (full) return; int p = pick(element); auto& parent = static_cast<Elem&>(node(p)); int m = kids(parent); std::string const& n = kept(name(r)); N* made = nullptr; int c = m;
            if (r.chance(1, 2)) switch (r.below(3)) { case 0: made = &x.append(parent, n.c_str()); break; case 1: made = &parent.append(n); break; default: made = &parent.append(n.c_str()); break; }
            else { c = r.range(0, m); auto pos = static_cast<N&>(parent).begin(); for (int i = 0; i < c; ++i) ++pos; made = r.chance(1, 2) ? &*x.insert(parent, pos, n.c_str()) : &*parent.insert(pos, n.c_str()); }
            index(); E e("element"); e.i("p", p).i("c", c).raw("name", codes(n)).i("at", number(*made)); end(e);
        }
        else if (op < 36) { if (full) return; int p = pick(element); std::string t = value(r); static_cast<Elem&>(node(p)).append_text(S(t)); E e("text"); e.i("p", p).raw("x", codes(t)); end(e); }
        else if (op < 42)
        {
            if (full) return; int p = pick(element, true); auto& parent = node(p); int m = kids(parent); int c = r.range(0, m); std::string t = quiet(r); auto pos = parent.begin(); for (int i = 0; i < c; ++i) ++pos;
            if (c == m && r.chance(1, 2)) parent.push_back(new typename X::comment(S(t))); else parent.insert(pos, new typename X::comment(S(t)));
            E e("comment"); e.i("p", p).i("c", c).raw("x", codes(t)); end(e);
        }
        else if (op < 50)
        {
            if (full) return; int p = pick(element); std::string const& n = kept(name(r)); auto i = r.chance(1, 2) ? x.find_or_append(node(p), n.c_str()) : node(p).find_or_append(S(n));
            index(); E e("ensure"); e.i("p", p).raw("name", codes(n)).i("at", number(*i)); end(e);
        }
        else if (op < 57) { if (v.empty()) return; int p = r.range(1, int(v.size())); auto& q = v[p - 1]; if (r.chance(1, 2)) x.erase(*q.parent, q.it); else q.parent->erase(q.it); E e("erase"); e.i("p", p); end(e); }
        else if (op < 58) { int p = pick(element); node(p).clear(); E e("clear"); e.i("p", p); end(e); }
        else if (op < 59) { x.clear(); E e("reset"); end(e); }
        else if (op < 64)
        {
            int p = pick([](N& n) { return n.type() == N::Element || n.type() == N::Text || n.type() == N::Comment; }); std::string t; auto& n = node(p);
            if (n.type() == N::Element) { static_cast<Elem&>(n).name() = S(t = name(r)); static_cast<Elem&>(n).set_use_empty_element_tag(r.chance(1, 2)); }
            else if (n.type() == N::Text) static_cast<typename X::text&>(n).content() = S(t = value(r)); else static_cast<typename X::comment&>(n).content() = S(t = quiet(r));
            E e("content"); e.i("p", p).raw("x", codes(t)); end(e);
        }
        else if (op < 76)
        {
            int p = pick(element); auto& el = static_cast<Elem&>(node(p)); std::string n = name(r), t = value(r);
            if (r.chance(1, 5)) { el.attributes().erase(S(n)); E e("unset"); e.i("p", p).raw("name", codes(n)); end(e); }
            else { el.set_attribute(S(n), S(t)); E e("attribute"); e.i("p", p).raw("name", codes(n)).raw("x", codes(t)); end(e); }
        }
        else if (op < 90) look(); else write();
    }
    void look()
    {
        index(); int p = r.chance(1, 6) ? 0 : r.range(0, int(v.size())); N& n = node(p); N const& cn = n; X const& cx = x; bool cst = r.chance(1, 2);
        static int const some[] = { 0xFF, 2, 4, 8, 16, 32, 64, 6, 12, 10, 40 }; std::vector<int> masks{ some[r.below(11)], some[r.below(11)] };
        std::string there, back;
        for (int m : masks)
        {
            auto f = typename N::type_e(m); std::vector<int> a, b;
            auto both = [&](auto beg, auto en) { for (auto i = beg; i != en; ) { a.push_back(number(*i)); if (r.chance(1, 2)) ++i; else i++; } for (auto i = en; i != beg; ) { if (r.chance(1, 2)) --i; else i--; b.push_back(number(*i)); if (b.size() > 500) break; } };
            if (cst) both(cn.begin(f), cn.end(f)); else both(n.begin(f), n.end(f));
            there += (there.empty() ? "" : ",") + ints(a); back += (back.empty() ? "" : ",") + ints(b);
        }
        std::vector<int> found; std::string names = "["; struct missing {};
        for (int k = 0; k < 2; ++k)
        {
            std::string const& w = kept(name(r)); names += (k ? "," : "") + codes(w); int at = 0;
            switch (r.below(6))
            {
            case 0: { auto i = n.find(S(w)); at = i == n.end() ? 0 : number(*i); } break;
            case 1: { auto i = cn.find(S(w)); at = i == cn.end() ? 0 : number(*i); } break;
            case 2: { auto i = n.find_maybe(S(w)); at = i ? number(**i) : 0; } break;
            case 3: { auto i = cn.find_maybe(S(w)); at = i ? number(**i) : 0; } break;
            case 4: { auto i = r.chance(1, 2) ? typename N::const_iterator(x.find(n, w.c_str())) : cx.find(cn, w.c_str()); at = i == cn.end() ? 0 : number(*i); } break;
            default: try { at = r.chance(1, 2) ? number(*n.template find_or_throw<missing>(S(w))) : number(*cn.template find_or_throw<missing>(S(w))); } catch (missing) {} break;
            }
            found.push_back(at);
        }
        E e("look"); e.i("p", p).seq("masks", masks).raw("kids", "[" + there + "]").raw("sdik", "[" + back + "]").b("none", n.empty()).raw("names", names + "]").seq("found", found).b("root", x.got_root());
        if (p != 0 && n.type() == N::Element)
        {
            auto& el = static_cast<Elem&>(n); auto const& ce = el; std::vector<int> a, b;
            if (cst) { for (auto i = ce.begin(); i != ce.end(); ++i) a.push_back(number(*i)); for (auto i = ce.end(); i != ce.begin();) { --i; b.push_back(number(*i)); } }
            else { for (auto i = el.begin(); i != el.end(); ++i) a.push_back(number(*i)); for (auto i = el.end(); i != el.begin();) { --i; b.push_back(number(*i)); } }
            std::string as = "[", hs = "[", vs = "[", es = "["; std::vector<std::string> w; for (int k = 0; k < 4; ++k) w.push_back(name(r));
            for (int k = 0; k < 4; ++k)
            {
                std::string c = k ? "," : ""; as += c + codes(w[k]); hs += c + (ce.has_attribute(S(w[k])) ? "true" : "false"); vs += c + codes(str(ce.attribute_value(S(w[k]))));
                if (k < 3) es += c + codes(str(ce.attribute_value(S(w[k]), S(w[k + 1]))));
            }
            e.seq("elems", a).seq("smele", b).raw("text", codes(str(el.text()))).raw("attrs", as + "]").raw("has", hs + "]").raw("value", vs + "]").raw("either", es + "]");
        }
        e.end();
    }
    void write()
    {
        if (!x.got_root()) return;
        if (r.chance(1, 2)) x.set_indent(" \t"[r.below(2)], r.below(4));
        std::ostringstream out; bool ok = x.write(out); std::string text = out.str();
        E("write").raw("t", codes(text)).b("ok", ok && !x.error()).end();
        { bool s = r.chance(1, 2); X other{ s }; read("parse", other, text, s, r.chance(3, 4)); }
        if (r.chance(1, 2)) read("read", x, text, strip, r.chance(3, 4));
    }
};
using neolib::xml;
using pooled = neolib::basic_xml<char, neolib::pool_allocator<char>>;
// documents take turns in being read into
static void parse(std::string const& text, int which)
{
    static xml again, stripped{ true }; static pooled pool;
    switch (which % 5)
    {
    case 0: { xml x; Doc<xml>::read("parse", x, text, false, true); } break;
    case 1: Doc<xml>::read("parse", stripped, text, true, true); break;
    case 2: Doc<pooled>::read("parse", pool, text, false, true); break;
    case 3: Doc<xml>::read("parse", again, text, false, true); break;
    default: { pooled x{ true }; Doc<pooled>::read("parse", x, text, true, false); } break;
    }
}
struct Gen
{
    vt::Rng& r;
    std::string pick(std::initializer_list<char const*> l) { return *(l.begin() + r.below(int(l.size()))); }
    std::string ws(bool some = false) { std::string s; do { if (some || r.chance(1, 3)) s += " \n\r\t"[r.below(4)]; } while (r.chance(1, 4)); return s; }
    std::string name() { return pick({ "a", "b", "a1", "ab:c", "_x", "A-b.c", "\xC3\xA9" }); }
    std::string chars(bool attr)
    {
        std::string s; for (int n = r.below(6); n > 0; --n) s += pick({ "x", "text", "1", " ", "  ", "\n", "\t", "&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#x7e;", "&amp;amp;", ">", "/", "=", ";", "#", "!", "-", "]", "\xE2\x82\xAC", "&#32;", attr ? "/>" : "'" });
        return s;
    }
    std::string attrs() { std::string s; int n = r.below(4); for (int i = 0; i < n; ++i) { char q = "\"'"[r.below(2)]; s += ws(true) + (r.chance(7, 8) ? name() + std::to_string(i) : name()) + ws() + "=" + ws() + q + chars(true) + q; } return s + ws(); }
    std::string comment() { return "<!--" + pick({ "", " ", "c", " a comment ", "<a>", "&amp;", "\n", "- ", "'" }) + "-->"; }
    std::string decl() { return "<?" + pick({ "xml version=\"1.0\"", "p", "php a>b", "", "x ?y" }) + "?>"; }
    std::string element(int depth)
    {
        std::string n = name(), s = "<" + n + attrs(); if (r.chance(1, 4)) return s + "/>"; s += ">";
        for (int k = r.below(5); k > 0; --k)
            switch (r.below(depth > 0 ? 8 : 5)) { case 0: s += comment(); break; case 1: s += "<![CDATA[" + pick({ "", "x", "<a>&amp;]]", " ", "]" }) + "]]>"; break; case 2: s += r.chance(1, 3) ? decl() : ws(); break; case 3: case 4: s += chars(false); break; default: s += element(depth - 1); break; }
        return s + "</" + n + ws() + ">";
    }
    std::string document()
    {
        std::string s = r.chance(1, 3) ? decl() : ""; s += ws(); if (r.chance(1, 5)) s += comment() + ws();
        if (r.chance(1, 4)) s += "<!DOCTYPE" + pick({ " a", " a SYSTEM \"a.dtd\"", " a [ <!ELEMENT a (b)> ]", "\nb PUBLIC 'x' 'y' " }) + ">" + ws();
        if (!r.chance(1, 40)) s += element(3); if (r.chance(1, 40)) s += element(0); s += ws(); if (r.chance(1, 4)) s += comment(); return s + ws();
    }
    std::string mutated()
    {
        std::string s = document(); static char const alphabet[] = "<>/&;='\"!-?[] \nab"; int n = r.below(4); if (n == 3) n = 0;
        while (n-- > 0 && !s.empty())
            switch (int i = r.below(int(s.size())); r.below(5)) { case 0: s.erase(i, 1 + r.below(3)); break; case 1: s.insert(i, 1, alphabet[r.below(17)]); break; case 2: s[i] = alphabet[r.below(17)]; break; case 3: s.resize(r.chance(1, 2) ? s.size() - 1 - r.below(int(std::min<std::size_t>(s.size(), 12))) : i); break; default: s.insert(i, s.substr(r.below(int(s.size())), r.below(9))); break; }
        return s;
    }
};
template <class X> static void edits(vt::Rng& r, int steps)
{
    Doc<X> d{ r, r.chance(1, 3) };
    if (r.chance(1, 2)) { Gen g{ r }; Doc<X>::read("read", d.x, g.document(), d.strip, true); if (!d.x.got_root() || d.x.error()) { d.x.clear(); E e("reset"); d.end(e); } }
    for (int i = 0; i < steps; ++i) d.step(25);
    d.write();
}
static void each(std::vector<std::string> const& alphabet, int depth, std::string const& text, std::function<void(std::string const&)> const& f)
{
    f(text);
    if (depth > 0) for (auto const& a : alphabet) each(alphabet, depth - 1, text + a, f);
}
int main(int, char** argv)
{
    std::string mode = argv[1]; vt::Out::get().open(argv[2]); int shard = std::atoi(argv[3]), shards = std::atoi(argv[4]), depth = std::atoi(argv[5]); vt::Rng r(std::atoi(argv[6]) * 1000 + shard + 1); int count = std::atoi(argv[7]);
    if (mode == "texts")
    {
        int k = 0; auto go = [&](std::string const& s) { if (k++ % shards == shard) parse(s, k / shards); };
        each({ "<a>", "</a>", "<b/>", "<", ">", "/", "a", "b", " ", "=", "\"", "'", "&", "!--", "-", "?", "t", "<a", "amp;", "<![CDATA[", "]]>" }, depth, "<a>", go);
        each({ "<a", ">", "/>", "</a>", " b", "=", "\"x\"", "'<'", " ", "<!--", "-->", "<?", "?>", "\n", "<!DOCTYPE a", "x" }, depth, "", go);
    }
    else if (mode == "random") { Gen g{ r }; for (int i = 0; i < count; ++i) parse(g.mutated(), i); }
    else for (int i = 0; i < count; ++i) if (r.chance(1, 2)) edits<xml>(r, depth); else edits<pooled>(r, depth);
    return 0;
}
