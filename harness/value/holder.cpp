// Holders of one value or none: optional, variant and any, by themselves and through their abstract interfaces.
//   holder optint|optstr|opttrk|variant|any OUT SHARD SEED RUNS LENGTH
#include <neolib/neolib.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/optional.hpp>
#include <neolib/core/variant.hpp>
#include <neolib/core/any.hpp>
#include <memory>
#include <sstream>
#include "trace.hpp"
#include "tracked.hpp"
using vt::E; using vt::Tracked; using neolib::optional; using neolib::i_optional; using neolib::variant; using neolib::i_variant;
using S = neolib::string; using IS = neolib::i_string;

struct Big { long long pad[8]; Tracked t; Big(int v) : pad{}, t(v) {} };
static std::string text(int v) { return std::string(1 + (v % 3) * 12, 'a' + v); }
static int number(std::string const& s) { if (s.empty()) return -1; for (char c : s) if (c != s[0]) return -2; int v = s[0] - 'a'; return s == text(v) ? v : -3; }
static int number(IS const& s) { return number(s.to_std_string()); }
template <class T> T make(int v) { return T(v); }
template <> S make<S>(int v) { return S{ text(v) }; }
static int valueOf(int v) { return v; }
static int valueOf(Tracked const& t) { return t; }
static int valueOf(IS const& s) { return number(s); }
template <class X> std::string pairOf(int kind, X const& v) { return "[" + std::to_string(kind) + "," + std::to_string(v) + "]"; }
static int kindOf(int const&) { return 1; }
static int kindOf(IS const&) { return 2; }
static int kindOf(Tracked const&) { return 3; }

template <class T> struct Opt
{
    using H = optional<T>; using A = typename H::abstract_type; static constexpr int Kind = std::is_same_v<T, int> ? 1 : std::is_same_v<T, S> ? 2 : 3;
    static int kinds() { return 1; }
    static int kind(int) { return Kind; }
    static std::string state(H const& h)
    {
        A const& a = h; bool v = h.has_value();
        if (v != a.has_value() || v != !!h || v != (h != std::nullopt) || v == (a == std::nullopt)) return "[-1,-1]";
        if (!v) { if (h.to_std_optional()) return "[-1,0]"; try { (void)h.value(); return "[-1,1]"; } catch (std::bad_optional_access const&) {} return "[0,0]"; }
        if (valueOf(*h) != valueOf(a.value()) || &*h != h.operator->() || !h.as_std_optional()) return "[-1,-2]";
        return pairOf(Kind, valueOf(h.value()));
    }
    static void set(std::unique_ptr<H>& h, int, int v, int how)
    {
        A& a = *h; T x = make<T>(v);
        switch (how % 5) { case 0: *h = x; break; case 1: a = x; break; case 2: h->emplace(x); break; case 3: h = std::make_unique<H>(x); break; default: if (h->has_value()) **h = x; else *h = std::move(x); }
    }
    static void clear(std::unique_ptr<H>& h, int how) { A& a = *h; switch (how % 5) { case 0: h->reset(); break; case 1: a.reset(); break; case 2: *h = std::nullopt; break; case 3: a = std::nullopt; break; default: h = how % 2 ? std::make_unique<H>() : std::make_unique<H>(std::nullopt); } }
    static void copy(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how)
    {
        A& a = *h; H const& c = *f; A const& ca = c;
        switch (how % 5) { case 0: *h = c; break; case 1: a = ca; break; case 2: *h = ca; break; case 3: h = std::make_unique<H>(c); break; default: h = std::make_unique<H>(ca); }
    }
    static void move(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how) { if (how % 2) *h = std::move(*f); else h = std::make_unique<H>(std::move(*f)); f->reset(); }
    static bool swap(H&, H&) { return false; }
    static bool compare(H const& x, H const& y, int& r, bool& eq)
    {
        eq = x == y; if (eq != (static_cast<A const&>(x) == static_cast<A const&>(y))) { r = 9; return true; }
        if (y.has_value()) { A const& ax = x; T const& v = *y; if ((x == v) != eq || (ax == v) != eq || (v == x) != eq) { r = 9; return true; } }
        auto c = x <=> y; r = c < 0 ? -1 : c > 0 ? 1 : 0; return true;
    }
    static int orElse(H& h, int v, int how) { T d = make<T>(v); H const& c = h; A& a = h; A const& ca = h; switch (how % 4) { case 0: return valueOf(h.value_or(d)); case 1: return valueOf(c.value_or(d)); case 2: return valueOf(a.value_or(d)); default: return valueOf(ca.value_or(static_cast<T const&>(d))); } }
    static int look(H& h, int, int how) { try { return valueOf(how % 2 ? h.value() : static_cast<A&>(h).value()); } catch (std::bad_optional_access const&) { return -1; } }
};
struct Var
{
    using H = variant<int, S, Tracked>; using A = H::abstract_type;
    static int kinds() { return 3; }
    static int kind(int k) { return k + 1; }
    static std::string state(H const& h)
    {
        A const& a = h; std::size_t i = h.index(); if (i != a.index() || (i == 0) != (h == neolib::none) || (i != 0) == (neolib::none == h)) return "[-1,-1]";
        if (a.holds_alternative<int>() != (i == 1) || a.holds_alternative<IS>() != (i == 2) || a.holds_alternative<Tracked>() != (i == 3)) return "[-1,-2]";
        if (std::holds_alternative<int>(h) != (i == 1) || std::holds_alternative<S>(h) != (i == 2) || std::holds_alternative<Tracked>(h) != (i == 3)) return "[-1,-3]";
        if (i == 0) { if (a.get_if<int>() || a.get_if<IS>() || a.get_if<Tracked>()) return "[-1,-4]"; bool threw = false; try { neolib::visit([](auto&&) {}, a); } catch (std::bad_variant_access const&) { threw = true; } return threw ? "[0,0]" : "[-1,-5]"; }
        int k = 0, v = 0; neolib::visit([&](auto&& x) { k = kindOf(x); v = valueOf(x); }, a);
        int k2 = 0, v2 = 0; std::visit([&](auto&& x) { if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) { k2 = kindOf(x); v2 = valueOf(x); } }, h);
        if (k != k2 || v != v2 || k != (int)i) return "[-1,-6]";
        return pairOf(k, v);
    }
    template <class T> static void put(std::unique_ptr<H>& h, T x, int how)
    {
        A& a = *h;
        switch (how % 5)
        {
        case 0: *h = x; break; case 1: *h = std::move(x); break;
        case 2: if constexpr (std::is_same_v<T, S>) { IS const& i = x; a = i; } else a = x; break;
        case 3: h = std::make_unique<H>(x); break;
        default: if constexpr (std::is_same_v<T, S>) { IS const& i = x; *h = i; } else h = std::make_unique<H>(std::move(x));
        }
    }
    static void set(std::unique_ptr<H>& h, int k, int v, int how) { if (k == 1) put<int>(h, v, how); else if (k == 2) put<S>(h, make<S>(v), how); else put<Tracked>(h, Tracked(v), how); }
    static void clear(std::unique_ptr<H>& h, int how) { switch (how % 4) { case 0: *h = H{}; break; case 1: *h = neolib::none; break; case 2: h = std::make_unique<H>(); break; default: { H const e; static_cast<A&>(*h) = static_cast<A const&>(e); } } }
    static void copy(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how)
    {
        A& a = *h; H& n = *f; H const& c = *f; A const& ca = c;
        switch (how % 6) { case 0: *h = c; break; case 1: a = ca; break; case 2: *h = ca; break; case 3: h = std::make_unique<H>(c); break; case 4: h = std::make_unique<H>(ca); break; default: *h = n; }
    }
    static void move(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how) { if (how % 2) *h = std::move(*f); else h = std::make_unique<H>(std::move(*f)); *f = H{}; }
    static bool swap(H&, H&) { return false; }
    static bool compare(H const& x, H const& y, int& r, bool& eq)
    {
        eq = x == y; bool lt = x < y, gt = x > y; r = lt ? -1 : gt ? 1 : 0;
        if ((x != y) == eq || (x <= y) == gt || (x >= y) == lt) r = 9;
        return true;
    }
    static int orElse(H&, int, int) { return -1; }
    static int look(H& h, int k, int how)
    {
        A& a = h; A const& ca = h;
        try { switch (k) { case 1: return how % 3 == 0 ? std::get<int>(h) : how % 3 == 1 ? a.get<int>() : ca.get<int>(); case 2: return how % 3 == 0 ? number(std::get<S>(h)) : how % 3 == 1 ? number(a.get<IS>()) : number(ca.get<IS>()); default: return how % 3 == 0 ? std::get<Tracked>(h) : how % 3 == 1 ? a.get<Tracked>() : ca.get<Tracked>(); } }
        catch (std::bad_variant_access const&) { return -1; }
    }
};
struct Any
{
    using H = neolib::any; using A = neolib::i_any;
    static int kinds() { return 4; }
    static int kind(int k) { return k + 1; }
    static std::string state(H const& h)
    {
        A const& a = h; bool v = h.has_value(); if (v != a.has_value() || h.type() != a.type() || v == (h.type() == typeid(void))) return "[-1,-1]";
        if (!v) return "[0,0]";
        int k = h.type() == typeid(int) ? 1 : h.type() == typeid(std::string) ? 2 : h.type() == typeid(Tracked) ? 3 : h.type() == typeid(Big) ? 4 : -1;
        if (k == -1) return "[-1,-2]";
        return pairOf(k, look(const_cast<H&>(h), k, 1));
    }
    template <class T> static void put(std::unique_ptr<H>& h, T x, int how) { switch (how % 4) { case 0: *h = x; break; case 1: *h = std::move(x); break; case 2: h = std::make_unique<H>(x); break; default: h = std::make_unique<H>(std::as_const(x)); } }
    static void set(std::unique_ptr<H>& h, int k, int v, int how) { if (k == 1) { if (how % 5 == 4) h->emplace<int>(v); else put<int>(h, v, how); } else if (k == 2) put<std::string>(h, text(v), how); else if (k == 3) { if (how % 5 == 4) h->emplace<Tracked>(v); else put<Tracked>(h, Tracked(v), how); } else put<Big>(h, Big(v), how); }
    static void clear(std::unique_ptr<H>& h, int how) { switch (how % 4) { case 0: h->reset(); break; case 1: static_cast<A&>(*h).reset(); break; case 2: *h = H{}; break; default: h = std::make_unique<H>(); } }
    static void copy(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how)
    {
        H& n = *f; H const& c = *f; A const& ca = c; A& na = n;
        switch (how % 8) { case 0: *h = c; break; case 1: *h = n; break; case 2: *h = ca; break; case 3: *h = na; break; case 4: h = std::make_unique<H>(c); break; case 5: h = std::make_unique<H>(n); break; case 6: h = std::make_unique<H>(ca); break; default: h = std::make_unique<H>(na); }
    }
    static void move(std::unique_ptr<H>& h, std::unique_ptr<H>& f, int how)
    {
        A& a = *f; switch (how % 4) { case 0: *h = std::move(*f); break; case 1: h = std::make_unique<H>(std::move(*f)); break; case 2: *h = std::move(a); break; default: h = std::make_unique<H>(std::move(a)); }
        f->reset();
    }
    static bool swap(H& x, H& y) { using std::swap; swap(x, y); return true; }
    static bool compare(H const&, H const&, int&, bool&) { return false; }
    static int orElse(H&, int, int) { return -1; }
    template <class T> static T const* at(H& h, int how) { switch (how % 4) { case 0: return &neolib::any_cast<T&>(h); case 1: return &neolib::any_cast<T const&>(std::as_const(h)); case 2: { auto p = how % 2 ? neolib::any_cast<T>(&h) : neolib::any_cast<T>(&std::as_const(h)); if (!p) throw std::bad_any_cast(); return p; } default: if (h.type() != typeid(T)) throw std::bad_any_cast(); return &neolib::unsafe_any_cast<T const&>(std::as_const(h)); } }
    static int look(H& h, int k, int how)
    {
        try { switch (k) { case 1: return *at<int>(h, how); case 2: return number(*at<std::string>(h, how)); case 3: return *at<Tracked>(h, how); default: return at<Big>(h, how)->t; } }
        catch (std::bad_any_cast const&) { return -1; }
    }
};
template <class F> void run(vt::Rng& g, int runs, int length, bool streams)
{
    constexpr int N = 3; using H = typename F::H;
    while (runs--)
    {
        std::unique_ptr<H> h[N]; for (auto& x : h) x = std::make_unique<H>();
        auto dump = [&](auto&& e) { std::string s = "["; for (auto& x : h) s += (s.size() > 1 ? "," : "") + F::state(*x); e.raw("slots", s + "]").i("live", Tracked::live()).i("bad", Tracked::bad).end(); };
        dump(E("new"));
        for (int n = length; n--;)
        {
            int i = g.below(N), j = g.below(N), k = F::kind(g.below(F::kinds())), v = g.below(6), how = g.below(60);
            switch (g.below(12))
            {
            case 0: case 1: F::set(h[i], k, v, how); dump(E("set").i("h", i + 1).i("k", k).i("v", v).i("how", how)); break;
            case 2: F::clear(h[i], how); dump(E("clear").i("h", i + 1).i("how", how)); break;
            case 3: case 4: F::copy(h[i], h[j], how); dump(E("copy").i("h", i + 1).i("f", j + 1).i("how", how)); break;
            case 5: if (i != j) { F::move(h[i], h[j], how); dump(E("move").i("h", i + 1).i("f", j + 1).i("how", how)); } break;
            case 6: if (F::swap(*h[i], *h[j])) dump(E("swap").i("h", i + 1).i("f", j + 1)); break;
            case 7: { int r = 0; bool eq = false; if (F::compare(*h[i], *h[j], r, eq)) E("compare").i("h", i + 1).i("f", j + 1).i("order", r).b("eq", eq).end(); break; }
            case 8: { int r = F::orElse(*h[i], v, how); if (r != -1) E("orelse").i("h", i + 1).i("v", v).i("r", r).end(); break; }
            case 9: case 10: E("value").i("h", i + 1).i("k", k).i("r", F::look(*h[i], k, how)).end(); break;
            default:
                if constexpr (std::is_same_v<H, optional<int>>)
                {
                    if (g.below(2)) { std::ostringstream o; o << *h[i]; E("write").i("h", i + 1).b("none", o.str() == "?").i("r", o.str() == "?" ? 0 : atoi(o.str().c_str())).end(); }
                    else { static char const* const T[] = { "?", " ?", "3", " 5", "?4", "" }; int t = g.below(6); std::istringstream in{ T[t] }; in >> *h[i]; dump(E("read").i("h", i + 1).i("v", t == 2 ? 3 : t == 3 ? 5 : t == 5 ? -2 : -1).b("ok", !!in)); }
                }
            }
        }
        for (auto& x : h) x.reset();
        E("end").i("live", Tracked::live()).i("bad", Tracked::bad).end();
    }
}
int main(int argc, char** argv)
{
    std::string m = argv[1]; vt::Out::get().open(argv[2]); vt::Rng g(atoll(argv[4]) * 1000 + atoi(argv[3])); int runs = atoi(argv[5]), length = atoi(argv[6]);
    if (m == "optint") run<Opt<int>>(g, runs, length, true); else if (m == "optstr") run<Opt<S>>(g, runs, length, false); else if (m == "opttrk") run<Opt<Tracked>>(g, runs, length, false);
    else if (m == "variant") run<Var>(g, runs, length, false); else run<Any>(g, runs, length, false);
}
