// tag_array under random histories of two arrays.
#include <neolib/core/tag_array.hpp>
#include <memory>
#include <sstream>
#include "trace.hpp"
#include "tracked.hpp"
using namespace vt;
template <typename U> struct Tag
{
    template <typename V> struct rebind { using type = Tag<V>; };
    int v;
    explicit Tag(int x) : v{ x } {}
    Tag(U&, Tag const& o) : v{ o.v } {}
    Tag(Tag const&) = default;
    bool operator==(Tag const& o) const { return v == o.v; }
    bool operator!=(Tag const& o) const { return v != o.v; }
};
template <typename A> struct Driver
{
    using T = typename A::tag_type;
    std::unique_ptr<A> a[2]; Rng r{ 1 }; int next = 0; long long base = 0; int tags = 3; int cap = 0;
    void end(E& e)
    {
        std::string v = "[", z = "[", m = "[", sp = "["; int how = r.below(4);
        for (int o = 0; o < 2; ++o)
        {
            auto& t = *a[o]; auto const& c = t; if (o) { v += ","; z += ","; m += ","; sp += ","; } v += "["; int n = 0;
            void const* seg = nullptr; int run = 0; std::vector<int> runs; // a segment is known by the address of its tag
            auto one = [&](auto i) { if (n++) v += ","; if (seg != &c.tag(i)) { if (run) runs.push_back(run); seg = &c.tag(i); run = 0; } ++run; v += "[" + std::to_string(c.tag(i).v) + "," + std::to_string((int)*i) + "]"; };
            if (how == 0) for (auto i = c.begin(); i != c.end() && n < 4000; ++i) one(i);
            else if (how == 1) for (auto i = t.begin(); i != t.end() && n < 4000; i++) one(i);
            else if (how == 2) for (int k = 0; k < (int)c.size(); ++k) one(c.begin() + k);
            else for (int k = 0; k < (int)c.size(); ++k) one(t.end() - ((int)c.size() - k));
            if (run) runs.push_back(run); sp += js(runs); v += "]"; z += std::to_string(c.size()); m += c.empty() ? "true" : "false";
        }
        e.raw("vals", v + "]").raw("sizes", z + "]").raw("none", m + "]").raw("spans", sp + "]").i("cap", cap).i("live", Tracked::live() - base).i("bad", Tracked::bad).end();
    }
    int val() { return ++next; }
    static std::string js(std::vector<int> const& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
    void step(int big)
    {
        int o = r.below(2); auto& c = *a[o]; auto const& cc = c; int n = (int)c.size(); int op = r.below(100);
        auto pos = [&](int p) { return r.chance(1, 2) ? c.begin() + p : p == n ? c.end() : c.end() - (n - p); };
        auto res = [&](E& e, typename A::iterator i) { int p = (int)(i - c.begin()); e.i("res", p).i("at", p >= 0 && p < (int)c.size() ? (int)*i : 0); };
        if (op < 50)
        {
            if (n > big) return;
            int p = r.chance(1, 4) ? n : r.range(0, n); int g = r.range(1, tags); int k = r.below(7);
            if (k > 1 && n && r.chance(1, 2)) g = cc.tag(c.begin() + std::min(n - 1, std::max(0, p - r.below(2)))).v;
            T tag{ g }; std::vector<int> xs; E e("insert"); e.i("o", o + 1);
            if (k == 0) { xs = { val() }; Tracked x{ xs[0] }; c.push_back(tag, x); p = n; e.i("res", n).i("at", xs[0]); }
            else if (k == 1) { xs = { val() }; Tracked x{ xs[0] }; c.push_front(tag, x); p = 0; e.i("res", 0).i("at", xs[0]); }
            else if (k == 2) { xs = { val() }; Tracked x{ xs[0] }; res(e, c.insert(tag, pos(p), x)); }
            else if (k == 3) { int m = r.range(0, 9), v = val(); xs.assign(m, v); Tracked x{ v }; res(e, c.insert(tag, pos(p), (std::size_t)m, x)); }
            else if (k == 4) { int m = r.range(0, 12); for (int i = 0; i < m; ++i) xs.push_back(val()); std::istringstream s; std::string t; for (int x : xs) t += std::to_string(x) + " "; s.str(t); res(e, c.insert(tag, pos(p), std::istream_iterator<int>{ s }, std::istream_iterator<int>{})); }
            else { int m = r.range(0, r.chance(1, 3) ? 20 : 5); for (int i = 0; i < m; ++i) xs.push_back(val()); if (k == 5) res(e, c.insert(tag, pos(p), xs.begin(), xs.end())); else { auto const* f = xs.data(); res(e, c.insert(tag, pos(p), f, f + m)); } }
            e.i("p", p).i("tag", g).raw("xs", js(xs)); end(e); return;
        }
        if (op < 56)
        {
            auto const& f = *a[1 - o]; int m = (int)f.size(); if (n + m > 2 * big) return; int b = r.range(0, m), q = r.range(b, m), p = r.range(0, n);
            E e("graft"); e.i("o", o + 1).i("p", p).i("b", b).i("q", q); typename A::const_iterator at = pos(p); res(e, c.insert(at, f.begin() + b, f.begin() + q)); end(e); return;
        }
        if (op < 82)
        {
            if (n == 0) return; int p = r.below(n), m = r.chance(1, 2) ? 1 : r.range(0, std::min(n - p, r.chance(1, 4) ? n : 6)); int k = r.below(5); E e("erase"); e.i("o", o + 1);
            if (k == 0) { c.pop_back(); p = n - 1; m = 1; e.i("res", p).i("at", 0); }
            else if (k == 1) { c.pop_front(); p = 0; m = 1; e.i("res", 0).i("at", n > 1 ? (int)c.front() : 0); }
            else if (k == 2 && r.chance(1, 6)) { c.clear(); p = 0; m = n; e.i("res", 0).i("at", 0); }
            else if (m == 1 && r.chance(1, 2)) res(e, c.erase(pos(p))); else res(e, c.erase(pos(p), pos(p + m)));
            e.i("p", p).i("n", m); end(e); return;
        }
        if (op < 86) { if (n == 0) return; int p = r.below(n), v = val(); int k = r.below(4); if (k == 0) c[p] = v; else if (k == 1) pos(p)->v = v; else if (k == 2) { p = 0; c.front() = v; } else { p = n - 1; c.back() = v; } E e("value"); e.i("o", o + 1).i("p", p).i("v", v); end(e); return; }
        if (op < 90) { int k = r.below(3); if (k == 0) a[o] = std::make_unique<A>(*a[1 - o]); else c = *a[1 - o]; E e("copy"); e.i("o", o + 1); end(e); return; }
        if (op < 91) { auto& self = c; c = self; E e("self"); end(e); return; }
        if (op < 93) { a[0]->swap(*a[1]); E e("swap"); end(e); return; }
        if (op < 94) { int g = r.range(1, tags); std::vector<int> xs; int m = r.below(8); if (r.chance(1, 2)) { xs.assign(m, val()); Tracked x{ m ? xs[0] : 0 }; a[o] = std::make_unique<A>(T{ g }, (std::size_t)m, x); } else { for (int i = 0; i < m; ++i) xs.push_back(val()); a[o] = std::make_unique<A>(T{ g }, xs.begin(), xs.end()); } E e("make"); e.i("o", o + 1).i("tag", g).raw("xs", js(xs)); end(e); return; }
        if (op < 97) { if (n == 0) return; int p = r.below(n), p2 = r.below(n); auto i = pos(p), j = pos(p2); typename A::const_iterator ci = i, cj = j; auto f = r.chance(1, 2) ? i[p2 - p].v : ci[p2 - p].v; E e("at"); e.i("o", o + 1).i("p", p).i("p2", p2).i("res", r.chance(1, 2) ? (int)cc[p] : (int)*ci).i("off", f).i("dist", i - j).i("cdist", ci - cj).b("less", r.chance(1, 2) ? i < j : ci < cj).b("eq", *a[0] == *a[1]); end(e); return; }
        E e("rev"); std::vector<int> v; int k = r.below(3); if (k == 0) for (auto i = c.rbegin(); i != c.rend(); ++i) v.push_back((int)*i); else if (k == 1) for (auto i = cc.rbegin(); i != cc.rend(); ++i) v.push_back((int)*i); else for (auto i = c.end(); i != c.begin();) { i--; v.push_back((int)*i); } e.i("o", o + 1).seq("res", v); end(e);
    }
    void run(int len, int big) { base = Tracked::live(); for (auto& x : a) x = std::make_unique<A>(); E e("reset"); end(e); for (int i = 0; i < len; ++i) step(big); }
};
template <std::size_t S, std::size_t M> void history(uint64_t seed, int len, int big) { { Driver<neolib::tag_array<Tag<void*>, Tracked, S, M>> d; d.r = Rng(seed); d.tags = 1 + seed % 3; d.cap = M; d.run(len, big); } E e("gone"); e.i("live", Tracked::live()).i("bad", Tracked::bad).end(); }
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    for (int h = 0; h < hist; ++h)
    {
        int big = h % 3 == 0 ? 8 : h % 3 == 1 ? 20 : 50; uint64_t s = seed * 100003 + h;
        switch (h % 5) { case 0: history<1, 1>(s, len, big); break; case 1: history<2, 4>(s, len, big); break; case 2: history<3, 3>(s, len, big); break; case 3: history<4, 9>(s, len, big); break; default: history<16, 256>(s, len, big); }
    }
    return 0;
}
