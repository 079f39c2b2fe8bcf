// segmented_tree (tree) under random histories of two trees.
#include <neolib/core/tree.hpp>
#include <memory>
#include "trace.hpp"
#include "tracked.hpp"
using namespace vt;
template <typename Tree> struct Driver
{
    std::unique_ptr<Tree> a[2]; Rng r{ 1 }; int uid = 0; long long base = 0;
    int fresh() { return (++uid * 7919) % 10007 + 1; } // distinct, in no particular order
    using Mode = int;
    template <typename It> static std::vector<int> walk(It b, It e, bool post) { std::vector<int> v; for (; b != e && v.size() < 4000;) { v.push_back((int)*b); if (post) b++; else ++b; } return v; }
    static std::string js(std::vector<int> const& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
    auto node(Tree& t, int i) { auto it = t.begin(); while (i-- > 1) ++it; return it; }
    void end(E& e, int o)
    {
        auto& t = *a[o]; auto const& ct = t; bool post = r.chance(1, 2);
        std::string all = "[", sizes = "[", none = "[";
        for (int k = 0; k < 2; ++k) { auto const& c = *a[k]; if (k) { all += ","; sizes += ","; none += ","; } all += js(walk(c.begin(), c.end(), post)); sizes += std::to_string(c.size()); none += c.empty() ? "true" : "false"; }
        e.raw("all", all + "]").raw("sizes", sizes + "]").raw("none", none + "]");
        std::string nodes = "[", sib = "[", bis = "["; bool cst = r.chance(1, 2);
        auto kids = [&](auto b, auto en, auto rb, auto re, bool first) { sib += (first ? "" : ",") + js(walk(b, en, post)); bis += (first ? "" : ",") + js(walk(rb, re, false)); };
        if (cst) kids(ct.sbegin(), ct.send(), ct.rsbegin(), ct.rsend(), true); else kids(t.sbegin(), t.send(), t.rsbegin(), t.rsend(), true);
        auto one = [&](auto it, bool first) { nodes += std::string(first ? "" : ",") + "[" + std::to_string((int)*it) + "," + std::to_string(it.depth()) + "," + std::to_string(it.descendent_count()) + "," + (it.children_skipped() ? "1" : "0") + "," + std::to_string(it.parent_is_root() ? 0 : r.chance(1, 2) ? (int)*it.parent() : (int)*it.cparent()) + "]"; kids(it.begin(), it.end(), it.rbegin(), it.rend(), false); };
        if (cst) for (auto it = ct.begin(); it != ct.end(); ++it) one(it, it == ct.begin()); else for (auto it = t.begin(); it != t.end(); ++it) one(it, it == t.begin());
        e.raw("nodes", nodes + "]").raw("sib", sib + "]").raw("bis", bis + "]");
        if (cst) e.raw("back", js(walk(ct.rbegin(), ct.rend(), post))); else e.raw("back", js(walk(t.rbegin(), t.rend(), post)));
        e.raw("seen", js(walk(t.kbegin(), t.kend(), post))).raw("cseen", js(walk(ct.ckbegin(), ct.ckend(), post)));
        if (cst) e.raw("nees", js(walk(ct.rkbegin(), ct.rkend(), false))); else e.raw("nees", js(walk(t.rkbegin(), t.rkend(), false)));
        e.i("ksize", t.ksize()).i("live", Tracked::live() - base).i("bad", Tracked::bad).i("o", o + 1).end();
    }
    void step(int big)
    {
        int o = r.below(2); auto& t = *a[o]; int n = (int)t.size(); int op = r.below(100);
        auto children = [&](int p) { if (p == 0) return (int)std::distance(t.sbegin(), t.send()); auto i = node(t, p); return (int)std::distance(i.begin(), i.end()); };
        if (op < 22) // insert
        {
            if (n > big) return; int p = n && r.chance(4, 5) ? r.range(1, n) : 0; int m = children(p); int c = r.chance(1, 3) ? m : r.range(0, m); int v = fresh();
            auto pos = p == 0 ? t.sbegin() : node(t, p).begin(); auto en = p == 0 ? t.send() : node(t, p).end();
            if (r.chance(1, 2)) { for (int i = 0; i < c; ++i) ++pos; } else { pos = en; for (int i = m; i > c; --i) --pos; }
            auto res = t.insert(pos, Tracked{ v });
            E e("insert"); e.i("p", p).i("c", c).i("v", v).raw("at", "[" + std::to_string((int)*res) + "," + std::to_string(res.depth()) + "]"); end(e, o); return;
        }
        if (op < 50)
        {
            if (n > big) return; int p = n && r.chance(4, 5) ? r.range(1, n) : 0; int v = fresh(); Tracked x{ v }; bool back = r.chance(1, 2);
            if (p == 0) { if (r.chance(1, 2)) back ? t.push_back(x) : t.push_front(x); else back ? t.push_back(typename Tree::const_iterator{}, x) : t.push_front(typename Tree::const_iterator{}, x); }
            else if (r.chance(1, 2)) back ? t.push_back(node(t, p), x) : t.push_front(node(t, p), x);
            else { typename Tree::const_sibling_iterator s = node(t, p); back ? t.push_back(s, x) : t.push_front(s, x); }
            x.~Tracked(); // the record that follows counts only what the trees hold
            E e(back ? "append" : "prepend"); e.i("p", p).i("v", v); end(e, o); new(&x) Tracked{ 0 }; return;
        }
        if (n == 0) return;
        int p = r.range(1, n); auto it = node(t, p);
        if (op < 66)
        {
            if (r.chance(1, 2)) { for (int k = 0; k < 3 && it.descendent_count() > (std::size_t)n / 3; ++k) it = node(t, p = r.range(1, n)); }
            int k = r.below(3); typename Tree::iterator res;
            if (k == 0) res = t.erase(it); else if (k == 1) { typename Tree::sibling_iterator s = it; res = t.erase(s); } else { typename Tree::const_skip_iterator s = it; res = t.erase(s); }
            E e("erase"); e.i("p", p).i("next", res == t.end() ? 0 : (int)*res); end(e, o); return;
        }
        if (op < 76) { if (r.chance(1, 2)) it.skip_children(); else { typename Tree::sibling_iterator s = it; s.skip_children(); } E e("skip"); e.i("p", p); end(e, o); return; }
        if (op < 84) { if (r.chance(1, 2)) it.unskip_children(); else { typename Tree::skip_iterator s = it; s.unskip_children(); } E e("unskip"); e.i("p", p); end(e, o); return; }
        if (op < 87) { int v = fresh(); if (r.chance(1, 2)) *it = v; else it->v = v; E e("value"); e.i("p", p).i("v", v); end(e, o); return; }
        if (op < 94) { bool down = r.chance(1, 2); if (down) t.sort(std::greater<Tracked>{}); else t.sort(); E e("sort"); e.i("down", down); end(e, o); return; }
        if (op < 95) { t.clear(); E e("clear"); end(e, o); return; }
        if (op < 99) { if (r.chance(1, 2)) a[o] = std::make_unique<Tree>(*a[1 - o]); else if (r.chance(1, 2)) t = *a[1 - o]; else { Tree x{ *a[1 - o] }; t = std::move(x); } E e("copy"); end(e, o); return; }
    }
    void run(int len, int big) { for (auto& x : a) x = std::make_unique<Tree>(); base = Tracked::live(); E e("reset"); end(e, 0); for (int i = 0; i < len; ++i) step(big); }
};
template <std::size_t N> void history(uint64_t seed, int len, int big) { Driver<neolib::tree<Tracked, N>> d; d.r = Rng(seed); d.run(len, big); }
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    for (int h = 0; h < hist; ++h)
    {
        int big = h % 3 == 0 ? 8 : h % 3 == 1 ? 16 : 30; uint64_t s = seed * 100003 + h;
        switch (h % 4) { case 0: history<2>(s, len, big); break; case 1: history<3>(s, len, big); break; case 2: history<4>(s, len, big); break; default: history<64>(s, len, big); }
    }
    return 0;
}
