// indexitor (over index_array_tree) under random histories of two lists.
#include <neolib/core/indexitor.hpp>
#include <memory>
#include "trace.hpp"
using namespace vt;
using List = neolib::indexitor<int, int>; using V = List::value_type; using S = List::skip_type;
struct Driver
{
    std::unique_ptr<List> a[2]; Rng r{ 1 }; int next = 0;
    void end(E& e)
    {
        std::string v = "[", t = "[", z = "[";
        for (int o = 0; o < 2; ++o)
        {
            auto const& c = *a[o]; if (o) { v += ","; t += ","; z += ","; } v += "["; bool f = true;
            for (auto i = c.begin(); i != c.end(); ++i) { if (!f) v += ","; f = false; auto ln = i->second; v += "[" + std::to_string(i->first) + "," + std::to_string(ln) + "," + std::to_string(c.skip_before(i)) + "," + std::to_string(c.skip_after(i)) + "," + std::to_string(c.foreign_index(i)) + "," + std::to_string(c.index(i)) + "]"; }
            v += "]"; t += std::to_string(c.foreign_index(c.end())); z += std::to_string(c.size());
        }
        e.raw("vals", v + "]").raw("tot", t + "]").raw("sizes", z + "]").end();
    }
    V val() { return V{ ++next, r.chance(1, 4) ? 0 : r.range(1, r.chance(1, 3) ? 9 : 3) }; }
    S skip() { return r.chance(1, 2) ? S{} : S{ r.below(3), r.below(3) }; }
    static std::string show(V const& v, S const& s) { return "[" + std::to_string(v.first) + "," + std::to_string(v.second) + "," + std::to_string(s.first) + "," + std::to_string(s.second) + "]"; }
    void step(int big)
    {
        int o = r.below(2); auto& c = *a[o]; int n = (int)c.size(); int op = r.below(100);
        auto pos = [&](int p) { return r.chance(1, 2) ? c.begin() + p : p == n ? c.end() : c.end() - (n - p); };
        auto it = [&](List::const_iterator i) { return (int)c.index(i); };
        if (op < 30 || n == 0)
        {
            if (n > big) return; int p = r.chance(1, 3) ? n : r.range(0, n); int k = r.below(4); V v = val(); S s = skip(); E e(k == 2 ? "fill" : "insert"); e.i("o", o + 1);
            if (k == 0) { if (r.chance(1, 2)) { auto x = c.insert(pos(p), v, s); e.i("p", p).raw("xs", "[" + show(v, s) + "]").i("res", it(x)); } else if (r.chance(1, 2)) { c.push_back(v, s); e.i("p", n).raw("xs", "[" + show(v, s) + "]").i("res", n); } else { c.push_front(v, s); e.i("p", 0).raw("xs", "[" + show(v, s) + "]").i("res", 0); } }
            else if (k == 1) { std::vector<V> vs; std::vector<S> ss; int m = r.range(0, 5); std::string x; for (int i = 0; i < m; ++i) { vs.push_back(val()); ss.push_back(skip()); x += (i ? "," : "") + show(vs[i], ss[i]); } auto y = c.insert(pos(p), vs.begin(), vs.end(), ss.begin(), ss.end()); e.i("p", p).raw("xs", "[" + x + "]").i("res", it(y)); }
            else if (k == 2) { int m = r.range(0, 4); auto y = c.insert(pos(p), (std::size_t)m, v, s); e.i("p", p).i("n", m).raw("xs", "[" + show(v, s) + "]").i("res", it(y)); }
            else { std::vector<V> vs; int m = r.range(1, 4); std::string x; for (int i = 0; i < m; ++i) { vs.push_back(val()); x += (i ? "," : "") + show(vs[i], S{}); } auto y = c.insert(pos(p), vs.begin(), vs.end()); e.i("p", p).raw("xs", "[" + x + "]").i("res", it(y)); }
            end(e); return;
        }
        if (op < 50)
        {
            int p = r.below(n), m = r.chance(1, 2) ? 1 : r.range(0, std::min(n - p, 6)); E e("erase"); e.i("o", o + 1); int k = r.below(6); int res;
            if (k == 0) { c.pop_back(); p = n - 1; m = 1; res = p; } else if (k == 1) { c.pop_front(); p = 0; m = 1; res = 0; } else if (k == 2 && n > 12) { c.clear(); p = 0; m = n; res = 0; }
            else if (m == 1 && r.chance(1, 2)) res = it(c.erase(pos(p))); else res = it(c.erase(pos(p), pos(p + m)));
            e.i("p", p).i("n", m).i("res", res); end(e); return;
        }
        if (op < 54) { int m = r.range(0, n + 3); V v = val(); S s = skip(); c.resize(m, v, s); E e("resize"); e.i("o", o + 1).i("n", m).raw("xs", "[" + show(v, s) + "]"); end(e); return; }
        if (op < 68) { int p = r.below(n); V v = val(); S s = skip(); c.update_foreign_index(pos(p), v.second, s); E e("update"); e.i("o", o + 1).i("p", p).raw("xs", "[" + show(v, s) + "]"); end(e); return; }
        if (op < 72) { int p = r.below(n), v = ++next; if (r.chance(1, 2)) c[p].first = v; else (*pos(p)).first = v; E e("value"); e.i("o", o + 1).i("p", p).i("v", v); end(e); return; }
        if (op < 76) { if (r.chance(1, 2)) a[o] = std::make_unique<List>(*a[1 - o]); else c = *a[1 - o]; E e("copy"); e.i("o", o + 1).i("f", 2 - o); end(e); return; }
        if (op < 78) { a[0]->swap(*a[1]); E e("swap"); end(e); return; }
        if (op < 92)
        {
            int tot = c.foreign_index(std::as_const(c).end()); E e("find"); e.i("o", o + 1); std::string s = "[";
            int lo = std::max(0, r.below(tot + 3) - 4);
            for (int x = lo; x < lo + 8; ++x) { int i, fi; if (r.chance(1, 2)) { auto f = std::as_const(c).find_by_foreign_index(x); i = it(f.first); fi = f.second; } else { auto f = c.find_by_foreign_index(x); i = it(f.first); fi = f.second; } s += std::string(x > lo ? "," : "") + "[" + std::to_string(x) + "," + std::to_string(i) + "," + std::to_string(fi) + "]"; }
            e.raw("res", s + "]"); end(e); return;
        }
        if (op < 96) { int p = r.below(n), p2 = r.below(n); auto i = pos(p), j = pos(p2); List::const_iterator ci = i; E e("at"); int k = r.below(4); e.i("o", o + 1).i("p", p).i("p2", p2).i("res", k == 0 ? i->first : k == 1 ? std::as_const(c)[p].first : k == 2 ? (*ci).first : j[p - p2].first).i("idx", it(i)).i("dist", i - j); end(e); return; }
        E e("rev"); std::vector<int> v; if (r.chance(1, 2)) for (auto i = c.rbegin(); i != c.rend(); ++i) v.push_back((*i).first); else for (auto i = c.end(); i != c.begin();) { --i; v.push_back(i->first); } e.i("o", o + 1).seq("res", v); end(e);
    }
};
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    for (int h = 0; h < hist; ++h)
    {
        Driver d; d.r = Rng(seed * 100003 + h); for (auto& x : d.a) x = std::make_unique<List>(); E e("reset"); d.end(e);
        int big = h % 3 == 0 ? 6 : h % 3 == 1 ? 16 : 40; for (int i = 0; i < len; ++i) d.step(big);
    }
    return 0;
}
