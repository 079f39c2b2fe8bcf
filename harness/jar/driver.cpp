// Jars (basic_jar, basic_std_vector_jar) and counted cookies under random histories.
// KIND 0 jar, 1 std_vector_jar; ITEM 0 Tracked, 1 smart pointer, 2 int; COOKIE the cookie type; IFACE: edits go through i_basic_jar
#include <neolib/core/jar.hpp>
#include <memory>
#include <optional>
#include <map>
#include "trace.hpp"
#include "tracked.hpp"
using namespace vt;
#ifndef COOKIE
#define COOKIE std::uint32_t
#endif
#if ENUMCOOKIE
enum class Cookie : COOKIE { None };
#else
using Cookie = COOKIE;
#endif
using UC = COOKIE;
#if ITEM == 0
using T = Tracked; static int get(T const& t) { return (int)t; }
#elif ITEM == 1
using T = std::unique_ptr<Tracked>; static int get(T const& t) { return t ? (int)*t : -1; }
#elif ITEM == 3
using T = std::shared_ptr<Tracked>; static int get(T const& t) { return t ? (int)*t : -1; }
#else
using T = int; static int get(T const& t) { return t; }
#endif
#if KIND == 0
#if ITEM == 2
using Jar = neolib::basic_jar<T, neolib::vector<T>, Cookie>;
#else
using Jar = neolib::basic_jar<T, std::vector<T>, Cookie>;
#endif
#else
using Jar = neolib::basic_std_vector_jar<T, Cookie, std::recursive_mutex>;
#endif
using neolib::cookie_type_helper;
static Cookie ck(int c) { return static_cast<Cookie>((UC)c); }
static int ci(Cookie c) { return (int)(UC)c; }
struct Consumer : neolib::i_basic_cookie_consumer<Cookie>
{
    Jar* jar = nullptr; std::map<int, long> n; long bad = 0;
    void add_ref(Cookie c, long k) override { n[ci(c)] += k; }
    void release(Cookie c, long k) override { long& x = n[ci(c)]; x -= k; if (x < 0) ++bad; if (x == 0) { n.erase(ci(c)); if (jar->contains(c)) jar->remove(c); else ++bad; } }
    long use_count(Cookie c) const override { auto i = n.find(ci(c)); return i == n.end() ? 0 : i->second; }
};
using Ref = neolib::basic_cookie_ref_ptr<Cookie>;
struct Driver
{
    std::unique_ptr<Jar> a[2]; Consumer k; std::optional<Ref> p[4]; Rng r{ 1 }; int next = 0; std::vector<int> reserved[2], dead[2]; int cap;
    Driver() { for (auto& x : a) x = std::make_unique<Jar>(); k.jar = a[0].get(); }
    ~Driver() { for (auto& x : p) x.reset(); }
#if KIND == 0 && IFACE
    using I = neolib::i_basic_jar<neolib::maybe_abstract_t<T>, neolib::maybe_abstract_t<Jar::container_type>, Cookie>;
    I& j(int o) { return *a[o]; } I const& cj(int o) { return *a[o]; }
#else
    Jar& j(int o) { return *a[o]; } Jar const& cj(int o) { return *a[o]; }
#endif
    void end(E& e)
    {
        std::string v = "[";
        for (int o = 0; o < 2; ++o)
        {
            auto const& c = *a[o]; if (o) v += ","; v += "["; bool f = true;
            for (auto i = c.begin(); i != c.end(); ++i) { if (!f) v += ","; f = false; v += "[" + std::to_string(ci(c.item_cookie(*i))) + "," + std::to_string(get(*i)) + "]"; }
            v += "]";
        }
        std::string rf = "[", n = "[";
        for (int i = 0; i < 4; ++i) { rf += std::string(i ? "," : "") + (p[i] && p[i]->valid() ? std::to_string(ci(p[i]->cookie())) : "0"); }
        for (auto& x : k.n) n += std::string(n.size() > 1 ? "," : "") + "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
        e.raw("vals", v + "]").seq("sizes", std::vector<int>{ (int)a[0]->size(), (int)a[1]->size() }).seq("empty", std::vector<int>{ a[0]->empty(), a[1]->empty() }).raw("refs", rf + "]").raw("cnt", n + "]").i("kbad", k.bad);
#if ITEM != 2
        e.i("live", Tracked::live()).i("bad", Tracked::bad);
#endif
        e.end();
    }
    bool counted(int c) { for (auto& x : p) if (x && x->valid() && ci(x->cookie()) == c) return true; return false; }
    int pick(int o) { auto& c = *a[o]; int n = (int)c.size(); if (!n) return 0; return ci(c.item_cookie(*std::next(c.begin(), r.below(n)))); }
    int any(int o) { int x = r.below(4); if (x < 2) return pick(o); if (x == 2 && !dead[o].empty()) return dead[o][r.below(dead[o].size())]; return r.range(0, std::min<int>(cap + 1, 40)); }
    bool isres(int o, int c) { for (int x : reserved[o]) if (x == c) return true; return false; }
    int insert(int o, int v)
    {
#if ITEM == 1
#if KIND == 0
        return ci(a[o]->emplace(v));
#else
        return ci(r.chance(1, 2) ? a[o]->emplace(v) : a[o]->emplace(std::make_unique<Tracked>(v)));
#endif
#elif ITEM == 3
#if KIND == 0
        return ci(a[o]->emplace(v));
#else
        if (r.chance(1, 2)) return ci(a[o]->emplace(v)); auto x = std::make_shared<Tracked>(v); return ci(r.chance(1, 2) ? a[o]->emplace(x) : a[o]->insert(x));
#endif
#else
        if (r.chance(1, 2)) return ci(a[o]->emplace(v)); T t(v); return ci(j(o).insert(t));
#endif
    }
    int add(int o, int c, int v)
    {
        auto& x = *a[o];
#if ITEM == 1 || ITEM == 3
        auto i = x.add(ck(c), v);
#else
        if (r.chance(1, 2)) { T t(v); auto i = j(o).add(ck(c), t); return (int)std::distance(j(o).begin(), i); }
        auto i = x.add(ck(c), v);
#endif
        return (int)std::distance(x.begin(), i);
    }
    void step()
    {
        int o = r.chance(2, 3) ? 0 : 1; auto& c = *a[o]; int n = (int)c.size(); int op = r.below(100);
        if (op < 26)
        {
            if (n > 60 && cap > 1000 && !r.chance(1, 4)) return; int v = ++next;
            try { int x = insert(o, v); E e("insert"); e.i("o", o + 1).i("v", v).i("c", x); end(e); }
            catch (neolib::cookies_exhausted const&) { E e("full"); e.i("o", o + 1); end(e); }
            return;
        }
        if (op < 32) { try { int x = ci(j(o).next_cookie()); reserved[o].push_back(x); E e("next"); e.i("o", o + 1).i("c", x); end(e); } catch (neolib::cookies_exhausted const&) { E e("full"); e.i("o", o + 1); end(e); } return; }
        if (op < 38 && !reserved[o].empty())
        {
            int i = r.below(reserved[o].size()), x = reserved[o][i]; reserved[o].erase(reserved[o].begin() + i);
            if (r.chance(1, 3)) { j(o).return_cookie(ck(x)); E e("unnext"); e.i("o", o + 1).i("c", x); end(e); }
            else { int v = ++next; int at = add(o, x, v); E e("add"); e.i("o", o + 1).i("c", x).i("v", v).i("res", at); end(e); }
            return;
        }
        if (op < 41 && n) { int x = pick(o); bool threw = false; try { add(o, x, 9999); } catch (neolib::cookie_already_added const&) { threw = true; } E e("addbad"); e.i("o", o + 1).i("c", x).b("threw", threw); end(e); return; }
        if (op < 62 && n)
        {
            int q = r.below(n), m = r.below(5), x = ci(c.item_cookie(*std::next(c.begin(), q))); if (o == 0 && counted(x)) return; int res;
            if (m < 2) res = (int)std::distance(j(o).begin(), j(o).remove(ck(x)));
            else if (m == 2) res = (int)std::distance(c.begin(), c.erase(std::next(static_cast<Jar const&>(c).begin(), q)));
#if ITEM == 0 || ITEM == 2
            else if (m == 3) res = (int)std::distance(c.begin(), c.remove(static_cast<T const&>(*std::next(c.begin(), q))));
#endif
            else res = (int)std::distance(c.begin(), c.remove(ck(x)));
            dead[o].push_back(x); E e("remove"); e.i("o", o + 1).i("c", x).i("p", q).i("res", res); end(e); return;
        }
        if (op < 65) { int x = any(o); if (c.contains(ck(x)) || isres(o, x)) return; int how = 0; try { if (r.chance(1, 2)) { j(o).remove(ck(x)); how = 1; } else { get(r.chance(1, 2) ? c[ck(x)] : static_cast<Jar const&>(c)[ck(x)]); how = 2; } } catch (neolib::cookie_invalid const&) {} E e("refuse"); e.i("o", o + 1).i("c", x).i("got", how); end(e); return; }
        if (op < 76)
        {
            E e("query"); e.i("o", o + 1); std::string s = "[";
            for (int i = 0; i < 5; ++i)
            {
                int x = any(o); bool h = cj(o).contains(ck(x)); int f, v = -1;
                if (r.chance(1, 2)) { auto it = std::as_const(c).find(ck(x)); f = (int)std::distance(std::as_const(c).begin(), it); if (it != std::as_const(c).end()) v = get(*it); } else { auto it = c.find(ck(x)); f = (int)std::distance(c.begin(), it); if (it != c.end()) v = get(*it); }
                if (h && r.chance(1, 2)) v = r.chance(1, 2) ? get(c[ck(x)]) : get(std::as_const(c)[ck(x)]);
                s += std::string(i ? "," : "") + "[" + std::to_string(x) + "," + std::to_string(h) + "," + std::to_string(f) + "," + std::to_string(v) + "]";
            }
            e.raw("res", s + "]"); end(e); return;
        }
        if (op < 79 && n) { int x = pick(o), v = ++next; 
#if ITEM == 1 || ITEM == 3
            *c[ck(x)] = Tracked(v);
#else
            c[ck(x)] = T(v);
#endif
            E e("set"); e.i("o", o + 1).i("c", x).i("v", v); end(e); return; }
        if (op < 80 && o == 1) { j(o).clear(); reserved[o].clear(); E e("clear"); e.i("o", o + 1); end(e); return; }
        if (op < 82 && o == 1)
        {   // the other jar takes over contents and cookies
#if ITEM != 1 && ITEM != 3
            if (r.chance(1, 2)) { if (r.chance(1, 2)) a[1] = std::make_unique<Jar>(std::as_const(*a[0])); else *a[1] = std::as_const(*a[0]); reserved[1] = reserved[0]; E e("copy"); e.i("o", 2).i("f", 1); end(e); return; }
#endif
            bool any = false; for (auto& x : p) if (x && x->valid()) any = true; if (any) return;
            if (r.chance(1, 2)) { a[1] = std::make_unique<Jar>(std::move(*a[0])); } else *a[1] = std::move(*a[0]); reserved[1] = reserved[0]; reserved[0].clear(); E e("move"); e.i("o", 2).i("f", 1); end(e); return;
        }
        // counted cookies over jar 0
        int s = r.below(4), t = r.below(4); int m = r.below(9); if (!p[s]) p[s].emplace();
        if (m < 2) { int x = pick(0); if (!x) return; p[s] = Ref(k, ck(x)); E e("hold"); e.i("s", s + 1).i("c", x); end(e); return; }
        if (m == 2 && next % 2) { int v = ++next; try { int x = insert(0, v); p[s] = Ref(k, ck(x)); E e("insert"); e.i("o", 1).i("v", v).i("c", x); e.i("s", s + 1); end(e); } catch (neolib::cookies_exhausted const&) { E e("full"); e.i("o", 1); end(e); } return; }
        if (m == 3) { if (!p[t]) p[t].emplace(); if (s == t) { auto& x = *p[s]; *p[s] = x; } else if (r.chance(1, 2)) *p[s] = std::as_const(*p[t]); else p[s].emplace(std::as_const(*p[t])); E e("rcopy"); e.i("s", s + 1).i("t", t + 1).b("eq", *p[s] == *p[t]); end(e); return; }
        if (m == 4) { if (!p[t]) p[t].emplace(); if (s == t) return; if (r.chance(1, 2)) *p[s] = std::move(*p[t]); else { Ref x(std::move(*p[t])); p[s] = x; } E e("rmove"); e.i("s", s + 1).i("t", t + 1); end(e); return; }
        if (m == 5) { if (!p[t]) p[t].emplace(); std::swap(*p[s], *p[t]); E e("rswap"); e.i("s", s + 1).i("t", t + 1); end(e); return; }
        if (m < 8) { if (r.chance(1, 2)) p[s].reset(); else *p[s] = Ref(); E e("drop"); e.i("s", s + 1); end(e); return; }
        if (!p[t]) p[t].emplace(); E e("rcmp"); e.i("s", s + 1).i("t", t + 1).b("eq", *p[s] == *p[t]).b("valid", p[s]->valid()).b("expired", p[s]->expired()).i("uses", k.use_count(p[s]->cookie())); end(e);
    }
};
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    int cap = sizeof(UC) == 1 ? 254 : 1 << 30;
    for (int h = 0; h < hist; ++h)
    {
        { Driver d; d.cap = cap; d.r = Rng(seed * 100003 + h); Tracked::bad = 0; E e("reset"); e.i("cap", cap); d.end(e); 
          if (cap < 1000 && h % 4 == 0) { int n = d.r.range(244, 254); std::string s; for (int i = 0; i < n; ++i) { int v = ++d.next; int x = d.insert(0, v); E e("insert"); e.i("o", 1).i("v", v).i("c", x); d.end(e); } }
          for (int i = 0; i < len; ++i) d.step(); }
#if ITEM != 2
        E e("gone"); e.i("live", Tracked::live()).i("bad", Tracked::bad).end();
#endif
    }
    return 0;
}
