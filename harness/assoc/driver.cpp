// Associative containers: -DKIND=0..8 (map multimap set multiset unordered_map unordered_multimap unordered_flat_map
// mutable_set mutable_multiset) -DIFACE=0|1 (own type / abstract interface) -DPAYLOAD=int|Tracked -DSTRKEY=0|1
#include <neolib/core/map.hpp>
#include <neolib/core/set.hpp>
#include <neolib/core/unordered_map.hpp>
#include <neolib/core/mutable_set.hpp>
#include <neolib/core/string.hpp>
#include <vector>
#include <functional>
#include <optional>
#include <algorithm>
#include "trace.hpp"
#include "tracked.hpp"
namespace vt
{
    using P = PAYLOAD;
#if STRKEY
    using Key = neolib::string;
    inline Key mk(int k) { return Key{ "k" + std::to_string(k) + std::string(k % 3 * 9, 'x') }; }
    template <typename K> inline int unk(K const& k) { auto s = k.to_std_string(); auto p = s.find_first_of("0123456789"); return std::stoi(s.substr(p)); }
    inline int rank(int k) { return k; }
#else
    using Key = int;
    inline Key mk(int k) { return k; }
    inline int unk(int k) { return k; }
#endif
    struct Item // an element with a key and a part that is not the key
    {
        using key_type = int;
        int k = 0; P v{};
        Item() {}
        Item(int k, int v) : k{ k }, v(v) {}
        explicit operator int() const { return k; }
        bool operator==(Item const& o) const { return k == o.k && v == o.v; }
        auto operator<=>(Item const& o) const { if (k != o.k) return k <=> o.k; return (int)v <=> (int)o.v; }
    };
    constexpr bool IsSet = KIND == 2 || KIND == 3 || KIND == 7 || KIND == 8;
    constexpr bool Multi = KIND == 1 || KIND == 3 || KIND == 5 || KIND == 8;
    constexpr bool Ordered = !(KIND == 4 || KIND == 5 || KIND == 6);
#if KIND == 0
    using C = neolib::map<Key, P>;
#elif KIND == 1
    using C = neolib::multimap<Key, P>;
#elif KIND == 2
    using C = neolib::set<Item>;
#elif KIND == 3
    using C = neolib::multiset<Item>;
#elif KIND == 4
    using C = neolib::unordered_map<Key, P>;
#elif KIND == 5
    using C = neolib::unordered_multimap<Key, P>;
#elif KIND == 6
    using C = neolib::unordered_flat_map<Key, P>;
#elif KIND == 7
    using C = neolib::mutable_set<Item>;
#else
    using C = neolib::mutable_multiset<Item>;
#endif
#if IFACE
    using A = typename C::abstract_type;
#else
    using A = C;
#endif
    template <typename C, typename A> struct Driver
    {
        std::optional<C> o[2];
        std::vector<std::function<bool(int, int, int, int)>> fns;
        int maxLen = 14, keys = 6, counter = 1;
        bool started = false;
        A& at(int i) { return *o[i]; }
        A const& cat(int i) { return *o[i]; }
        template <typename It> static int keyOf(It const& i) { if constexpr (IsSet) return (*i).k; else return unk((*i).first()); }
        template <typename It> static int valOf(It const& i) { if constexpr (IsSet) return (int)(*i).v; else return (int)(*i).second(); }
        template <typename It> static void put(It const& i, int v) { if constexpr (IsSet) (*i).v = P(v); else (*i).second() = P(v); }
        template <typename X> static std::string contents(X& a)
        {
            std::string s = "["; bool f = true;
            for (auto i = a.begin(); i != a.end(); ++i) { if (!f) s += ','; f = false; s += "[" + std::to_string(keyOf(i)) + "," + std::to_string(valOf(i)) + "]"; }
            return s + "]";
        }
        template <typename X> static std::string rcontents(X& a)
        {
            std::string s = "["; bool f = true;
            if constexpr (Ordered)
                for (auto i = a.end(); i != a.begin();) { --i; if (!f) s += ','; f = false; s += "[" + std::to_string(keyOf(i)) + "," + std::to_string(valOf(i)) + "]"; }
            return s + "]";
        }
        template <typename X, typename It> static int pos(X& a, It const& t) { int n = 0; for (auto i = a.begin(); i != a.end(); ++i, ++n) if (i == t) return n; return n; }
        template <typename X> auto nth(X& a, int n) { auto i = a.begin(); while (n-- > 0) ++i; return i; }
        int len(int k) { return (int)at(k).size(); }
        void obs(E& e)
        {
            e.raw("obs", "[" + contents(at(0)) + "," + contents(cat(1)) + "]").seq("sizes", std::vector<int>{ len(0), len(1) }).seq("emp", std::vector<int>{ at(0).empty(), at(1).empty() });
            if constexpr (std::is_same_v<P, Tracked>) e.i("live", Tracked::live()).i("bad", Tracked::bad);
        }
        int val() { int v = counter++; if (counter > 900) counter = 1; return v; }
        // "found": position (size when end), key and value there
        template <typename X, typename It> static void found(E& e, X& a, It const& i)
        {
            bool end = i == a.end(); e.i("res", pos(a, i)).b("end", end).i("rk", end ? -1 : keyOf(i)).i("rv", end ? -1 : valOf(i));
        }
        void add(std::function<bool(int, int, int, int)> f, int n = 1) { while (n--) fns.push_back(f); }
        template <typename X> static C from(std::vector<std::pair<int, int>> const& l, X*) { C c; return c; }
        void setup()
        {
            add([this](int k, int a, int, int) { int key = a % keys, v = val(); if (len(k) >= maxLen) return false; auto& c = at(k); E e("insert"); e.i("o", k).i("k", key).i("v", v);
                if constexpr (IsSet) { Item t(key, v); auto i = c.insert(t); found(e, c, i); }
                else if (a & 64) { neolib::pair<Key const, P> pr{ mk(key), P(v) }; auto i = c.insert(pr); found(e, c, i); }
                else { P p(v); Key q = mk(key); auto i = c.insert(q, p); found(e, c, i); }
                obs(e); e.end(); return true; }, 6);
            if constexpr (requires (A& c) { c.emplace(mk(1), 1); } && !IsSet && KIND != 5)
                add([this](int k, int a, int, int) { int key = a % keys, v = val(); if (len(k) >= maxLen) return false; auto& c = at(k); int rk, rv; { auto& r = c.emplace(mk(key), v); rk = unk(r.first()); rv = (int)r.second(); }
                    E e("emplace"); e.i("o", k).i("k", key).i("v", v).i("rk", rk).i("rv", rv); obs(e); e.end(); return true; }, 2);
            if constexpr (!IsSet && !Multi)
            {
                add([this](int k, int a, int, int) { int key = a % keys, v = val(); if (len(k) >= maxLen) return false; auto& c = at(k); int before; { auto& r = c[mk(key)]; before = (int)r; r = P(v); } E e("index"); e.i("o", k).i("k", key).i("v", v).i("before", before); obs(e); e.end(); return true; }, 3);
                add([this](int k, int a, int, int) { int key = a % keys, v = val(); auto& c = at(k); bool threw = false; int r = -1; try { if (a & 64) r = (int)cat(k).at(mk(key)); else { auto& x = c.at(mk(key)); r = (int)x; x = P(v); } } catch (std::exception const&) { threw = true; }
                    E e("at"); e.i("o", k).i("k", key).i("v", v).b("const", a & 64).b("threw", threw).i("rv", r); obs(e); e.end(); return true; }, 2);
            }
            if constexpr (requires (A& c) { c.find(mk(1)); } || IsSet)
                add([this](int k, int a, int, int) { int key = a % (keys + 1); auto& c = at(k); E e("find"); e.i("o", k).i("k", key);
                    if constexpr (IsSet)
                    {
                        bool done = false;
                        if constexpr (KIND == 7 || KIND == 8)
                            if (a & 128) { done = true; if (a & 64) { auto i = c.find(key); found(e, c, i); } else { auto& cc = cat(k); auto i = cc.find(key); found(e, cc, i); } e.str("via", "key"); }
                        if (!done) { Item t(key, 0); if (a & 64) { auto i = c.find(t); found(e, c, i); } else { auto& cc = cat(k); auto i = cc.find(t); found(e, cc, i); } }
                    }
                    else { if (a & 64) { auto i = c.find(mk(key)); found(e, c, i); } else { auto& cc = cat(k); auto i = cc.find(mk(key)); found(e, cc, i); } }
                    obs(e); e.end(); return true; }, 3);
            if constexpr (Ordered && requires (A& c) { c.lower_bound(mk(1)); })
                add([this](int k, int a, int, int) { int key = a % (keys + 1); auto& c = at(k); auto& cc = cat(k); bool upper = a & 64; E e("bound"); e.i("o", k).i("k", key).b("upper", upper);
                    if constexpr (KIND == 7 || KIND == 8)
                    { // inherited from the ordered map: iterators of pairs
                        auto& b = static_cast<typename C::std_type&>(c); auto i = upper ? b.upper_bound(key) : b.lower_bound(key); e.i("res", (int)std::distance(b.begin(), i)); }
                    else if (a & 128) { auto i = upper ? c.upper_bound(mk(key)) : c.lower_bound(mk(key)); e.i("res", pos(c, i)); }
                    else { auto i = upper ? cc.upper_bound(mk(key)) : cc.lower_bound(mk(key)); e.i("res", pos(cc, i)); }
                    obs(e); e.end(); return true; }, 2);
            add([this](int k, int a, int, int) { int n = len(k); if (!n) return false; int p = a % n; auto& c = at(k); auto i = nth(c, p); int rk = keyOf(i), rv = valOf(i), res = p;
                if constexpr (requires { pos(c, c.erase(i)); }) res = pos(c, c.erase(i)); else c.erase(i);
                E e("erase"); e.i("o", k).i("p", p).i("rk", rk).i("rv", rv).i("res", res); obs(e); e.end(); return true; }, 3);
            if constexpr (KIND != 6)
            add([this](int k, int a, int b, int) { int n = len(k); int p = a % (n + 1), m = b % (n - p + 1); if (m > 3 && b % 5) m = 2; auto& c = at(k); int res;
                std::string gone = "["; { auto i = nth(c, p); for (int x = 0; x < m; ++x, ++i) gone += std::string(x ? "," : "") + "[" + std::to_string(keyOf(i)) + "," + std::to_string(valOf(i)) + "]"; } gone += "]";
                { auto f = nth(c, p), l = nth(c, p + m); res = pos(c, c.erase(f, l)); }
                E e("erase_range"); e.i("o", k).i("p", p).i("n", m).raw("gone", gone).i("res", res); obs(e); e.end(); return true; }, 2);
            if constexpr (KIND == 7 || KIND == 8)
                add([this](int k, int a, int, int) { int key = a % keys; int r = (int)o[k]->erase(key); E e("erase_key"); e.i("o", k).i("k", key).i("res", r); obs(e); e.end(); return true; }, 2);
            // change the part that is not the key
            add([this](int k, int a, int, int) { int n = len(k); if (!n) return false; int p = a % n; int v = val(); auto& c = at(k); auto i = nth(c, p); int rk = keyOf(i), rv = valOf(i); put(i, v); E e("set"); e.i("o", k).i("p", p).i("rk", rk).i("rv", rv).i("v", v); obs(e); e.end(); return true; }, 2);
            add([this](int k, int a, int, int) { if (a % 3) return false; at(k).clear(); E e("clear"); e.i("o", k); obs(e); e.end(); return true; });
            add([this](int k, int a, int, int) { if (KIND == 6 && !len(1 - k)) return false; /* boost 1.83 loses its sentinel there */ if constexpr (requires (A& x) { x.assign(x); }) { if (a % 2) at(k).assign(cat(1 - k)); else at(k) = cat(1 - k); } else at(k) = cat(1 - k); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "assign"); obs(e); e.end(); return true; });
            add([this](int k, int a, int, int) { A& x = at(k); if constexpr (requires (A& x) { x.assign(x); }) { if (a % 2) at(k).assign(x); else at(k) = x; } else at(k) = x; E e("nop"); e.str("via", "self_assign"); obs(e); e.end(); return true; });
            add([this](int k, int a, int, int) { C t(static_cast<C const&>(*o[1 - k])); o[k].reset(); o[k].emplace(static_cast<C const&>(t)); t.clear(); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "ctor"); obs(e); e.end(); return true; });
            if constexpr (requires (A const& x) { C(x); })
                add([this](int k, int a, int, int) { o[k].reset(); o[k].emplace(cat(1 - k)); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "ctor_abs"); obs(e); e.end(); return true; });
            add([this](int k, int a, int, int) { if (a % 2) *o[k] = std::move(*o[1 - k]); else { C t(std::move(*o[1 - k])); o[k].reset(); o[k].emplace(std::move(t)); } E e("move"); e.i("o", k).i("from", 1 - k); obs(e); e.end(); return true; });
            add([this](int k, int a, int, int) {
                int k1 = a % keys, k2 = (a / 8) % keys, k3 = (a / 64) % keys; int v1 = val(), v2 = val(), v3 = val(); o[k].reset();
                if constexpr (IsSet) { Item l[] = { Item(k1, v1), Item(k2, v2), Item(k3, v3) }; if (a & 1) o[k].emplace(std::initializer_list<Item>{ l[0], l[1], l[2] }); else o[k].emplace(&l[0], &l[0] + 3); }
                else { using VT = neolib::pair<Key const, P>; o[k].emplace(std::initializer_list<VT>{ VT{ mk(k1), P(v1) }, VT{ mk(k2), P(v2) }, VT{ mk(k3), P(v3) } }); }
                E e("build"); e.i("o", k).raw("items", "[[" + std::to_string(k1) + "," + std::to_string(v1) + "],[" + std::to_string(k2) + "," + std::to_string(v2) + "],[" + std::to_string(k3) + "," + std::to_string(v3) + "]]"); obs(e); e.end(); return true; });
            if constexpr (Ordered)
                add([this](int k, int a, int, int) { E e("rread"); e.i("o", k).raw("res", (a & 1) ? rcontents(at(k)) : rcontents(cat(k))); obs(e); e.end(); return true; });
            if constexpr (KIND == 7 || KIND == 8)
                add([this](int k, int a, int, int) { E e("rread"); std::string s = "["; bool f = true; auto rd = [&](auto b, auto en) { for (auto i = b; i != en; ++i) { if (!f) s += ','; f = false; s += "[" + std::to_string(keyOf(i)) + "," + std::to_string(valOf(i)) + "]"; } };
                    C& c = *o[k]; C const& cc = c; if (a & 1) rd(c.rbegin(), c.rend()); else if (a & 2) rd(cc.rbegin(), cc.rend()); else rd(cc.crbegin(), cc.crend()); e.i("o", k).raw("res", s + "]"); obs(e); e.end(); return true; });
            if constexpr (requires (C const& c) { { c == c } -> std::convertible_to<bool>; } && KIND < 7)
                add([this](int k, int a, int, int) { E e("cmp"); e.b("eq", *o[0] == *o[1]).b("selfeq", *o[0] == *o[0]); obs(e); e.end(); return true; });
            if constexpr (Ordered && KIND < 4)
                add([this](int k, int a, int, int) { E e("less"); e.b("lt", *o[0] < *o[1]).b("gt", *o[0] > *o[1]); obs(e); e.end(); return true; });
        }
        void reset()
        {
            for (auto& x : o) x.reset();
            if (started) { E e("gone"); e.i("live", std::is_same_v<P, Tracked> ? Tracked::live() : 0).i("bad", Tracked::bad); e.end(); }
            started = true; counter = 1;
            for (auto& x : o) x.emplace();
            E e("reset"); e.b("ordered", Ordered).b("multi", Multi); obs(e); e.end();
        }
        void random(uint64_t seed, int histories, int length)
        {
            Rng r(seed);
            for (int h = 0; h < histories; ++h)
            {
                reset(); keys = r.chance(1, 2) ? 4 : 8;
                std::vector<int> ops; for (int i = 0; i < (int)fns.size(); ++i) if (r.chance(2, 3)) ops.push_back(i);
                for (int s = 0; s < length; ++s)
                {
                    int op = r.chance(1, 8) || ops.empty() ? r.below((int)fns.size()) : ops[r.below((int)ops.size())];
                    fns[op](r.chance(1, 4), r.below(100000), r.below(100000), 0);
                }
            }
            for (auto& x : o) x.reset();
            E e("gone"); e.i("live", std::is_same_v<P, Tracked> ? Tracked::live() : 0).i("bad", Tracked::bad); e.end();
        }
    };
}
int main(int, char** argv)
{
    using namespace vt;
    Out::get().open(argv[2]);
    Driver<C, A> d; d.setup();
    d.random(std::strtoull(argv[3], nullptr, 10), std::atoi(argv[4]), std::atoi(argv[5]));
}
