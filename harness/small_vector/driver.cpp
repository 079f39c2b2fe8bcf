#include <neolib/core/vecarray.hpp>
#include <neolib/core/small_vector.hpp>
#include <neolib/core/polymorphic_vecarray.hpp>
#include <string>
#include "seq_driver.hpp"
// -DELEM=.. -DCAP=.. -DMAX=.. (0: unbounded) -DPOLY=0|1 -DMAXLEN=..
namespace vt
{
    using T = ELEM;
#if MAX == 0
    using SV = neolib::small_vector<T, CAP>;
#elif POLY
    using SV = neolib::polymorphic::vecarray<T, CAP, MAX>;
#else
    using SV = neolib::vecarray<T, CAP, MAX>;
#endif
    template <typename V> struct Driver : SeqDriver<V, T>
    {
        using base = SeqDriver<V, T>;
        using base::at, base::len, base::it, base::dist, base::val, base::maxLen, base::obs, base::add;
        explicit Driver(int n) : base(n)
        {
            add("caps", [this](int k, int, int, int) { E e("caps"); e.seq("caps", std::vector<long long>{ (long long)at(0).capacity(), (long long)at(1).capacity() }).i("max", MAX ? (long long)at(k).max_size() : 0).i("wantmax", MAX); obs(e); e.end(); return true; });
            add("storage", [this](int k, int, int, int) {
                auto s = [&](int i) { return reinterpret_cast<char const*>(at(i).data()); };
                auto inside = [&](char const* p, int i) { auto b = reinterpret_cast<char const*>(&at(i)); return p >= b && p < b + sizeof(V); };
                auto n0 = at(0).size() * sizeof(T), n1 = at(1).size() * sizeof(T);
                bool disjoint = s(0) + n0 <= s(1) || s(1) + n1 <= s(0) || !n0 || !n1;
                // storage inside the other object would be the other object's buffer
                E e("storage"); e.b("disjoint", disjoint && !(n0 && inside(s(0), 1)) && !(n1 && inside(s(1), 0))); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.available(); })
                add("available", [this](int k, int, int, int) { if (!MAX) return false; E e("avail"); e.i("o", k).i("res", (long long)at(k).available()).i("max", MAX); obs(e); e.end(); return true; });
#if MAX != 0
            // growth beyond the maximum capacity, in every way the container offers
            auto refuse = [this](char const* via, int k, auto f) {
                bool threw = false; try { f(); } catch (std::bad_alloc const&) { threw = true; } catch (std::length_error const&) { threw = true; } catch (std::exception const&) { threw = true; }
                E e("refuse"); e.i("o", k).b("threw", threw).str("via", via); obs(e); e.end(); return true; };
            for (int rep = 0; rep < 2; ++rep)
            {
            add("over_push", [=, this](int k, int, int, int) { V& v = at(k); if (len(v) < MAX) return false; return refuse("push_back", k, [&] { T t(7); v.push_back(t); }); });
            add("over_emplace", [=, this](int k, int, int, int) { V& v = at(k); if (len(v) < MAX) return false; return refuse("emplace_back", k, [&] { v.emplace_back(7); }); });
            add("over_insert", [=, this](int k, int a, int, int) { V& v = at(k); if (len(v) < MAX) return false; return refuse("insert", k, [&] { T t(7); v.insert(it(v, a % (MAX + 1)), static_cast<T const&>(t)); }); });
            add("over_range", [=, this](int k, int a, int b, int) { V& v = at(k); int n = MAX - len(v) + 1 + b % 3; return refuse("insert_range", k, [&] { std::vector<T> tv(n, T(7)); v.insert(it(v, a % (len(v) + 1)), tv.begin(), tv.end()); }); });
            add("over_resize", [=, this](int k, int a, int, int) { V& v = at(k); return refuse("resize", k, [&] { T t(7); v.resize((std::size_t)(MAX + 1 + a % 3), t); }); });
            add("over_reserve", [=, this](int k, int a, int, int) { V& v = at(k); return refuse("reserve", k, [&] { v.reserve((std::size_t)(MAX + 1 + a % 3)); }); });
            // (boost's static_vector, which vecarray<T, N, N> is, overwrites before it refuses an assignment)
            if constexpr (MAX != CAP && requires (V& v, T const& t) { v.assign((std::size_t)1, t); })
                add("over_assign", [=, this](int k, int a, int, int) { V& v = at(k); return refuse("assign", k, [&] { T t(7); v.assign((std::size_t)(MAX + 1 + a % 3), t); }); });
            }
#if POLY
            add("over_copy", [=, this](int k, int a, int, int) { V& v = at(k); return refuse("assign_other", k, [&] { neolib::polymorphic::vecarray<T, CAP, 1000> big; for (int i = 0; i < MAX + 1 + a % 3; ++i) big.push_back(T(7));
                neolib::i_vector<T> const& src = big; v = src; }); });
#endif
#endif
            // assignment to itself, and insertion of an element of the vector into the vector
            add("self_assign", [this](int k, int a, int, int) { V& v = at(k); V& w = v; v = w; E e("nop"); e.str("via", "self_assign"); obs(e); e.end(); return true; });
            add("alias_push", [this](int k, int a, int, int) { V& v = at(k); int n = len(v); if (!n || n >= maxLen) return false; int p = a % n; int x = (int)v[p]; v.push_back(v[p]);
                E e("insert"); e.i("o", k).i("p", n).seq("vals", std::vector<int>{ x }).i("res", n).str("via", "alias_push"); obs(e); e.end(); return true; });
            // (not for boost's static_vector)
            if constexpr (MAX != CAP) add("alias_insert", [this](int k, int a, int b, int) { V& v = at(k); int n = len(v); if (!n || n >= maxLen) return false; int s = a % n, p = b % (n + 1); int x = (int)v[s]; int r = dist(v, v.insert(it(v, p), static_cast<T const&>(v[s])));
                E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", r).str("via", "alias_insert"); obs(e); e.end(); return true; });
        }
    };
}
int main(int argc, char** argv)
{
    using namespace vt;
    vt::Driver<SV> d(MAXLEN);
    return seq_main(d, argc, argv, 1);
}
