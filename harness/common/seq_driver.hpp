// Generic driver for mutable sequence containers: executes a random (seeded) or given plan of operations on two objects
// of the container under test through its public interface and records, after each call, the result and the complete
// observable contents of both objects. Operations the container does not offer are skipped (compile-time detection).
#pragma once
#ifndef ITER_ARITH
#define ITER_ARITH 1 // 0: the container's iterators do not offer (compilable) arithmetic
#endif
#include "trace.hpp"
#include "tracked.hpp"
#include <algorithm>
#include <optional>
#include <iterator>
#include <list>
#include <stdexcept>
#include <functional>
#include <sstream>
#include <fstream>
namespace vt
{
    template <typename V, typename T>
    struct SeqDriver
    {
        using value_type = T;
        std::optional<V> o[2];
        int maxLen;
        long long baseLive = 0;
        std::vector<std::string> names;
        std::vector<std::function<bool(int o, int a, int b, int c)>> fns;
        int valueCounter = 1;

        explicit SeqDriver(int aMaxLen) : maxLen{ aMaxLen } { setup(); }
        V& at(int i) { return *o[i]; }
        static std::vector<int> contents(V& v)
        {
            std::vector<int> r;
            for (auto i = v.begin(); i != v.end(); ++i) r.push_back((int)*i);
            return r;
        }
        static std::vector<int> ccontents(V const& v)
        {
            std::vector<int> r;
            for (auto i = v.begin(); i != v.end(); ++i) r.push_back((int)*i);
            return r;
        }
        static int len(V& v) { return (int)v.size(); }
        template <typename It> static auto advanced(It it, int n) { std::advance(it, n); return it; }
        auto it(V& v, int n) { return advanced(v.begin(), n); }
        int dist(V& v, typename V::iterator i) { return (int)std::distance(v.begin(), i); }
        void obs(E& e)
        {
            e.raw("obs", "");
            e.s += '[';
            for (int k = 0; k < 2; ++k)
            {
                if (k) e.s += ',';
                e.s += '['; auto c = contents(at(k)); bool f = true;
                for (int x : c) { if (!f) e.s += ','; f = false; e.s += std::to_string(x); }
                e.s += ']';
            }
            e.s += ']';
            e.seq("sizes", std::vector<int>{ len(at(0)), len(at(1)) });
            e.seq("empties", std::vector<int>{ at(0).size() == 0, at(1).size() == 0 });
            if constexpr (requires (V& v) { { v.empty() } -> std::convertible_to<bool>; })
                e.seq("emp", std::vector<int>{ at(0).empty(), at(1).empty() });
            if constexpr (requires { T::live(); })
                e.i("live", T::live() - baseLive).i("bad", T::bad);
        }
        std::vector<int> vals(int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(val()); return r; }
        int val() { int v = valueCounter++; if (valueCounter > 900) valueCounter = 1; return v; }
        int clampn(V& v, int n) { int room = maxLen - len(v); return room <= 0 ? 0 : n % (std::min(room, maxLen) + 1); }

        void add(const char* n, std::function<bool(int, int, int, int)> f) { names.push_back(n); fns.push_back(f); }
        static std::vector<T> tvec(std::vector<int> const& v) { std::vector<T> r; for (int x : v) r.emplace_back(x); return r; }

        void setup()
        {
            // construction
            add("new", [this](int k, int, int, int) { o[k].reset(); o[k].emplace(); E e("assign"); e.i("o", k).seq("vals", std::vector<int>{}).str("via", "ctor"); obs(e); e.end(); return true; });
            if constexpr (std::is_constructible_v<V, std::size_t, T const&>)
                add("ctor_n_v", [this](int k, int a, int, int) { int n = a % std::min(12, maxLen + 1); int v = val(); o[k].reset(); { T t(v); o[k].emplace((std::size_t)n, static_cast<T const&>(t)); } E e("assign"); e.i("o", k).seq("vals", std::vector<int>(n, v)).str("via", "ctor_n_v"); obs(e); e.end(); return true; });
            if constexpr (std::is_constructible_v<V, typename std::vector<T>::iterator, typename std::vector<T>::iterator>)
                add("ctor_range", [this](int k, int a, int, int) { int n = a % std::min(12, maxLen + 1); auto vs = vals(n); o[k].reset(); { auto tv = tvec(vs); o[k].emplace(tv.begin(), tv.end()); } E e("assign"); e.i("o", k).seq("vals", vs).str("via", "ctor_range"); obs(e); e.end(); return true; });
            if constexpr (std::is_constructible_v<V, std::initializer_list<T>>)
                add("ctor_il", [this](int k, int a, int, int) {
                    auto vs = vals(3); o[k].reset(); { std::initializer_list<T> il{ T(vs[0]), T(vs[1]), T(vs[2]) }; o[k].emplace(il); } E e("assign"); e.i("o", k).seq("vals", vs).str("via", "ctor_il"); obs(e); e.end(); return true; });
            if constexpr (std::is_copy_constructible_v<V>)
                add("ctor_copy", [this](int k, int, int, int) { o[k].reset(); o[k].emplace(static_cast<V const&>(at(1 - k))); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "ctor_copy"); obs(e); e.end(); return true; });
            if constexpr (requires (V const& v) { V(v, v.get_allocator()); })
                add("ctor_copy_alloc", [this](int k, int, int, int) { o[k].reset(); auto const& from = static_cast<V const&>(at(1 - k)); o[k].emplace(from, from.get_allocator()); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "ctor_copy_alloc"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { V(std::move(v), v.get_allocator()); })
                add("ctor_move_alloc", [this](int k, int, int, int) { o[k].reset(); auto alloc = at(1 - k).get_allocator(); o[k].emplace(std::move(at(1 - k)), alloc); E e("move"); e.i("o", k).i("from", 1 - k).str("via", "ctor_move_alloc"); obs(e); e.end(); return true; });
            if constexpr (std::is_copy_assignable_v<V>)
                add("self_assign", [this](int k, int, int, int) { V& v = at(k); v = static_cast<V const&>(at(k)); E e("copy"); e.i("o", k).i("from", k).str("via", "self_assign"); obs(e); e.end(); return true; });
            if constexpr (std::is_move_constructible_v<V>)
                add("ctor_move", [this](int k, int, int, int) { o[k].reset(); o[k].emplace(std::move(at(1 - k))); E e("move"); e.i("o", k).i("from", 1 - k).str("via", "ctor_move"); obs(e); e.end(); return true; });
            if constexpr (std::is_copy_assignable_v<V>)
            {
                add("copy_assign", [this](int k, int, int, int) { at(k) = static_cast<V const&>(at(1 - k)); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "copy_assign"); obs(e); e.end(); return true; });
                add("copy_assign", [this](int k, int, int, int) { at(k) = static_cast<V const&>(at(1 - k)); E e("copy"); e.i("o", k).i("from", 1 - k).str("via", "copy_assign"); obs(e); e.end(); return true; });
            }
            if constexpr (std::is_move_assignable_v<V>)
                add("move_assign", [this](int k, int, int, int) { at(k) = std::move(at(1 - k)); E e("move"); e.i("o", k).i("from", 1 - k).str("via", "move_assign"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, std::initializer_list<T> il) { v = il; })
                add("il_assign", [this](int k, int, int, int) { auto vs = vals(2); { std::initializer_list<T> il{ T(vs[0]), T(vs[1]) }; at(k) = il; } E e("assign"); e.i("o", k).seq("vals", vs).str("via", "il_assign"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, T const& t) { v.assign((std::size_t)1, t); })
                add("assign_n", [this](int k, int a, int, int) { int n = a % std::min(10, maxLen + 1); int v = val(); { T t(v); at(k).assign((std::size_t)n, t); } E e("assign"); e.i("o", k).seq("vals", std::vector<int>(n, v)).str("via", "assign_n"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, std::vector<T> tv) { v.assign(tv.begin(), tv.end()); })
                add("assign_range", [this](int k, int a, int, int) { int n = a % std::min(10, maxLen + 1); auto vs = vals(n); { auto tv = tvec(vs); at(k).assign(tv.begin(), tv.end()); } E e("assign"); e.i("o", k).seq("vals", vs).str("via", "assign_range"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.swap(v); })
                add("swap", [this](int k, int, int, int) { at(k).swap(at(1 - k)); E e("swap"); obs(e); e.end(); return true; });
            if constexpr (std::is_move_constructible_v<V> && std::is_move_assignable_v<V>)
                add("swap_free", [this](int k, int a, int, int) { if (a % 2) return false; using std::swap; swap(at(k), at(1 - k)); E e("swap"); e.str("via", "free"); obs(e); e.end(); return true; });
            // insertion
            for (int rep = 0; rep < 4; ++rep)
            {
            if constexpr (requires (V& v, T const& t) { v.insert(v.begin(), t); })
                add("insert", [this](int k, int a, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int p = a % (len(v) + 1); int x = val(); int r; { T t(x); r = dist(v, v.insert(it(v, p), static_cast<T const&>(t))); } E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", r).str("via", "insert"); obs(e); e.end(); return true; });
            }
            if constexpr (requires (V& v, T t) { v.insert(v.begin(), std::move(t)); })
                add("insert_mv", [this](int k, int a, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int p = a % (len(v) + 1); int x = val(); int r; { T t(x); r = dist(v, v.insert(it(v, p), std::move(t))); } E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", r).str("via", "insert_mv"); obs(e); e.end(); return true; });
            for (int rep = 0; rep < 2; ++rep)
            {
            if constexpr (requires (V& v, T const& t) { v.insert(v.begin(), (std::size_t)1, t); })
                add("insert_n", [this](int k, int a, int b, int) { V& v = at(k); int n = clampn(v, b) % (bulk ? 700 : 9); int p = a % (len(v) + 1); int x = val(); int r; { T t(x); r = dist(v, v.insert(it(v, p), (std::size_t)n, t)); } E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>(n, x)).i("res", n ? r : p).str("via", "insert_n"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, std::vector<T> tv) { v.insert(v.begin(), tv.begin(), tv.end()); })
                add("insert_range", [this](int k, int a, int b, int c) { V& v = at(k); int n = clampn(v, b) % (bulk ? 400 : 9); int p = a % (len(v) + 1); auto vs = vals(n); int r; { auto tv = tvec(vs); if (c % 2) r = dist(v, v.insert(it(v, p), tv.begin(), tv.end())); else { std::list<T> tl(tv.begin(), tv.end()); r = dist(v, v.insert(it(v, p), tl.begin(), tl.end())); } } E e("insert"); e.i("o", k).i("p", p).seq("vals", vs).i("res", r).str("via", "insert_range"); obs(e); e.end(); return true; });
            }
            if constexpr (requires (V& v, std::initializer_list<T> il) { v.insert(v.begin(), il); })
                add("insert_il", [this](int k, int a, int, int) { V& v = at(k); if (len(v) + 3 > maxLen) return false; int p = a % (len(v) + 1); auto vs = vals(3); int r; { std::initializer_list<T> il{ T(vs[0]), T(vs[1]), T(vs[2]) }; r = dist(v, v.insert(it(v, p), il)); } E e("insert"); e.i("o", k).i("p", p).seq("vals", vs).i("res", r).str("via", "insert_il"); obs(e); e.end(); return true; });
            if constexpr (ITER_ARITH && requires (V& v) { v.emplace(v.begin(), 1); })
                add("emplace", [this](int k, int a, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int p = a % (len(v) + 1); int x = val(); int r = dist(v, v.emplace(it(v, p), x)); E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", r).str("via", "emplace"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.emplace_insert(v.begin(), 1); })
                add("emplace_insert", [this](int k, int a, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int p = a % (len(v) + 1); int x = val(); int r = dist(v, v.emplace_insert(it(v, p), x)); E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", r).str("via", "emplace_insert"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, T const& t) { v.push_back(t); })
                for (int rep = 0; rep < 2; ++rep)
                add("push_back", [this](int k, int, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int x = val(); int p = len(v); { T t(x); v.push_back(static_cast<T const&>(t)); } E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", p).str("via", "push_back"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.emplace_back(1); })
                add("emplace_back", [this](int k, int, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int x = val(); int p = len(v); v.emplace_back(x); E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>{ x }).i("res", p).str("via", "emplace_back"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, T const& t) { v.push_front(t); })
                add("push_front", [this](int k, int, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int x = val(); { T t(x); v.push_front(static_cast<T const&>(t)); } E e("insert"); e.i("o", k).i("p", 0).seq("vals", std::vector<int>{ x }).i("res", 0).str("via", "push_front"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.emplace_front(1); })
                add("emplace_front", [this](int k, int, int, int) { V& v = at(k); if (len(v) >= maxLen) return false; int x = val(); v.emplace_front(x); E e("insert"); e.i("o", k).i("p", 0).seq("vals", std::vector<int>{ x }).i("res", 0).str("via", "emplace_front"); obs(e); e.end(); return true; });
            // removal
            if constexpr (requires (V& v) { v.pop_back(); })
                add("pop_back", [this](int k, int, int, int) { V& v = at(k); int n = len(v); if (!n) return false; v.pop_back(); E e("erase"); e.i("o", k).i("p", n - 1).i("n", 1).i("res", n - 1).str("via", "pop_back"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.pop_front(); })
                add("pop_front", [this](int k, int, int, int) { V& v = at(k); int n = len(v); if (!n) return false; v.pop_front(); E e("erase"); e.i("o", k).i("p", 0).i("n", 1).i("res", 0).str("via", "pop_front"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.erase(v.begin()); })
                for (int rep = 0; rep < 2; ++rep)
                add("erase", [this](int k, int a, int, int) { V& v = at(k); int n = len(v); if (!n) return false; int p = a % n; int r = dist(v, v.erase(it(v, p))); E e("erase"); e.i("o", k).i("p", p).i("n", 1).i("res", r).str("via", "erase"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.erase(v.begin(), v.end()); })
                for (int rep = 0; rep < 3; ++rep)
                add("erase_range", [this](int k, int a, int b, int) { V& v = at(k); int n = len(v); int p = a % (n + 1); int m = b % (n - p + 1); if (!bulk) m %= 8; int r = dist(v, v.erase(it(v, p), it(v, p + m))); E e("erase"); e.i("o", k).i("p", p).i("n", m).i("res", r).str("via", "erase_range"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.clear(); })
                add("clear", [this](int k, int a, int, int) { if (a % 3) return false; at(k).clear(); E e("assign"); e.i("o", k).seq("vals", std::vector<int>{}).str("via", "clear"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.resize((std::size_t)1); } && std::is_default_constructible_v<T>)
                add("resize", [this](int k, int a, int, int) { V& v = at(k); int n = a % (maxLen + 1); if (!bulk) n %= std::min(len(v) + 8, maxLen + 1); v.resize((std::size_t)n); E e("resize"); e.i("o", k).i("n", n).i("v", 0).str("via", "resize"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v, T const& t) { v.resize((std::size_t)1, t); })
                add("resize_v", [this](int k, int a, int, int) { V& v = at(k); int n = a % (maxLen + 1); if (!bulk) n %= std::min(len(v) + 8, maxLen + 1); int x = val(); { T t(x); v.resize((std::size_t)n, t); } E e("resize"); e.i("o", k).i("n", n).i("v", x).str("via", "resize_v"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.reserve((std::size_t)1); })
                add("reserve", [this](int k, int a, int, int) { V& v = at(k); int n = a % (maxLen + 1); v.reserve((std::size_t)n); E e("nop"); e.str("via", "reserve"); if constexpr (requires (V& v) { v.capacity(); }) e.i("n", n).i("cap", (long long)std::min<std::size_t>(v.capacity(), 1000000)); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.shrink_to_fit(); })
                add("shrink", [this](int k, int, int, int) { at(k).shrink_to_fit(); E e("nop"); e.str("via", "shrink_to_fit"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.unsplit(); })
                add("unsplit", [this](int k, int, int, int) { at(k).unsplit(); E e("nop"); e.str("via", "unsplit"); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { { *v.data() } -> std::convertible_to<int>; })
                add("data", [this](int k, int, int, int) { V& v = at(k); int n = len(v); std::vector<int> r; auto p = v.data(); for (int i = 0; i < n; ++i) r.push_back((int)p[i]); E e("read"); e.i("o", k).seq("res", r).str("via", "data"); obs(e); e.end(); return true; });
            // element access and iteration
            if constexpr (requires (V& v) { { v[0] } -> std::convertible_to<int>; })
            {
                add("set", [this](int k, int a, int, int) { V& v = at(k); int n = len(v); if (!n) return false; int p = a % n; int x = val(); v[p] = T(x); E e("set"); e.i("o", k).i("p", p).i("v", x).str("via", "index"); obs(e); e.end(); return true; });
                add("index", [this](int k, int, int, int) { V& v = at(k); int n = len(v); std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back((int)v[i]); E e("read"); e.i("o", k).seq("res", r).str("via", "index"); obs(e); e.end(); return true; });
                add("cindex", [this](int k, int, int, int) { V const& v = at(k); int n = (int)v.size(); std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back((int)v[i]); E e("read"); e.i("o", k).seq("res", r).str("via", "cindex"); obs(e); e.end(); return true; });
            }
            if constexpr (requires (V& v) { v.at(0); })
                add("at", [this](int k, int a, int, int) { V& v = at(k); int n = len(v); int p = a % (n + 3); int res = -1; bool threw = false; try { res = (int)v.at(p); } catch (std::exception const&) { threw = true; } E e("at"); e.i("o", k).i("p", p).i("res", res).b("threw", threw); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.front(); v.back(); })
                add("ends", [this](int k, int, int, int) { V& v = at(k); if (!len(v)) return false; V const& c = v; E e("ends"); e.i("o", k).i("front", (int)v.front()).i("back", (int)v.back()).i("cfront", (int)c.front()).i("cback", (int)c.back()); obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.rbegin(); v.rend(); })
                add("reverse", [this](int k, int a, int, int) { V& v = at(k); V const& c = v; std::vector<int> r; if (a % 2) for (auto i = v.rbegin(); i != v.rend(); ++i) r.push_back((int)*i); else for (auto i = c.rbegin(); i != c.rend(); ++i) r.push_back((int)*i); E e("rread"); e.i("o", k).seq("res", r).str("via", a % 2 ? "reverse" : "creverse"); obs(e); e.end(); return true; });
            add("biter", [this](int k, int, int, int) { V& v = at(k); std::vector<int> r; if constexpr (requires { --std::declval<typename V::iterator&>(); }) { for (auto i = v.end(); i != v.begin();) { --i; r.push_back((int)*i); } } else { r = contents(v); std::reverse(r.begin(), r.end()); } E e("rread"); e.i("o", k).seq("res", r).str("via", "backwards"); obs(e); e.end(); return true; });
            add("citer", [this](int k, int, int, int) { V const& v = at(k); E e("read"); e.i("o", k).seq("res", ccontents(v)).str("via", "citer"); obs(e); e.end(); return true; });
            add("setit", [this](int k, int a, int, int) { V& v = at(k); int n = len(v); if (!n) return false; int p = a % n; int x = val(); *it(v, p) = T(x); E e("set"); e.i("o", k).i("p", p).i("v", x).str("via", "iterator"); obs(e); e.end(); return true; });
            if constexpr (ITER_ARITH && requires (V& v) { { v.begin() + 1 }; { v.end() - v.begin() } -> std::convertible_to<long long>; v.begin() < v.end(); v.begin()[0]; })
                add("iter", [this](int k, int a, int b, int) {
                    V& v = at(k); int n = len(v); if (!n) return false; int i = a % n, j = b % (n + 1);
                    auto x = v.begin() + i; auto y = v.begin() + j; auto z = v.end() - (n - j);
                    E e("iter"); e.i("o", k).i("i", i).i("j", j).i("diff", (int)(y - x)).i("vi", (int)*x).b("lt", x < y).b("eq", x == y).b("eqz", y == z);
                    auto w = x; w += (j - i); e.b("eqw", w == y); w -= (j - i); e.i("vw", (int)*w);
                    e.i("sub", (int)v.begin()[i]);
                    obs(e); e.end(); return true; });
            if constexpr (requires (V const& v) { { v == v } -> std::convertible_to<bool>; })
                add("eq", [this](int k, int a, int, int) { V const& x = at(0); V const& y = at(1); E e("cmp"); e.b("eq", x == y).b("selfeq", x == x); obs(e); e.end(); return true; });
            if constexpr (requires (V const& v) { { v < v } -> std::convertible_to<bool>; })
                add("less", [this](int k, int a, int, int) { V const& x = at(0); V const& y = at(1); E e("less"); e.b("lt", x < y).b("gt", y < x); obs(e); e.end(); return true; });
        }
        bool bulk = false;
        void reset()
        {
            for (int k = 0; k < 2; ++k) { o[k].reset(); }
            if constexpr (requires { T::live(); })
            {
                // both objects are gone: everything they held must be gone too
                E e("gone"); e.i("live", T::live() - baseLive).i("bad", T::bad); if (started) e.end();
                T::bad = 0; 
                baseLive = T::live();
            }
            started = true;
            valueCounter = 1;
            for (int k = 0; k < 2; ++k) { o[k].emplace(); }
            E e("reset"); obs(e); e.end();
        }
        bool started = false;
        bool step(int op, int k, int a, int b, int c) { return fns[op](k, a, b, c); }
        void random(uint64_t seed, int histories, int length)
        {
            Rng r(seed);
            for (int h = 0; h < histories; ++h)
            {
                reset();
                // focus on a random subset of operations per history so that rare combinations recur
                std::vector<int> ops; for (int i = 0; i < (int)fns.size(); ++i) if (r.chance(2, 3)) ops.push_back(i);
                if (ops.empty()) ops.push_back(0);
                int near = r.below(1000);
                for (int s = 0; s < length;)
                {
                    int op = r.chance(1, 8) ? r.below((int)fns.size()) : ops[r.below((int)ops.size())];
                    int a = r.below(100000);
                    // positions cluster, so that operations meet the region edited last
                    if (r.chance(1, 2)) { near = std::max(0, near + r.range(-3, 3)); int n = len(at(0)); a = n > 3 ? near % n : near % 8; }
                    int k = r.chance(1, 5) ? 1 : 0;
                    step(op, k, a, r.below(100000), r.below(100000));
                    ++s;
                }
            }
            finish();
        }
        void finish()
        {
            for (int k = 0; k < 2; ++k) o[k].reset();
            if constexpr (requires { T::live(); }) { E e("gone"); e.i("live", T::live() - baseLive).i("bad", T::bad); e.end(); }
        }
        // plan: lines "name o a b c"; "reset" starts a new history
        void plan(const char* path)
        {
            std::ifstream f(path); std::string line; bool any = false;
            while (std::getline(f, line))
            {
                std::istringstream s(line); std::string n; int k = 0, a = 0, b = 0, c = 0; s >> n >> k >> a >> b >> c;
                if (n == "reset") { reset(); any = true; continue; }
                if (!any) { reset(); any = true; }
                for (int i = 0; i < (int)names.size(); ++i) if (names[i] == n) { step(i, k, a, b, c); break; }
            }
            finish();
        }
    };
    // driver MODE OUT ARGS...:  rand OUT SEED HISTORIES LENGTH | plan OUT FILE
    template <typename D> int seq_main(D& d, int argc, char** argv, int i0)
    {
        Out::get().open(argv[i0 + 1]);
        if (std::string(argv[i0]) == "rand") d.random(std::strtoull(argv[i0 + 2], nullptr, 10), std::atoi(argv[i0 + 3]), std::atoi(argv[i0 + 4]));
        else d.plan(argv[i0 + 2]);
        return 0;
    }
}
