// Sorting through a swapper, stepping through ranges, zip iterators and scoped guards.
//   helpers OUT SHARD SHARDS SEED COUNT
#include <neolib/neolib.hpp>
#include <atomic>
#include <cmath>
#include <functional>
#include <memory>
#include <deque>
#include <neolib/core/intrusive_sort.hpp>
#include <neolib/core/bresenham_counter.hpp>
#include <neolib/core/zip_iterator.hpp>
#include <neolib/core/scoped.hpp>
#include "trace.hpp"
using vt::E;
static vt::Rng rng(1);
using Ints = std::vector<int>;
template <typename C> static std::string ints(C const& c) { std::string o = "["; for (int v : c) { if (o.size() > 1) o += ','; o += std::to_string(v); } return o + "]"; }
using Item = std::pair<int, int>;
template <typename C> static std::string items(C const& c) { std::string o = "["; for (auto const& v : c) { if (o.size() > 1) o += ','; o += "[" + std::to_string(v.first) + "," + std::to_string(v.second) + "]"; } return o + "]"; }

static std::string one(Item const& v) { return ints(Ints{ v.first, v.second }); }
struct Plain : Item { using Item::Item; bool operator<(Plain const& b) const { return first < b.first; } };
template <typename C> static void sort_one(Ints const& keys, int how)
{
    C c; Ints labels; for (int k : keys) { c.push_back(Plain(k, (int)labels.size())); labels.push_back((int)labels.size()); }
    E e("sort"); e.raw("a", items(c)).b("down", how == 1);
    auto swapper = [&](auto x, auto y) { std::swap(*x, *y); std::swap(labels[x - c.begin()], labels[y - c.begin()]); };
    if (how == 2) neolib::intrusive_sort(c.begin(), c.end(), swapper);
    else neolib::intrusive_sort(c.begin(), c.end(), swapper, [&](Plain const& a, Plain const& b) { return how ? b.first < a.first : a.first < b.first; });
    e.raw("b", items(c)).raw("labels", ints(labels)).end();
}
// keys that make a quicksort by median of three go deep
static Ints deep(int n) { Ints a(n); for (int i = 0; i < n; ++i) a[i] = i; for (int i = 2; i < n; ++i) std::swap(a[i / 2], a[i]); return a; }
static void sorts(bool small)
{
    if (small) { for (int n = 0; n <= 5; ++n) for (int code = 0, all = std::pow(3, n); code < all; ++code) { Ints k; for (int i = 0, c = code; i < n; ++i, c /= 3) k.push_back(c % 3); sort_one<std::vector<Plain>>(k, code % 3); } return; }
    Ints k; int n = rng.below(4) ? rng.below(40) : rng.below(150);
    switch (rng.below(6))
    {
    case 0: k = Ints(n, 7); break;
    case 1: k = deep(n); break;
    case 2: for (int i = 0; i < n; ++i) k.push_back(i); break;
    case 3: for (int i = 0; i < n; ++i) k.push_back(i % 2 ? n - i : i); break;
    case 4: for (int i = 0; i < n; ++i) k.push_back(n - i); break;
    default: { int kinds = 1 + rng.below(30); for (int i = 0; i < n; ++i) k.push_back(rng.below(kinds) - 5); }
    }
    if (rng.below(3)) sort_one<std::vector<Plain>>(k, rng.below(3)); else sort_one<std::deque<Plain>>(k, rng.below(3));
}
template <typename C> static void step_one(bool alt, int from, int to, int n, int how)
{
    C c; if (how == 0) c = C(from, to, n); else if (how == 1) c.init(from, to, n); else if (how == 2) c = C(to, n); else c.init(to, n);
    Ints x; for (int i = 0; i < n; ++i) x.push_back(i % 2 ? c() : (int)c);
    E("step").b("alt", alt).i("from", how < 2 ? from : 0).i("to", how < 2 ? to : n == 1 ? 0 : to).raw("x", ints(x)).end();
}
static void steps(int from, int to, int n)
{
    for (int how = 0; how < 4; ++how) { if (how > 1 && to < 0) continue; step_one<neolib::bresenham_counter<int>>(false, from, to, n, how); step_one<neolib::bresenham_counter_alt<int>>(true, from, to, n, how); }
}
static void zips()
{
    int n = 1 + rng.below(6); Ints a, b; for (int i = 0; i < n; ++i) { a.push_back(rng.below(50)); b.push_back(100 + rng.below(50)); }
    using It = neolib::zip_iterator<Ints::iterator, Ints::iterator>;
    It first(a.begin(), b.begin()), last(a.end(), b.end());
    std::vector<Item> forwards, backwards; auto pair = [](auto&& t) { return Item(std::get<0>(t), std::get<1>(t)); };
    bool post = rng.chance(1, 2);
    for (It i = first; i != last; ) if (post) forwards.push_back(pair(*i++)); else { forwards.push_back(pair(*i)); ++i; }
    for (It i = last; !(i == first); ) { if (post) { i--; } else --i; backwards.push_back(pair(*i)); }
    int i = rng.below(n), j = rng.below(n); It x = first + i, y = first + j, z = last - (n - i);
    E e("zip"); e.raw("a", ints(a)).raw("b", ints(b)).raw("forwards", items(forwards)).raw("backwards", items(backwards)).i("i", i + 1).i("j", j + 1)
        .raw("at", one(pair(*x))).raw("back", one(pair(*z))).i("dist", last - first).b("less", x < y).b("eq", x == y).b("ne", x != y);
    auto a0 = a, b0 = b; std::iter_swap(x, y); auto sa = a, sb = b; a = a0; b = b0;
    It w = It(a.begin(), b.begin()) + i; std::get<0>(*w) = 77; std::get<1>(*w) = 78;
    e.raw("sa", ints(sa)).raw("sb", ints(sb)).raw("wa", ints(a)).raw("wb", ints(b)).end();
}
// a place of some kind, and guards on it
struct Guard { virtual ~Guard() = default; virtual void ignore() = 0; virtual int saved() = 0; };
template <typename G> struct Held : Guard
{
    G g; template <typename... A> explicit Held(A&&... a) : g(std::forward<A>(a)...) {}
    void ignore() override { g.ignore(); }
    int saved() override { if constexpr (requires { g.saved(); }) { if constexpr (std::is_pointer_v<std::decay_t<decltype(g.saved())>>) return *g.saved(); else return (int)g.saved(); } else return -2; }
};
template <typename Set, typename Get, typename Open> static void guards(Set set, Get get, bool nothing, int most, std::function<int()> live, Open open)
{
    int v = nothing && rng.chance(1, 3) ? -1 : rng.below(most); set(v); E("place").i("v", v).end();
    std::vector<std::unique_ptr<Guard>> held;
    for (int k = 1 + rng.below(12); k > 0 || !held.empty(); --k)
        switch (k > 0 ? rng.below(4) : 3)
        {
        case 0: case 1: if (k > 0 && held.size() < 5) { int to = rng.below(most); auto [kind, g] = open(to); held.push_back(std::unique_ptr<Guard>(g)); E e("open"); e.str("kind", kind).i("to", to).i("v", get()); if (int s = g->saved(); s != -2) e.i("saved", s); e.end(); } break;
        case 2: if (rng.chance(1, 2)) { if (!held.empty()) { held.back()->ignore(); E("ignore").i("v", get()).end(); } } else { int to = nothing && rng.chance(1, 3) ? -1 : rng.below(most); set(to); E("set").i("v", to).end(); } break;
        default: if (!held.empty()) { held.pop_back(); int now = get(); E("close").i("v", now).i("live", live ? live() : now != -1).end(); } break;
        }
}
static int alive = 0;
struct Thing { int v; Thing(int v) : v(v) { ++alive; } ~Thing() { --alive; } };
static void guarding()
{
    using namespace neolib; using R = std::pair<char const*, Guard*>;
    switch (rng.below(8))
    {
    case 0: { bool f = false; guards([&](int v) { f = v; }, [&]() { return (int)f; }, false, 2, {}, [&](int v) { return v && rng.chance(1, 2) ? R("flag", new Held<scoped_flag>(f)) : R("flag", new Held<scoped_flag>(f, (bool)v)); }); break; }
    case 1: { std::atomic<bool> f = false; guards([&](int v) { f = v; }, [&]() { return (int)f.load(); }, false, 2, {}, [&](int v) { return v && rng.chance(1, 2) ? R("atomic", new Held<scoped_atomic_flag>(f)) : R("atomic", new Held<scoped_atomic_flag>(f, (bool)v)); }); break; }
    case 2: { long c = 0; guards([&](int v) { c = v; }, [&]() { return (int)c; }, false, 9, {}, [&](int) { return R("counter", new Held<scoped_counter<long>>(c)); }); break; }
    case 3: { static int values[] = { 0, 1, 2, 3 }; int* p = values; guards([&](int v) { p = values + v; }, [&]() { return *p; }, false, 4, {}, [&](int v) { return R("pointer", new Held<scoped_pointer<int>>(p, values + v)); }); break; }
    case 4: { int o = 0; guards([&](int v) { o = v; }, [&]() { return o; }, false, 9, {}, [&](int v) { return R("object", new Held<scoped_object<int>>(o, v)); }); break; }
    case 5: { optional<int> o; guards([&](int v) { if (v == -1) o = std::nullopt; else o = v; }, [&]() { return o.has_value() ? o.value() : -1; }, true, 9, {}, [&](int v) { return rng.chance(1, 2) ? R("optional", new Held<scoped_optional<int>>(o, v)) : R("optional_if", new Held<scoped_optional_if<int>>(o, v)); }); break; }
    case 6: { Thing* t = nullptr; guards([&](int v) { delete t; t = v == -1 ? nullptr : new Thing(v); }, [&]() { return t ? t->v : -1; }, true, 9, [&]() { return alive; }, [&](int) { return R("deleter", new Held<scoped_deleter<Thing>>(t)); }); delete t; break; }
    case 7: { int calls = 0; auto f = [&]() { ++calls; }; guards([&](int v) { calls = v; }, [&]() { return calls; }, false, 9, {}, [&](int) { return R("cleanup", new Held<scoped_cleanup<decltype(f)>>(f)); }); break; }
    }
}
int main(int argc, char** argv)
{
    vt::Out::get().open(argv[1]); int shard = std::atoi(argv[2]), shards = std::atoi(argv[3]); long count = std::atol(argv[5]); rng = vt::Rng(std::atol(argv[4]) * 1000 + shard);
    if (shard == 0) sorts(true);
    long k = 0; for (int from = -6; from <= 6; from += 3) for (int to = -13; to <= 13; ++to) for (int n = 1; n <= 9; ++n) if (k++ % shards == shard) steps(from, to, n);
    for (long i = 0; i < count; ++i)
    {
        if (i % 2 == 0) sorts(false);
        if (i % 4 == 0) steps(rng.below(400) - 200, rng.below(400) - 200, 1 + rng.below(40));
        zips(); guarding();
    }
    E("end").end();
}
