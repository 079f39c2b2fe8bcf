// event / slot / sink / async_event_queue: random histories on two threads that take turns (inside handlers too).
#include <neolib/core/lifetime.hpp>
#include <neolib/task/event.hpp>
#include <array>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include "trace.hpp"
using namespace vt; using namespace neolib;
static constexpr int MaxE = 12, MaxS = 60;
struct Oops {};
struct Token { std::mutex m; std::condition_variable cv; int cur = 0; bool done[3] = {}; };
static bool aliveSlot[MaxS + 1];
struct Mark { int s; explicit Mark(int s) : s{ s } { aliveSlot[s] = true; } ~Mark() { aliveSlot[s] = false; } };
struct Driver
{
    using Ev = event<int>;
    std::array<std::unique_ptr<Ev>, MaxE + 1> ev; int active[MaxE + 1] = {}; int evs = 0, slots = 0, arg = 0;
    std::array<ref_ptr<slot<int>>, MaxS + 1> hd; std::array<std::unique_ptr<sink>, 4> sk;
    Rng r{ 1 }; Token tok; int budget = 0; int depth[3] = {}; int queueBias = 0; bool cross = true;
    void seen(E& e)
    {
        std::string s = "["; for (int i = 1; i <= evs; ++i) if (ev[i]) s += (s.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string(ev[i]->has_slots()) + "]"; e.raw("has", s + "]");
        s = "["; for (int k = 1; k <= 3; ++k) s += std::string(k > 1 ? "," : "") + (sk[k]->empty() ? "1" : "0"); e.raw("emp", s + "]");
        s = "["; for (int i = 1; i <= slots; ++i) if (aliveSlot[i]) s += (s.size() > 1 ? "," : "") + std::to_string(i); e.raw("al", s + "]").end();
    }
    int pickEv() { int c[MaxE], n = 0; for (int i = 1; i <= evs; ++i) if (ev[i]) c[n++] = i; return n ? c[r.below(n)] : 0; }
    int pickHd() { int c[MaxS], n = 0; for (int i = 1; i <= slots; ++i) if (hd[i].valid()) c[n++] = i; return n ? c[r.below(n)] : 0; }
    void turn(int t)
    {
        if (!cross) return;
        std::unique_lock<std::mutex> l{ tok.m }; int n = 3 - t; if (tok.done[n] || r.chance(1, 2)) return;
        tok.cur = n; tok.cv.notify_all(); tok.cv.wait(l, [&] { return tok.cur == t; });
    }
    static int& me() { thread_local int t = 0; return t; }
    void handler(int s, int a)
    {
        int t = me(); E e("call"); e.i("t", t).i("s", s).i("a", a); seen(e);
        ++depth[t]; turn(t);
        int n = depth[t] < 4 ? r.below(4) : r.below(2);
        for (int i = 0; i < n && budget > 0; ++i) op(t);
        --depth[t];
        if (r.chance(1, 14)) { pending = s; throw Oops{}; }
        E f("ret"); f.i("t", t).i("s", s); seen(f);
    }
    int pending = 0; // slot whose handler is throwing; reported once the operation that called it has ended
    void threw(int t) { E e("throw"); e.i("t", t).i("s", pending); seen(e); }
    void op(int t) { --budget; oper(t); turn(t); }
    void oper(int t)
    {
        int e1 = pickEv(), o = r.below(100);
        if (!e1 || o < 4) { if (evs == MaxE) return; int e = evs + 1; if (e1 && r.chance(1, 4)) { ev[e] = std::make_unique<Ev>(*ev[e1]); evs = e; E x("copyev"); x.i("v", e).i("f", e1); seen(x); return; }
            int y = r.chance(queueBias, 10) ? r.range(1, 3) : 0; ev[e] = std::make_unique<Ev>(); ev[e]->set_trigger_type((trigger_type)y); evs = e; E x("newev"); x.i("v", e).i("y", y); seen(x); return; }
        if (o < 8) { if (evs < 3 && r.chance(3, 4)) return; ev[e1].reset(); E x("delev"); x.i("v", e1); seen(x); return; }
        if (o < 10) { int f = pickEv(); if (active[e1] || f == e1) return; *ev[e1] = *ev[f]; E x("assignev"); x.i("v", e1).i("f", f); seen(x); return; }
        if (o < 13) { if (active[e1]) return; int y = r.chance(queueBias, 10) ? r.range(0, 3) : 0; ev[e1]->set_trigger_type((trigger_type)y); E x("type"); x.i("v", e1).i("y", y); seen(x); return; }
        if (o < 38)
        {
            if (slots == MaxS) return; int s = ++slots; bool p = r.chance(1, 4), em = r.chance(1, 4), sta = r.chance(1, 5); int k = r.range(1, 3); int w = r.below(10);
            {
                auto m = std::make_shared<Mark>(s); auto& E_ = *ev[e1];
                auto fn = [this, s, m](int a) { handler(s, a); if (m->s != s) std::exit(77); }; // the handler is still there when it returns
                m.reset();
                auto px = E_(fn, p); if (em) ~px; if (sta) !px;
                if (w < 4) hd[s] = px.slot; else if (w < 6) *sk[k] = std::move(px); else if (w < 9) *sk[k] += std::move(px);
            }
            E x("sub"); x.i("t", t).i("s", s).i("v", e1).b("p", p).b("em", em).b("sta", sta).str("w", w < 4 ? "h" : w < 6 ? "=" : w < 9 ? "+" : "").i("k", k); seen(x); return;
        }
        if (o < 44) { int s = pickHd(); if (!s) return; hd[s]->remove(); E x("remove"); x.i("s", s); seen(x); return; }
        if (o < 48) { int s = pickHd(); if (!s) return; hd[s].reset(); E x("drop"); x.i("s", s); seen(x); return; }
        if (o < 51) { int k = r.range(1, 3); if (r.chance(1, 2)) sk[k]->clear(); else { sk[k].reset(); sk[k] = std::make_unique<sink>(); } E x("sclear"); x.i("k", k); seen(x); return; }
        if (o < 53) { int s = pickHd(), k = r.range(1, 3); if (!s) return; *sk[k] += slot_proxy<int>{ hd[s] }; E x("sadd"); x.i("k", k).i("s", s); seen(x); return; }
        if (o < 56) { int k = r.range(1, 3), f = r.range(1, 3); if (k != f && r.chance(1, 3)) { sk[k].reset(); sk[k] = std::make_unique<sink>(*sk[f]); } else *sk[k] = *sk[f]; E x("scopy"); x.i("k", k).i("f", f); seen(x); return; }
        if (o < 60) { if (!depth[t]) return; ev[e1]->accept(); E x("accept"); x.i("t", t).i("v", e1); seen(x); return; }
        if (o < 88)
        {
            int how = r.below(4); if (how == 1 && !r.chance(queueBias, 10)) how = 0; auto& E_ = *ev[e1]; int a = ++arg;
            bool async = how == 1 || (how >= 2 && (int)E_.trigger_type() >= 2);
            if (async) { int res = 0; if (how == 1) E_.async_trigger(a); else res = (int)E_.trigger(a); E x("atrig"); x.i("t", t).i("v", e1).i("a", a).str("how", how == 1 ? "async" : "auto").i("res", res); seen(x); return; }
            E("trig").i("t", t).i("v", e1).i("a", a).str("how", how == 0 ? "sync" : "auto").end();
            ++active[e1]; int res = -1;
            try { res = (int)(how == 0 ? E_.sync_trigger(a) : how == 2 ? E_.trigger(a) : E_(a)); } catch (Oops const&) {}
            --active[e1];
            if (res < 0) { threw(t); return; }
            E x("endtrig"); x.i("t", t).i("res", res); seen(x); return;
        }
        E("pump").i("t", t).end(); int did = -1;
        try { did = async_event_queue::instance().pump_events(); } catch (Oops const&) {}
        if (did < 0) { threw(t); return; }
        E x("endpump"); x.i("t", t).b("did", did); seen(x);
    }
    // the two threads meet (cur counts arrivals), then thread 1 gets the turn
    void run()
    {
        for (auto& s : sk) s = std::make_unique<sink>();
        for (auto& a : aliveSlot) a = false;
        E e("reset"); seen(e);
        std::thread a{ [this] { bodyT(1); } }, b{ [this] { bodyT(2); } };
        a.join(); b.join();
    }
    int arrived = 0; bool started = false;
    void bodyT(int t)
    {
        me() = t; async_event_queue::instance();
        { std::unique_lock<std::mutex> l{ tok.m }; if (++arrived == 2) { started = true; tok.cur = cross ? 1 + r.below(2) : 1; } tok.cv.notify_all(); tok.cv.wait(l, [&] { return started && tok.cur == t; }); }
        while (budget > 0 && (cross || t == 1)) op(t);
        if (pumpRest()) { E("pump").i("t", t).end(); budget = 0; int did = -1; try { did = async_event_queue::instance().pump_events(); } catch (Oops const&) {} if (did < 0) threw(t); else { E x("endpump"); x.i("t", t).b("did", did); seen(x); } }
        { std::unique_lock<std::mutex> l{ tok.m }; tok.done[t] = true; if (!tok.done[3 - t]) tok.cur = 3 - t; tok.cv.notify_all(); if (!tok.done[3 - t]) tok.cv.wait(l, [&] { return tok.done[3 - t]; }); }
    }
    bool pumpRest() { return r.chance(1, 2); }
};
int main(int argc, char** argv)
{
    services::allocate_service_provider();
    if (argc < 7) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]), mode = std::atoi(argv[6]);
    for (int h = 0; h < hist; ++h)
    {
        auto d = std::make_unique<Driver>(); d->r = Rng(seed * 100003 + h); d->budget = len; d->cross = mode != 0; d->queueBias = mode == 0 ? 1 : mode == 1 ? 4 : 9;
        d->run();
    }
    return 0;
}
