// neolib::thread_pool under scheduled threads: driver rand TRACE SEED HIST LEN [mode: 0 tasks, 1 parallel_apply]
#include <neolib/task/thread_pool.hpp>
#include <thread>
#include <memory>
#include <stdexcept>
#include "sched.hpp"
using namespace vt;
static const int K = 9;
static thread_local bool tClient = false;
struct Hist
{
    Rng r; int len, n; neolib::thread_pool* pool = nullptr; int next = 0; bool stops = false, grows = false; int thrower = 0;
    std::vector<std::shared_ptr<neolib::i_task>> tasks = std::vector<std::shared_ptr<neolib::i_task>>(K + 1);
    struct Fut { std::future<int> i; std::future<void> v; int kind = 0; } futs[K + 1]; bool bad = false;
    std::vector<uint64_t> seeds;
    Hist(uint64_t s) : r(s) {}
    void call(int t, const char* op, int k = 0, int pri = 0, int m = 0) { put(E("call").i("t", t).str("op", op).i("k", k).i("pri", pri).i("m", m)); }
    void ret(int t, const char* op, std::string res) { put(E("ret").i("t", t).str("op", op).str("res", res)); }
    std::string yes(bool b) { return b ? "true" : "false"; }
    void query(int t, int w)
    {
        switch (w)
        {
        case 0: call(t, "active"); ret(t, "active", std::to_string(pool->active_threads())); break;
        case 1: call(t, "available"); ret(t, "available", std::to_string(pool->available_threads())); break;
        case 2: call(t, "total"); ret(t, "total", std::to_string(pool->total_threads())); break;
        case 3: if (!grows) { call(t, "max"); ret(t, "max", std::to_string(pool->max_threads())); } break;
        case 4: call(t, "idle"); ret(t, "idle", yes(pool->idle())); break;
        case 5: call(t, "busy"); ret(t, "busy", yes(pool->busy())); break;
        case 6: call(t, "stopped"); ret(t, "stopped", yes(pool->stopped())); break;
        default: { int k = r0(t, K) + 1; if (futs[k].kind) poll(t, k); } break;
        }
    }
    Rng* rs[32] = {};
    int r0(int t, int m) { return rs[t]->below(m); }
    void poll(int t, int k)
    {
        auto& f = futs[k]; using namespace std::chrono_literals; bool thr = thrower & (1 << k);
        call(t, "poll", k); std::string res = "pending";
        sched::point();
        if (f.kind == 1 ? f.i.wait_for(0s) == std::future_status::ready : f.v.wait_for(0s) == std::future_status::ready)
        {
            res = "ready"; sched::NP np;
            try { if (f.kind == 1) { if (f.i.get() != k * 7 || thr) res = "wrong"; } else { f.v.get(); if (thr) res = "wrong"; } } catch (std::domain_error&) { if (!thr) res = "wrong"; } catch (...) { res = "wrong"; }
            f.kind = 0;
        }
        ret(t, "poll", res);
    }
    void body(int k)
    {
        put(E("begin").i("k", k).i("th", sched::self()).b("client", tClient));
        Rng g(seeds[k]); int t = n + k; rs[t] = &g;
        for (int i = g.below(4); i--;) { std::this_thread::yield(); if (g.below(3) == 0) action(t, g, false); }
        put(E("end").i("k", k)); rs[t] = nullptr;
        if (thrower & (1 << k)) throw std::domain_error("x");
    }
    struct Task : neolib::task<> { Hist& h; int k; Task(Hist& hh, int kk) : h(hh), k(kk) {} void run(neolib::yield_type) override { h.body(k); } };
    void hand(int t, Rng& g)
    {
        int k; { sched::NP np; if (next == K) return; k = ++next; } int pri = g.below(3) ? 0 : g.range(-1, 2);
        if (g.below(8) == 0) thrower |= 1 << k;
        switch (g.below(6))
        {
        case 0: thrower &= ~(1 << k); tasks[k] = std::make_shared<Task>(*this, k); call(t, "start", k, pri); pool->start(tasks[k], pri); ret(t, "start", "ok"); break;
        case 1: thrower &= ~(1 << k); tasks[k] = std::make_shared<Task>(*this, k); call(t, "start", k, pri); pool->start(*tasks[k], pri); ret(t, "start", "ok"); break;
        case 2: { thrower &= ~(1 << k); tasks[k] = std::make_shared<Task>(*this, k); call(t, "try", k, pri); bool b = pool->try_start(tasks[k], pri); ret(t, "try", yes(b)); } break;
        case 3: { thrower &= ~(1 << k); tasks[k] = std::make_shared<Task>(*this, k); call(t, "try", k, pri); bool b = pool->try_start(*tasks[k], pri); ret(t, "try", yes(b)); } break;
        case 4: { call(t, "run", k, pri); auto x = pool->run<int>([this, k]() { body(k); return k * 7; }, pri); bool ok = x.first.valid() && x.second; ret(t, "run", ok ? "ok" : "none"); sched::NP np; if (ok) { futs[k].i = std::move(x.first); tasks[k] = x.second; futs[k].kind = 1; } } break;
        default: { call(t, "run", k, pri); auto x = pool->run(std::function<void()>([this, k]() { body(k); }), pri); bool ok = x.first.valid() && x.second; ret(t, "run", ok ? "ok" : "none"); sched::NP np; if (ok) { futs[k].v = std::move(x.first); tasks[k] = x.second; futs[k].kind = 2; } } break;
        }
    }
    void action(int t, Rng& g, bool client)
    {
        int op = g.below(client ? 22 : 14);
        if (op < 7) hand(t, g);
        else if (op < 11) query(t, t <= 1 ? g.below(8) : g.below(7));
        else if (op < 13) { int k = g.range(1, K); if (tasks[k]) { call(t, "cancel", k); tasks[k]->cancel(); ret(t, "cancel", "ok"); } }
        else if (op == 13) std::this_thread::yield();
        else if (op < 19) { if (g.below(2)) { call(t, "wait"); pool->wait(); ret(t, "wait", "ok"); } else std::this_thread::yield(); }
        else if (op == 19) { if (stops) { call(t, "stop"); pool->stop(); ret(t, "stop", "ok"); } }
        else if (op == 20) { if (grows) { int m = g.range(1, 4); call(t, "reserve", 0, 0, m); pool->reserve(m); ret(t, "reserve", "ok"); } }
        else std::this_thread::sleep_for(std::chrono::microseconds(g.range(1, 10)));
    }
    void go(int l, int mode)
    {
        len = l; n = r.range(1, 3); int what = r.below(3); stops = what == 1; grows = what == 2;
        sched::onStuck([](const char* w) { put(E("stuck").str("why", w)); });
        sched::hardware = r.range(1, 3); for (int k = 0; k <= K; ++k) seeds.push_back(r.next());
        put(E("reset").i("n", n + K).i("size", sched::hardware));
        tClient = true; pool = new neolib::thread_pool;
        auto client = [&](int t, uint64_t s)
        {
            tClient = true; Rng g(s); rs[t] = &g;
            if (mode == 1)
            {
                for (int i = 0; i < 2; ++i)
                {
                    std::vector<int> v(g.below(7)); for (std::size_t j = 0; j < v.size(); ++j) v[j] = j + 1; int least = g.below(3) * 3;
                    put(E("apply").i("t", t).i("m", v.size()));
                    neolib::parallel_apply(*pool, v, std::function<void(int&)>([&](int& e) { std::this_thread::yield(); int i; i = e; put(E("elem").i("t", t).i("i", i)); }), least);
                    put(E("applied").i("t", t));
                }
                return;
            }
            for (int i = 0; i < len; ++i) action(t, g, true);
        };
        { std::vector<std::thread> ts; for (int i = 1; i < n; ++i) ts.emplace_back(client, i + 1, r.next()); client(1, r.next()); for (auto& t : ts) t.join(); }
        Rng g(1); rs[1] = &g;
        if (r.below(2) && mode == 0) { call(1, "wait"); pool->wait(); ret(1, "wait", "ok"); for (int k = 1; k <= K; ++k) if (futs[k].kind) poll(1, k); }
        for (int w = 0; w < 7 && mode == 0; ++w) query(1, w);
        if (mode == 0) { call(1, "destroy"); delete pool; ret(1, "destroy", "ok"); for (int k = 1; k <= K; ++k) if (futs[k].kind) poll(1, k); } else delete pool;
        put(E("done"));
    }
};
int main(int argc, char** argv)
{
    if (argc < 6) return 3; int len = std::atoi(argv[5]), mode = argc > 6 ? std::atoi(argv[6]) : 0;
    return sched::histories(argv[2], std::strtoull(argv[3], 0, 10), std::atoi(argv[4]), [&](uint64_t s) { Hist h(s); h.go(len, mode); });
}
