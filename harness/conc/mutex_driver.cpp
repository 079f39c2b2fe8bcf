// Library locks under scheduled threads: driver rand TRACE SEED HIST LEN
#include <neolib/core/mutex.hpp>
#include <thread>
#include <memory>
#include "sched.hpp"
using namespace vt;
struct Tag {};
static std::unique_ptr<neolib::i_lockable> make(int kind, std::unique_ptr<neolib::i_lockable>& inner)
{
    if (kind < 4 || kind == 8)
    {
        auto m = std::make_unique<neolib::switchable_mutex<Tag>>();
        if (kind == 1) m->set_multi_threaded_profiled(); else if (kind == 2) m->set_multi_threaded_spinlock(); else if (kind == 8) m->set_single_threaded(); else if (kind == 3) { m->set_single_threaded(); m->set_multi_threaded(); }
        return m;
    }
    if (kind == 4) return std::make_unique<neolib::recursive_mutex<Tag>>();
    if (kind == 5) return std::make_unique<neolib::recursive_mutex<Tag, true>>();
    if (kind == 6) return std::make_unique<neolib::recursive_mutex<Tag, true, true>>();
    auto i = std::make_unique<neolib::recursive_mutex<Tag>>(); auto& r = *i; inner = std::move(i); return std::make_unique<neolib::proxy_mutex<neolib::recursive_mutex<Tag>>>(r);
}
static void call(int t, const char* op, int m) { put(E("call").i("t", t).str("op", op).i("m", m)); }
static void ret(int t, const char* op, int m, bool res = true) { put(E("ret").i("t", t).str("op", op).i("m", m).b("res", res)); }
static void history(uint64_t seed, int len)
{
    Rng r(seed); int kind = r.below(9), n = r.range(2, 3), nm = r.below(3) ? 1 : r.range(2, 3); if (kind == 8) n = 0;
    sched::onStuck([](const char* w) { put(E("stuck").str("why", w)); });
    neolib::services::allocate_service_provider(); struct Obs : neolib::i_mutex_profiler_observer { void mutex_contended(neolib::i_lockable&, const std::chrono::microseconds&, neolib::mutex_lock_info const*, std::size_t) noexcept override {} } obs;
    auto& prof = neolib::service<neolib::i_mutex_profiler>(); int pr = r.below(3); if (pr) { prof.enable(std::chrono::microseconds{ r.below(2) }, r.below(3), pr == 2); prof.subscribe(obs); }
    put(E("reset").i("kind", kind).i("n", n + 1).i("m", nm));
    std::vector<std::unique_ptr<neolib::i_lockable>> inner(nm), ms; std::vector<neolib::proxy_mutex<neolib::i_lockable>> all;
    for (int i = 0; i < nm; ++i) { ms.push_back(make(kind, inner[i])); all.emplace_back(*ms.back()); }
    std::vector<int> shared(nm);
    auto body = [&](int t, uint64_t s)
    {
        Rng q(s); int depth[3] = {};
        auto unlock = [&](int k) { call(t, "unlock", k + 1); ms[k]->unlock(); --depth[k]; ret(t, "unlock", k + 1); };
        auto held = [&]() { for (int k = nm; k--;) if (depth[k]) return k; return -1; };
        for (int i = 0; i < len; ++i)
        {
            int op = q.below(12), h = held();
            // several locks: taken one by one only in their order, so that the client itself does not deadlock
            int k = q.below(nm); if (h > k && !depth[k]) k = h;
            if (h >= 0 && op < 5) unlock(h);
            else if (op < 8 && depth[k] < 3) { call(t, "lock", k + 1); ms[k]->lock(); ++depth[k]; ret(t, "lock", k + 1); int x = shared[k]; std::this_thread::yield(); shared[k] = x + 1; }
            else if (op < 10 && depth[k] < 3) { k = q.below(nm); if (depth[k] >= 3) continue; call(t, "try", k + 1); bool b = ms[k]->try_lock(); if (b) ++depth[k]; ret(t, "try", k + 1, b); }
            else if (nm > 1 && h < 0)
            {
                call(t, "lockall", 0); { neolib::scoped_multi_lock l{ all }; ret(t, "lockall", 0);
                for (int j = 0; j < nm; ++j) { int x = shared[j]; std::this_thread::yield(); shared[j] = x + 1; } call(t, "unlockall", 0); } ret(t, "unlockall", 0);
            }
        }
        for (int h; (h = held()) >= 0;) unlock(h);
    };
    std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back(body, i + 2, r.next());
    body(1, r.next()); for (auto& t : ts) t.join();
    put(E("done"));
}
int main(int argc, char** argv)
{
    if (argc < 6) return 3; int len = std::atoi(argv[5]);
    return sched::histories(argv[2], std::strtoull(argv[3], 0, 10), std::atoi(argv[4]), [&](uint64_t s) { history(s, len); });
}
