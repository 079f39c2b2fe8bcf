// neolib::timer / callback_timer on a virtual clock: driver rand TRACE SEED HIST LEN
#include <neolib/neolib.hpp>
#include <time.h>
#include <memory>
#include <new>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/task/timer.hpp>
#include "trace.hpp"
static long long sNow = 1000000000000ll; static bool sVirtual = false;
#include <dlfcn.h>
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (!sVirtual) { static auto f = (int(*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); return f(c, ts); }
    ts->tv_sec = sNow / 1000000000; ts->tv_nsec = sNow % 1000000000; return 0;
}
using namespace vt; using neolib::callback_timer;
static const long long U = 1953125; // 2^-9 s
struct Ctx : neolib::lifetime<> {};
struct Task : neolib::async_task { };
struct Boom {};
struct Hist
{
    Rng r; std::unique_ptr<Task> task; neolib::timer* t[5] = {}; bool derived[5] = {}; int cx[5] = {}; std::unique_ptr<Ctx> ctx[3]; int budget = 60, depth = 0; bool throws, ctxdies; bool ctxDead = false; int firing = 0;
    Hist(uint64_t s) : r(s) {}
    struct Own : neolib::timer { Hist& h; template <typename... A> Own(Hist& hh, A&&... a) : neolib::timer(std::forward<A>(a)...), h(hh) {} Own(Own const& o) : neolib::timer(o), h(o.h) {} ~Own() { cancel(); unsubscribe(); } void ready() override { Hist& hh = h; hh.fire(this); } };
    E& st(E& e, int k) { return e.b("w", t[k]->waiting()).b("en", t[k]->enabled()).i("dur", (long long)(t[k]->duration().count() * 1e9)); }
    void ev(E e, int k) { st(e, k).end(); }
    std::chrono::duration<double> sec(int u) { return std::chrono::duration<double>{ u * (U * 1e-9) }; }
    void make(int k, int d, bool wait, int x)
    {
        derived[k] = r.below(3) == 0; Hist* h = this; auto cb = [h](callback_timer& ct) { Hist* hh = h; hh->fire(&ct); };
        if (derived[k]) t[k] = x ? new Own(*this, *task, *ctx[x], sec(d), wait) : new Own(*this, *task, sec(d), wait);
        else t[k] = x ? new callback_timer(*task, *ctx[x], cb, sec(d), wait) : new callback_timer(*task, cb, sec(d), wait);
    }
    bool usable(int k) { return t[k] && !(depth && cx[k] && !ctx[cx[k]]); }
    void fire(neolib::timer* p)
    {
        int k = 0; for (int i = 1; i <= 4; ++i) if (t[i] == p) k = i;
        if (!k) { E("strayfire").end(); return; }
        ev(E("fire").i("k", k), k); --budget; ++depth;
        for (int n = r.below(4); n--;)
        {
            int c = r.below(6);
            if (c < 2 && t[k] == p) op(k, r.below(3) ? 0 : r.below(7)); // re-arm itself
            else try { step(true); } catch (Boom&) { --depth; E("fired").i("k", k).end(); throw; }
        }
        --depth; bool boom = throws && r.below(5) == 0;
        E("fired").i("k", k).end();
        if (boom) throw Boom{};
    }
    void op(int k, int c)
    {
        static const char* n[] = { "again", "again_if", "cancel", "reset", "enable", "enablewait", "disable" };
        if (budget <= 0 && c != 2 && c != 6) return;
        std::string res = "ok"; auto& x = *t[k];
        try { switch (c) { case 0: x.again(); break; case 1: x.again_if(); break; case 2: x.cancel(); break; case 3: x.reset(); break; case 4: x.enable(false); break; case 5: x.enable(); break; case 6: x.disable(); break; } }
        catch (neolib::timer::already_waiting&) { res = "waiting"; } catch (neolib::timer::already_enabled&) { res = "enabled"; } catch (neolib::timer::already_disabled&) { res = "disabled"; }
        ev(E("op").i("k", k).str("op", n[c]).str("res", res), k);
    }
    void poll(int lim)
    {
        int kind = lim ? 0 : r.below(3); E("poll").i("lim", lim).end();
                try
        {
            bool b = kind == 2 ? static_cast<neolib::i_task&>(*task).do_work() : task->timer_service().poll(kind == 0, lim ? lim : neolib::i_async_service::kDefaultPollCount);
            E("polled").b("res", b).end();
        }
        catch (Boom&) { E("pollx").end(); if (depth && r.below(2)) throw; }
    }
    void step(bool inside)
    {
        int c = r.below(40), k = r.range(1, 4);
        if (c < 6) { if (!t[k] && task && budget > 0) { int d = r.below(4) ? r.range(1, 6) : r.below(3) ? 1 : 0; int x = r.below(4) ? 0 : r.range(1, 2); if (x && !ctx[x]) x = 0; bool w = r.below(3); make(k, d, w, x); cx[k] = x; ev(E("new").i("k", k).b("wait", w).i("ctx", x), k); } }
        else if (c < 15) { if (usable(k)) op(k, r.below(7)); }
        else if (c == 15) { int j = r.range(1, 4); if (usable(k) && usable(j) && k != j) { if (derived[k]) { struct A : neolib::timer { using neolib::timer::operator=; }; static_cast<neolib::timer&>(*t[k]) = *t[j]; } else static_cast<neolib::timer&>(*t[k]) = *t[j]; ev(E("assign").i("k", k).i("from", j), k); } }
        else if (c == 16) { int j = r.range(1, 4); if (!t[k] && usable(j) && task && budget > 0 && !(cx[j] && !ctx[cx[j]])) { derived[k] = derived[j]; cx[k] = cx[j]; if (derived[j]) t[k] = new Own(static_cast<Own&>(*t[j])); else t[k] = new callback_timer(static_cast<callback_timer&>(*t[j])); ev(E("copy").i("k", k).i("from", j), k); } }
        else if (c < 19) { if (usable(k) && budget > 0) { int d = r.range(0, 6); bool imm = r.below(2); t[k]->set_duration(sec(d), imm); ev(E("setdur").i("k", k).i("d", d * U).b("imm", imm), k); } }
        else if (c == 19) { if (t[k] && (!inside || r.below(2))) { auto p = t[k]; t[k] = nullptr; E("destroy").i("k", k).end(); delete p; } }
        else if (c == 20) { if (ctxdies && r.below(2) && !inside) { int x = r.range(1, 2); if (ctx[x]) { ctx[x].reset(); ctxDead = true; E("ctxdie").i("x", x).end(); } } }
        else if (c == 21) { if (!inside && r.below(6) == 0 && task) { task.reset(); E("taskdie").end(); } }
        else if (c < 30) { long long d = r.below(4) ? r.range(1, 5) * U : r.below(2) ? r.range(1, 3) * U - 1 : 1; sNow += d; E("advance").i("d", d).end(); }
        else if (c < 37) { if (task && depth < 3) poll(ctxDead || r.below(4) ? 0 : r.range(1, 3)); }
        else if (usable(k)) ev(E("look").i("k", k), k);
    }
    void go(int len)
    {
        throws = r.below(2); ctxdies = !throws; E("reset").end();
        task = std::make_unique<Task>(); for (int x = 1; x <= 2; ++x) ctx[x] = std::make_unique<Ctx>();
        for (int i = 0; i < len; ++i) step(false);
        if (r.below(2)) { for (int k = 1; k <= 4; ++k) if (t[k]) { E("destroy").i("k", k).end(); delete t[k]; t[k] = nullptr; } task.reset(); }
        else { task.reset(); E("taskdie").end(); for (int k = 1; k <= 4; ++k) if (t[k]) { ev(E("look").i("k", k), k); delete t[k]; t[k] = nullptr; } }
    }
};
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]); E::Out_unbuffered() = true; sVirtual = true;
    neolib::services::allocate_service_provider();
    for (int i = 0; i < std::atoi(argv[4]); ++i) { Hist h(std::strtoull(argv[3], 0, 10) * 1000003 + i); h.go(std::atoi(argv[5])); }
}
