// neolib::waitable_event and waitable_event_list under scheduled threads: driver rand TRACE SEED HIST LEN
#include <neolib/task/waitable_event.hpp>
#include <thread>
#include <memory>
#include "sched.hpp"
using namespace vt;
struct Queue : neolib::i_message_queue { bool q = false; bool have_message() const override { sched::point(); return q; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
struct Waitable : neolib::waitable { bool w = false; bool waitable_ready() const override { sched::point(); return w; } };
static void history(uint64_t seed, int len)
{
    Rng r(seed); int n = r.range(2, 4), ne = r.range(1, 2); bool rescue = r.below(2);
    sched::onStuck([](const char* w) { put(E("stuck").str("why", w).i("now", sched::now() / 1000)); });
    put(E("reset").i("n", n + 1).i("k", ne).b("rescue", rescue).i("now", sched::now() / 1000));
    std::vector<std::unique_ptr<neolib::waitable_event>> ev; for (int i = 0; i < ne; ++i) ev.push_back(std::make_unique<neolib::waitable_event>());
    std::vector<neolib::waitable_event const*> ptrs; Queue q; Waitable w; int done = 0;
    struct It { neolib::waitable_event const* const* p; neolib::waitable_event const& operator*() const { return **p; } It operator++(int) { It t = *this; ++p; return t; } bool operator!=(It const& o) const { return p != o.p; } };
    for (auto& e : ev) ptrs.push_back(e.get());
    int profile = r.below(4); if (rescue && r.below(3) == 0) { q.q = true; put(E("post").i("t", 1).i("now", sched::now() / 1000)); }  if (rescue && r.below(3) == 0) { w.w = true; put(E("ready").i("t", 1).i("now", sched::now() / 1000)); } // 0: any, 1: waiters and signallers, 2: many waits, 3: one kind of signal
    auto call = [&](int t, const char* op, std::vector<int> on, int ms = -1, bool mq = false, bool mw = false) { sched::NP np; put(E("call").i("t", t).str("op", op).seq("on", on).i("ms", ms).b("q", mq).b("w", mw).i("now", sched::now() / 1000)); };
    auto ret = [&](int t, const char* op, const char* res, int k = 0) { sched::NP np; put(E("ret").i("t", t).str("op", op).str("res", res).i("k", k).i("now", sched::now() / 1000)); };
    auto body = [&](int t, uint64_t s, int role)
    {
        Rng g(s);
        auto what = [&](neolib::wait_result const& x) { if (auto p = std::get_if<neolib::wait_result_event>(&x)) { for (int k = 0; k < ne; ++k) if (&p->iEvent == ev[k].get()) { ret(t, "list", "event", k + 1); return; } ret(t, "list", "event", 0); } else ret(t, "list", std::get_if<neolib::wait_result_message>(&x) ? "message" : "waitable"); };
        for (int i = 0; i < len; ++i)
        {
            int k = g.below(ne), x = g.below(100), ms = g.below(3) ? g.range(0, 2) : 0; std::vector<int> on{ k + 1 };
            if (rescue && g.below(2)) x = 75 + g.below(21); else if (role == 1) x = x < 55 ? 10 : x < 85 ? 30 : x; else if (role == 2) x = x < 45 ? 50 : x < 65 ? 60 : x < 70 ? 70 : x;
            if (!rescue && x >= 75) x %= 75;
            if (x < 22) { call(t, "wait", on); ev[k]->wait(); ret(t, "wait", "event", k + 1); }
            else if (x < 45) { call(t, "wait", on, ms); bool b = ev[k]->wait(ms); ret(t, "wait", b ? "event" : "none", b ? k + 1 : 0); }
            else if (x < 58) { call(t, "one", on); ev[k]->signal_one(); ret(t, "one", "event"); }
            else if (x < 69) { call(t, "all", on); ev[k]->signal_all(); ret(t, "all", "event"); }
            else if (x < 75) { call(t, "clear", on); ev[k]->reset(); ret(t, "clear", "event"); }
            else if (x < 80) { call(t, "wait", on, -1, true); bool b = ev[k]->msg_wait(q); ret(t, "wait", b ? "event" : "none", b ? k + 1 : 0); }
            else if (x < 85) { call(t, "wait", on, ms, true); bool b = ev[k]->msg_wait(q, ms); ret(t, "wait", b ? "event" : "none", b ? k + 1 : 0); }
            else if (x < 96)
            {
                std::vector<int> all; for (int j = 0; j < ne; ++j) all.push_back(j + 1); int m = g.below(4);
                neolib::waitable_event_list l{ It{ ptrs.data() }, It{ ptrs.data() + ne } }; call(t, "list", all, -1, m & 1, m & 2);
                if (m == 0) what(l.wait()); else if (m == 1) what(l.msg_wait(q)); else if (m == 2) what(l.wait(w)); else what(l.msg_wait(q, w));
            }
            else if (x == 96) { sched::NP np; q.q = true; put(E("post").i("t", t).i("now", sched::now() / 1000)); }
            else if (x == 97) { sched::NP np; w.w = true; put(E("ready").i("t", t).i("now", sched::now() / 1000)); }
            else std::this_thread::sleep_for(std::chrono::microseconds(g.range(100, 2000)));
        }
        sched::NP np; ++done;
    };
    std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back(body, i + 2, r.next(), profile == 0 ? 0 : profile == 2 ? (i < n - 1 ? 1 : 2) : (i & 1) + 1);
    int later = r.range(0, 1500); if (!rescue && r.below(2)) body(1, r.next(), profile ? 2 : 0); else ++done;
    if (rescue)
    {
        std::this_thread::sleep_for(std::chrono::microseconds(later));
        { sched::NP np; q.q = true; put(E("post").i("t", 1).i("now", sched::now() / 1000)); w.w = true; put(E("ready").i("t", 1).i("now", sched::now() / 1000)); }
        for (int i = 0; i < 4000 && done <= n; ++i) { for (int k = 0; k < ne; ++k) { call(1, "one", { k + 1 }); ev[k]->signal_one(); ret(1, "one", "event"); } std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 100)); }
    }
    for (auto& t : ts) t.join();
    // what is left is there to be taken
    for (int k = 0; k < ne; ++k) for (int i = 0; i < 2; ++i) { call(1, "wait", { k + 1 }, 0); bool b = ev[k]->wait(0); ret(1, "wait", b ? "event" : "none", b ? k + 1 : 0); }
    put(E("done").i("now", sched::now() / 1000));
}
int main(int argc, char** argv)
{
    sched::stepLimit = 60000; if (argc < 6) return 3; int len = std::atoi(argv[5]);
    return sched::histories(argv[2], std::strtoull(argv[3], 0, 10), std::atoi(argv[4]), [&](uint64_t s) { history(s, len); });
}
