// neolib::thread under scheduled threads: driver rand TRACE SEED HIST LEN
#include <neolib/task/thread.hpp>
#include <thread>
#include <memory>
#include <stdexcept>
#include "sched.hpp"
using namespace vt;
struct Queue : neolib::i_message_queue { bool q = false; bool have_message() const override { sched::point(); return q; } int get_message() const override { return 0; } void bump() override {} bool in_idle() const override { return false; } void idle() override {} };
struct Sub : neolib::thread
{
    std::function<void()> body;
    Sub(std::function<void()> b, bool attach) : neolib::thread("t", attach), body(b) {}
    ~Sub() { if (started() && !using_existing_thread()) { abort(); if (has_thread_object()) wait(); } }   // a derived class ends its procedure before it goes
    void exec(neolib::yield_type) override { body(); }
};
static const char* names[] = { "ReadyToStart", "Starting", "Started", "Finished", "Aborted", "Cancelled", "Error" };
static void history(uint64_t seed, int len)
{
    Rng r(seed); bool attach = r.below(6) == 0, sub = attach || r.below(2), spin = !attach && r.below(3) == 0, fail = !attach && r.below(8) == 0; int n = fail ? 0 : r.below(3);
    sched::onStuck([](const char* w) { put(E("stuck").str("why", w)); });
    put(E("reset").i("n", n + 2).b("attach", attach).b("fail", fail).b("spin", spin)); // thread 1 owns, 2.. are others, n+2 is the procedure
    int pt = n + 2; Queue q; neolib::waitable_event ev; std::unique_ptr<neolib::thread> th; neolib::thread* p = nullptr; bool aborting = false;
    auto call = [&](int t, const char* op, bool w = false) { put(E("call").i("t", t).str("op", op).b("w", w)); };
    auto ret = [&](int t, const char* op, std::string res) { put(E("ret").i("t", t).str("op", op).str("res", res)); };
    auto guard = [&](int t, const char* op, auto&& f, bool w = false)
    {
        call(t, op, w);
        try { ret(t, op, f()); }
        catch (neolib::thread::thread_not_started&) { ret(t, op, "not_started"); } catch (neolib::thread::thread_already_started&) { ret(t, op, "already"); }
        catch (neolib::thread::cannot_wait_on_self&) { ret(t, op, "self"); } catch (neolib::thread::no_thread_object&) { ret(t, op, "no_object"); }
        catch (neolib::thread::not_in_thread&) { ret(t, op, "not_in"); } catch (std::system_error&) { ret(t, op, "error"); } catch (std::domain_error&) { ret(t, op, "error"); }
        catch (...) { ret(t, op, "cancel"); throw; }
    };
    auto yes = [](bool b) { return std::string(b ? "true" : "false"); };
    auto query = [&](int t, int k)
    {
        switch (k)
        {
        case 0: guard(t, "state", [&] { return std::string(names[(int)p->state()]); }); break;
        case 1: guard(t, "started", [&] { return yes(p->started()); }); break;
        case 2: guard(t, "running", [&] { return yes(p->running()); }); break;
        case 3: guard(t, "finished", [&] { return yes(p->finished()); }); break;
        case 4: guard(t, "aborted", [&] { return yes(p->aborted()); }); break;
        case 5: guard(t, "cancelled", [&] { return yes(p->cancelled()); }); break;
        case 6: guard(t, "error?", [&] { return yes(p->error()); }); break;
        default: guard(t, "in", [&] { return yes(p->in()); }); break;
        }
    };
    uint64_t ps = r.next();
    auto proc = [&]()
    {
        struct G { int pt; G(int t) : pt(t) { put(E("begin").i("t", t)); } ~G() { put(E("end").i("t", pt)); } } g{ pt };
        Rng x(ps); int depth = 0;
        for (int i = 0; spin || i < len / 2; ++i)
        {
            int op = x.below(spin ? 60 : 20);
            if (op < 4) query(pt, x.below(8));
            else if (op == 4) { guard(pt, "block", [&] { p->block(); return std::string("ok"); }); ++depth; }
            else if (op == 5 && depth) { guard(pt, "unblock", [&] { p->unblock(); return std::string("ok"); }); --depth; }
            else if (op == 6) guard(pt, "wait", [&] { p->wait(); return std::string("ok"); });
            else if (op == 7 && !spin && x.below(3) == 0) guard(pt, "cancel", [&] { p->cancel(); return std::string("ok"); });
            else if (op == 8 && !spin && x.below(3) == 0) guard(pt, "abort", [&] { p->abort(x.below(2)); return std::string("ok"); });
            else if (op == 9 && attach && x.below(2)) { put(E("throw").i("t", pt)); throw std::domain_error("x"); }
            else if (op == 10 && !spin) guard(pt, "start", [&] { p->start(); return std::string("ok"); });
            else if (spin && op > 30) { if (p->aborted()) { guard(pt, "block", [&] { p->block(); return std::string("ok"); }); } std::this_thread::yield(); }
            else std::this_thread::yield();
        }
    };
    if (sub) th = std::make_unique<Sub>(proc, attach); else th = std::make_unique<neolib::thread>(std::function<void()>(proc), "t");
    p = th.get(); if (fail) sched::failCreate = n + 1;
    auto body = [&](int t, uint64_t s)
    {
        Rng g(s);
        for (int i = 0; i < len; ++i)
        {
            int op = g.below(40); neolib::waitable_event_list l{ ev };
            if (op < 16) query(t, g.below(8));
            else if (op < 22 && (!attach || t == 1)) guard(t, "start", [&] { p->start(); return std::string("ok"); });
            else if (attach) std::this_thread::yield();
            else if (op < 24) { bool w = g.below(2); guard(t, "abort", [&] { p->abort(w); return std::string("ok"); }, w); }
            else if (op == 24) guard(t, "cancel", [&] { p->cancel(); return std::string("ok"); });
            else if (op < 29 && !spin) guard(t, "wait", [&] { p->wait(); return std::string("ok"); });
            else if (op < 31) { call(t, "signal"); ev.signal_one(); ret(t, "signal", "ok"); }
            else if (op == 31) guard(t, "block", [&] { p->block(); return std::string("ok"); });
            else if (op == 32) { sched::NP np; q.q = true; put(E("post").i("t", t)); }
            else if (op < 36 && !spin && !fail) guard(t, "waitlist", [&] { auto x = p->wait(l); return std::string(std::get_if<neolib::wait_result_event>(&x) ? "event" : std::get_if<neolib::wait_result_waitable>(&x) ? "waitable" : "message"); });
            else if (op == 36 && !spin && !fail) guard(t, "msgwait", [&] { return std::string(p->msg_wait(q) ? "waitable" : "message"); });
            else if (op == 37 && !spin && !fail) guard(t, "msglist", [&] { auto x = p->msg_wait(q, l); return std::string(std::get_if<neolib::wait_result_event>(&x) ? "event" : std::get_if<neolib::wait_result_waitable>(&x) ? "waitable" : "message"); });
            else if (op == 38) std::this_thread::sleep_for(std::chrono::microseconds(g.range(1, 30)));
            else std::this_thread::yield();
        }
    };
    {
        std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back(body, i + 2, r.next());
        body(1, r.next()); for (auto& t : ts) t.join();
    }
    call(1, "destroy"); th.reset(); p = nullptr; ret(1, "destroy", "ok");
    std::this_thread::sleep_for(std::chrono::microseconds(50));
    put(E("done"));
}
int main(int argc, char** argv)
{
    if (argc < 6) return 3; int len = std::atoi(argv[5]);
    return sched::histories(argv[2], std::strtoull(argv[3], 0, 10), std::atoi(argv[4]), [&](uint64_t s) { history(s, len); });
}
