// lifetime<>, object<>, async_task and lifetime flags under random histories, announcements repeated from inside notifications included.
#include <neolib/core/lifetime.hpp>
#include <neolib/task/event.hpp>
#include <neolib/app/object.hpp>
#include <neolib/task/async_task.hpp>
#include <array>
#include <memory>
#include "trace.hpp"
using namespace vt; using namespace neolib;
static constexpr int MaxO = 24;
struct Plain : lifetime<> { Plain(lifetime_state s) : lifetime<>{ s } {} };
struct Obj : object<> { Obj(lifetime_state s) : object<>{ s } {} };
struct Task : async_task { Task() : async_task{ "t" } {} };
struct Driver
{
    struct Item { std::unique_ptr<Plain> p; std::unique_ptr<Obj> o; async_task* t = nullptr; int k = -1; int dep = 0; bool dying = false; sink s;
        i_lifetime* lt() { return p ? (i_lifetime*)p.get() : o ? (i_lifetime*)o.get() : t ? dynamic_cast<i_lifetime*>(t) : nullptr; } };
    std::array<std::unique_ptr<Item>, MaxO + 1> it; int made = 0;
    std::array<std::unique_ptr<destroying_flag>, 7> fi; std::array<std::unique_ptr<destroyed_flag>, 7> fd;
    Rng r{ 1 }; int depth = 0;
    i_lifetime* raw[MaxO + 1] = {};
    int stage(int o) { return raw[o] ? (int)raw[o]->object_state() : 3; }
    int pickObj() { int c[MaxO + 1], n = 0; for (int o = 1; o <= made; ++o) if (raw[o]) c[n++] = o; return n ? c[r.below(n)] : 0; }
    void end(E& e)
    {
        std::string s = "[";
        for (int o = 1; o <= made; ++o) if (raw[o]) { auto x = raw[o]; s += (s.size() > 1 ? ",[" : "[") + std::to_string(o) + "," + std::to_string((int)x->object_state()) + "," + std::to_string(x->is_creating()) + "," + std::to_string(x->is_alive()) + "," + std::to_string(x->is_destroying()) + "," + std::to_string(x->is_destroyed()) + "]"; }
        e.raw("objs", s + "]"); s = "[";
        for (int i = 1; i <= 6; ++i) { i_lifetime_flag const* f = i <= 3 ? (i_lifetime_flag const*)fi[i].get() : fd[i].get(); if (f) s += (s.size() > 1 ? ",[" : "[") + std::to_string(i) + "," + std::to_string(f->is_creating()) + "," + std::to_string(f->is_alive()) + "," + std::to_string(f->is_destroying()) + "," + std::to_string(f->is_destroyed()) + "," + std::to_string((bool)*f) + "," + (i <= 3 ? "2" : "3") + "]"; }
        e.raw("fl", s + "]").end();
    }
    void note(int o, char const* w) { E e(w); e.i("o", o).i("s", stage(o)); end(e); if (depth < 3) for (int n = r.below(3); n > 0; --n) step(); }
    template <typename X> void listen(int o, X& x) { it[o]->s += x.destroying([this, o] { note(o, "noteing"); }); it[o]->s += x.destroyed([this, o] { note(o, "noteed"); }); }
    void announce(int o, int w)
    {
        static char const* names[] = { "ing", "ed", "del" };
        auto& i = *it[o]; if (i.dying || (w == 2 && i.dep)) return;
        E("begin").i("o", o).str("w", names[w]).end(); ++i.dep; ++depth; bool threw = false;
        try {
            if (w == 0) raw[o]->set_destroying(); else if (w == 1) raw[o]->set_destroyed();
            else { i.dying = true; if (i.p) i.p.reset(); else if (i.o) i.o.reset(); else { delete i.t; i.t = nullptr; } raw[o] = nullptr; }
        } catch (i_lifetime::already_destroyed const&) { threw = true; }
        --i.dep; --depth;
        if (threw) { E("refused").i("o", o).str("w", names[w]).end(); return; }
        E e("end"); e.i("o", o).str("w", names[w]).i("s", stage(o)); end(e);
    }
    void make(int k, lifetime_state s, int from = 0)
    {
        if (made == MaxO) return; int o = made + 1; it[o] = std::make_unique<Item>(); auto& i = *it[o];
        if (from) { auto& f = *it[from]; if (f.p) i.p = std::make_unique<Plain>(*f.p); else i.o = std::make_unique<Obj>(*f.o); i.k = f.k; }
        else if (k == 0) { i.p = std::make_unique<Plain>(s); i.k = 0; }
        else if (k == 1) { i.o = std::make_unique<Obj>(s); i.k = 1; }
        else { i.t = new Task; i.k = 1; }
        made = o; raw[o] = i.lt();
        if (i.o) listen(o, *i.o); if (i.t) listen(o, *i.t);
        E e(from ? "copy" : "new"); e.i("o", o).i("k", i.k).i("s", from ? stage(o) : k == 2 ? 1 : (int)s).i("f", from); end(e);
    }
    void step()
    {
        int o = pickObj(); int op = r.below(100);
        if (!o || op < 10) { int k = r.below(8); make(k < 3 ? 0 : k < 7 ? 1 : 2, r.chance(1, 2) ? lifetime_state::Creating : lifetime_state::Alive); return; }
        if (op < 16) { if (it[o]->dep || it[o]->t || stage(o) > 1) return; make(0, {}, o); return; }
        if (op < 19) { int f = pickObj(); if (it[o]->p && it[f]->p) *it[o]->p = *it[f]->p; else if (it[o]->o && it[f]->o && !it[o]->dep && o == f) *it[o]->o = *it[f]->o; else return; if (it[o]->o) { it[o]->s.clear(); listen(o, *it[o]->o); } E e("assign"); e.i("o", o); end(e); return; }
        if (op < 27) { if (it[o]->dying) return; bool threw = false; try { raw[o]->set_alive(); } catch (i_lifetime::not_creating const&) { threw = true; } E e("alive"); e.i("o", o).b("threw", threw); end(e); return; }
        if (op < 60) { announce(o, op < 40 ? 0 : op < 50 ? 1 : 2); return; }
        int i = r.range(1, 6), f = i <= 3 ? r.range(1, 3) : r.range(4, 6);
        if (op < 80) { if (it[o]->dying) return; if (i <= 3) fi[i] = std::make_unique<destroying_flag>(*raw[o]); else fd[i] = std::make_unique<destroyed_flag>(*raw[o]); E e("flag"); e.i("i", i).i("o", o); end(e); return; }
        if (op < 92) { if (i <= 3) { if (!fi[f]) return; if (fi[i] && r.chance(1, 2)) *fi[i] = *fi[f]; else if (i != f) fi[i] = std::make_unique<destroying_flag>(*fi[f]); else return; }
            else { if (!fd[f]) return; if (fd[i] && r.chance(1, 2)) *fd[i] = *fd[f]; else if (i != f) fd[i] = std::make_unique<destroyed_flag>(*fd[f]); else return; }
            E e("fcopy"); e.i("i", i).i("f", f); end(e); return; }
        if (i <= 3) { if (!fi[i]) return; fi[i].reset(); } else { if (!fd[i]) return; fd[i].reset(); }
        E e("fdrop"); e.i("i", i); end(e);
    }
};
int main(int argc, char** argv)
{
    services::allocate_service_provider();
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    for (int h = 0; h < hist; ++h)
    {
        Driver d; d.r = Rng(seed * 100003 + h); E e("reset"); d.end(e);
        for (int i = 0; i < len && d.made < MaxO - 4; ++i) d.step();
        for (int o = 1; o <= d.made; ++o) if (d.raw[o]) d.announce(o, 2);
        E f("assign"); f.i("o", 0); d.end(f); Out::get().flush();
    }
    return 0;
}
