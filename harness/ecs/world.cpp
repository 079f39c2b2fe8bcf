// Drives whole entity component systems with random histories: entities, deferred creation and destruction, entity objects,
// handles, systems, archetypes, registrations and life spans; records everything which can be observed after each step.
// world OUT SEED HISTORIES LENGTH
#include "world.hpp"
using vt::E;
static vt::Rng* R;
static const int archetypes = 4;
neolib::uuid arch_id(int i) { return neolib::uuid{ 0x22220000u + i, 1, 2, 3, { 1, 2, 3, 4, 5, 6 } }; }
struct archetype : ne::entity_archetype // number i gives entities a heavy record 100 + i by default if i is odd
{
    int i;
    archetype(int i) : entity_archetype{ arch_id(i), "archetype", { plain::meta::id() } }, i{ i } {}
    void populate_default_components(ne::i_ecs& e, ne::entity_id id) override
    {
        if (i % 2 && !e.component<heavy>().has_entity_record(id)) e.populate(id, make<heavy>(100 + i));
    }
};
template <int N> struct sys : ne::system<plain, heavy>
{
    int applied = 0;
    using base = ne::system<plain, heavy>;
    static ne::component_id const* ids() { static ne::component_id const i[] = { plain::meta::id(), heavy::meta::id() }; return i; }
    explicit sys(ne::i_ecs& e) requires (N != 2) : base{ e } {}
    explicit sys(ne::i_ecs& e) requires (N == 2) : base{ e, ids(), ids() + 2 } {}
    ne::system_id const& id() const override { return meta::id(); }
    neolib::i_string const& name() const override { return meta::name(); }
    bool apply() override { if (paused()) return false; ++applied; return true; }
    struct meta
    {
        static neolib::uuid const& id() { static neolib::uuid const i = { 0x33330000u + N, 1, 2, 3, { 1, 2, 3, 4, 5, 6 } }; return i; }
        static neolib::i_string const& name() { static neolib::string const n = "system"; return n; }
    };
};
struct World
{
    bool info, paused; ne::i_ecs* e; std::vector<archetype*> arch; std::vector<ne::entity*> objs;
    std::vector<long> created, destroyed; int pausedEv = 0, resumedEv = 0; neolib::sink sink; std::set<long> live; std::map<long, bool> doomed; int pending = 0;
    std::vector<long> hlive; int lastPtr = 0; long now = 0;
    World()
    {
        neolib::service<ne::i_ecs_params>().set_locking_strategy(R->chance(1, 3) ? ne::ecs_locking_strategy::MultiThreaded : R->chance(1, 3) ? ne::ecs_locking_strategy::SingleThreaded : R->chance(1, 2) ? ne::ecs_locking_strategy::MultiThreadedProfiled : ne::ecs_locking_strategy::MultiThreadedSpinlock);
        info = R->chance(4, 5); paused = R->chance(1, 4);
        on_free() = [this](long v, ne::i_ecs& w) { w.release_handle<void*>(v); hlive.erase(std::remove(hlive.begin(), hlive.end(), v), hlive.end()); };
        e = new ne::ecs{ (info ? ne::ecs_flags::PopulateEntityInfo : ne::ecs_flags::None) | (paused ? ne::ecs_flags::CreatePaused : ne::ecs_flags::None) | ne::ecs_flags::NoThreads };
        for (int i = 0; i < archetypes; ++i) arch.push_back(new archetype{ i });
        objs.assign(2, nullptr);
        sink += e->entity_created([this](ne::entity_id i) { created.push_back(i); live.insert(i); });
        sink += e->entity_destroyed([this](ne::entity_id i) { destroyed.push_back(i); });
        sink += e->systems_paused([this]() { ++pausedEv; }); sink += e->systems_resumed([this]() { ++resumedEv; });
    }
    ~World() { for (auto o : objs) delete o; delete e; for (auto a : arch) delete a; on_free() = nullptr; freed().clear(); }
    ne::component<plain>& P() { return e->component<plain>(); }
    template <typename C> std::string list(C& c, int& bad)
    {
        std::vector<std::vector<long>> r; if (c.entities().size() != c.component_data().size()) ++bad;
        for (size_t i = 0; i < c.component_data().size(); ++i) r.push_back({ (long)c.entities()[i], num(c.component_data()[i]) });
        return cells(r);
    }
    int stuck() // how many mutexes of the system another thread cannot get at
    {
        int n = 0; std::vector<neolib::i_lockable*> all{ &e->mutex(), &e->entity_mutex(), &e->archetype_mutex(), &e->component_factory_mutex(), &e->component_mutex(), &e->shared_component_mutex(), &e->system_mutex() };
        for (auto& c : e->components()) all.push_back(&c.second->mutex());
        std::thread t{ [&]() { for (auto m : all) if (m->try_lock()) m->unlock(); else ++n; } }; t.join(); return n;
    }
    void end(E& ev)
    {
        int bad = 0; ev.i("stuck", stuck());
        ev.raw("p", list(P(), bad)).raw("h", list(e->component<heavy>(), bad)).raw("d", list(e->component<handled>(), bad));
        ev.raw("r", e->component_instantiated<rare>() ? list(e->component<rare>(), bad) : "[]");
        if (info)
        {
            auto& c = e->component<ne::entity_info>(); std::vector<std::vector<long>> r;
            for (size_t i = 0; i < c.component_data().size(); ++i)
            {
                long a = -1; for (int k = 0; k < archetypes; ++k) if (c.component_data()[i].archetypeId == arch_id(k)) a = k;
                r.push_back({ (long)c.entities()[i], a, (long)c.component_data()[i].destroyed.load(), (long)c.component_data()[i].creationTime });
            }
            ev.raw("info", cells(r));
            if (e->component_instantiated<ne::entity_life_span>()) { auto& l = e->component<ne::entity_life_span>(); std::vector<std::vector<long>> q; for (size_t i = 0; i < l.component_data().size(); ++i) q.push_back({ (long)l.entities()[i], (long)l.component_data()[i].lifeSpan }); ev.raw("life", cells(q)); }
            else ev.raw("life", "[]");
        }
        ev.seq("created", created).seq("destroyed", destroyed); created.clear(); destroyed.clear();
        std::vector<std::vector<long>> hv; for (long h : hlive) hv.push_back({ h, (long)(intptr_t)e->to_handle(h) });
        ev.raw("handles", cells(hv)).i("bad", bad);
        std::vector<long> sp; sp.push_back(st<1>()); sp.push_back(st<2>()); sp.push_back(st<3>()); ev.seq("sys", sp).b("allpaused", e->all_systems_paused());
        std::vector<long> ar; for (int i = 0; i < archetypes; ++i) { bool reg = e->archetype_registered(*arch[i]); bool ok = false; try { ok = &e->archetype(arch_id(i)) == arch[i]; } catch (ne::i_ecs::entity_archetype_not_found&) { if (!reg) ok = true; } if (!ok) ++bad; ar.push_back(reg); }
        ev.seq("arch", ar); std::vector<long> oi; for (auto o : objs) oi.push_back(o ? (long)o->id() + (o->detached_or_destroyed() == (o->id() == 0) ? 0 : 1000) : -1); ev.seq("objs", oi);
        ev.i("pe", pausedEv).i("re", resumedEv); pausedEv = resumedEv = 0; ev.seq("freed", freed()); freed().clear(); 
        ev.end();
    }
    template <int N> long st() { return !e->system_instantiated<sys<N>>() ? -1 : e->system<sys<N>>().paused() ? 1 : 0; }
    long some() { if (live.empty()) return 0; auto i = live.begin(); std::advance(i, R->below(live.size())); return *i; }
    bool owned(long i) { for (auto o : objs) if (o && (long)o->id() == i) return true; return false; }
    void step()
    {
        int a = R->below(archetypes), v = R->below(9);
        switch (R->below(26))
        {
        case 0: case 1: // with data: registers the archetype and adds its default components
        {
            int how = R->below(4); long id = how == 0 ? e->create_entity(*arch[a], make<plain>(v)) : how == 1 ? e->create_entity(*arch[a], make<plain>(v), make<heavy>(v + 10))
                : how == 2 ? e->create_entity(*arch[a], make<heavy>(v)) : (long)e->create_entity(*arch[a]);
            E ev("create"); ev.i("id", id).i("a", a).i("v", v).i("how", how); end(ev); break;
        }
        case 2: // by the archetype's id alone
        { long id = e->create_entity(arch_id(a)); E ev("create"); ev.i("id", id).i("a", a).i("v", 0).i("how", 4); end(ev); break; }
        case 3: case 4: case 5:
        {
            long i = some(); if (!i) break; bool notify = owned(i) || R->chance(3, 4);
            e->destroy_entity(i, notify); live.erase(i); doomed.erase(i); E ev("destroy"); ev.i("id", i).b("notify", notify); end(ev); break;
        }
        case 6: case 7:
        {
            if (pending == 4) break; ++pending; int how = R->below(3);
            if (how == 0) e->async_create_entity(*arch[a], make<plain>(v)); else if (how == 1) e->async_create_entity(*arch[a], make<plain>(v), make<heavy>(v + 10));
            else e->async_create_entity(std::function<void()>{ [this, a, v]() { e->create_entity(arch_id(a)); e->component<rare>(); } });
            E ev("later"); ev.i("a", a).i("v", how == 2 ? 0 : v).i("how", how == 2 ? 4 : how); end(ev); break;
        }
        case 8: case 9: { e->commit_async_entity_creation(); pending = 0; E ev("creations"); end(ev); break; }
        case 10: case 11: case 12:
        {
            long i = some(); if (!i) break; bool threw = false; bool notify = doomed.count(i) ? doomed[i] : owned(i) || R->chance(3, 4); if (info) doomed[i] = notify;
            try { e->async_destroy_entity(i, notify); } catch (std::logic_error&) { threw = true; }
            E ev("doom"); ev.i("id", i).b("notify", notify).b("threw", threw); end(ev); break;
        }
        case 13: case 14:
        {
            e->commit_async_entity_destruction(); doomed.clear();
            if (info) { std::set<long> now; for (auto i : e->component<ne::entity_info>().entities()) now.insert(i); live = now; }
            E ev("dooms"); end(ev); break;
        }
        case 15: { long i = some(); if (!i) break; int c = R->below(3); if (c == 0) e->populate(i, make<plain>(v)); else if (c == 1) e->populate(i, make<heavy>(v)); else e->populate(i, make<rare>(v)); E ev("populate"); ev.i("id", i).i("c", c).i("v", v); end(ev); break; }
        case 16:
        {
            int s = R->below(2);
            if (objs[s]) { if (info && R->chance(1, 3)) { if (objs[s]->detached_or_destroyed()) break; long i = objs[s]->detach(); E ev("detach"); ev.i("s", s + 1).i("id", i); end(ev); } else { long i = objs[s]->id(); live.erase(i); doomed.erase(i); delete objs[s]; objs[s] = nullptr; E ev("odel"); ev.i("s", s + 1).i("id", i); end(ev); } }
            else if (R->chance(1, 2)) { if (e->archetype_registered(*arch[a])) { objs[s] = new ne::entity{ *e, arch_id(a), make<plain>(v) }; E ev("onew"); ev.i("s", s + 1).i("id", objs[s]->id()).i("a", a).i("v", v); end(ev); } }
            else { long i = some(); if (!i || owned(i) || (doomed.count(i) && !doomed[i])) break; objs[s] = new ne::entity{ *e, (ne::entity_id)i }; E ev("own"); ev.i("s", s + 1).i("id", i); end(ev); }
            break;
        }
        case 17: case 18: // a handle, put into a record of an entity which has none, or kept
        {
            long i = some(); void* p = reinterpret_cast<void*>((intptr_t)++lastPtr); long h = e->add_handle<plain>(p); bool in = i && !e->component<handled>().has_entity_record(i) && R->chance(1, 2);
            if (in) { e->populate(i, make<handled>(h)); } 
            hlive.push_back(h); E ev("handle"); ev.i("id", in ? i : 0).i("hid", h).i("ptr", lastPtr); end(ev); break;
        }
        case 19:
        {
            std::set<long> in; for (auto& d : e->component<handled>().component_data()) in.insert(d.v);
            if (hlive.empty()) { bool threw = false; try { e->to_handle(1000); } catch (ne::i_ecs::invalid_handle_id&) { threw = true; } E ev("nohandle"); ev.b("threw", threw); end(ev); break; }
            long h = hlive[R->below(hlive.size())];
            if (R->chance(1, 2)) { void* p = reinterpret_cast<void*>((intptr_t)++lastPtr); long got = (long)(intptr_t)e->update_handle<plain>(h, p); E ev("hset"); ev.i("hid", h).i("ptr", lastPtr).i("got", got); end(ev); break; }
            if (in.count(h)) break;
            long got = (long)(intptr_t)e->release_handle<void*>(h); hlive.erase(std::find(hlive.begin(), hlive.end(), h));
            E ev("hfree"); ev.i("hid", h).i("got", got); end(ev); break;
        }
        case 20: { if (e->archetype_registered(*arch[a])) { bool threw = false; try { e->register_archetype(*arch[a]); } catch (ne::i_ecs::uuid_exists&) { threw = true; } E ev("again"); ev.b("threw", threw); end(ev); } else { if (R->chance(1, 2)) e->register_archetype(*arch[a]); else e->register_archetype(std::shared_ptr<ne::i_entity_archetype const>{ std::shared_ptr<void>{}, arch[a] }); E ev("archetype"); ev.i("a", a); end(ev); } break; }
        case 21:
        {
            int n = R->range(1, 3); bool was = false;
            auto go = [&](auto& s) { E ev("system"); ev.i("n", n).b("avail", s.components_available()).b("can", s.can_apply()); int b = s.applied; bool r = s.apply(); ev.b("applied", r && s.applied == b + 1); end(ev); };
            if (n == 1) go(e->system<sys<1>>()); else if (n == 2) go(e->system<sys<2>>()); else go(e->system<sys<3>>());
            break;
        }
        case 22: { if (R->chance(1, 2)) { e->pause_all_systems(); E ev("pauseall"); end(ev); } else { e->resume_all_systems(); E ev("resumeall"); end(ev); } break; }
        case 23:
        {
            int n = R->range(1, 3); auto& m = n == 1 ? depth1 : n == 2 ? depth2 : depth3;
            auto go = [&](auto& s) { if (m && R->chance(1, 2)) { s.resume(); --m; E ev("resume"); ev.i("n", n); end(ev); } else { s.pause(); ++m; E ev("pause"); ev.i("n", n); end(ev); } };
            if (n == 1 && e->system_instantiated<sys<1>>()) go(e->system<sys<1>>()); if (n == 2 && e->system_instantiated<sys<2>>()) go(e->system<sys<2>>()); if (n == 3 && e->system_instantiated<sys<3>>()) go(e->system<sys<3>>());
            break;
        }
        case 24:
        {
            bool reg = e->component_registered<plain>(); int threw = 0;
            try { e->register_component<plain>(); } catch (ne::i_ecs::uuid_exists&) { ++threw; }
            try { e->component(maybe::meta::id()); } catch (ne::i_ecs::component_not_found&) { ++threw; }
            try { e->system(arch_id(0)); } catch (ne::i_ecs::system_not_found&) { ++threw; }
            try { e->shared_component(maybe::meta::id()); } catch (ne::i_ecs::component_not_found&) { ++threw; }
            E ev("refuse"); ev.b("reg", reg).i("threw", threw); end(ev); break;
        }
        case 25:
        {
            if (!info) break;
            if (R->chance(1, 2)) { long i = some(); if (!i) break; ne::entity_life_span l; l.lifeSpan = R->below(6); e->populate(i, l); E ev("span"); ev.i("id", i).i("v", l.lifeSpan); end(ev); }
            else { now += R->below(4); auto& t = e->system<ne::time>(); e->shared_component<ne::clock>()[0].time = now; bool did = t.apply(); for (size_t k = 0; k < e->component<ne::entity_info>().entities().size(); ++k) if (e->component<ne::entity_info>()[k].destroyed) doomed.emplace(e->component<ne::entity_info>().entities()[k], true); E ev("time"); ev.i("now", now).b("did", did); end(ev); }
            break;
        }
        }
    }
    int depth1 = 0, depth2 = 0, depth3 = 0;
    void history(int len) { E ev("reset"); ev.b("pop", info).b("paused", paused); e->component<heavy>(); e->component<handled>(); end(ev); for (int i = 0; i < len; ++i) { step(); } }
};
int main(int, char** a)
{
    vt::Out::get().open(a[1]); vt::Rng r{ (uint64_t)std::atoi(a[2]) }; R = &r;
    host h;
    for (int i = 0; i < std::atoi(a[3]); ++i) { World w; w.history(std::atoi(a[4])); }
    vt::Out::get().flush(); return 0;
}
