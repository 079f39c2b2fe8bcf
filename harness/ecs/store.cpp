// Drives one component store (and a shared one) with random histories and records what it holds after each.
// store OUT SEED HISTORIES LENGTH
#include "world.hpp"
using vt::E;
static vt::Rng* R;
template <typename D> struct val { using type = D; };
template <typename D> struct val<std::optional<D>> { using type = std::optional<D>; };

template <typename S> std::string listed(S& s, int& bad)
{
    std::vector<std::vector<long>> r;
    if (s.entities().size() != s.component_data().size()) ++bad;
    for (size_t i = 0; i < s.component_data().size(); ++i)
    {
        auto& d = s.component_data()[i];
        if (&s[i] != &d || s.entity(d) != s.entities()[i]) ++bad;
        r.push_back({ (long)s.entities()[i], num(d) });
    }
    return cells(r);
}

template <typename D> struct Run
{
    using store_t = ne::component<D>; using value_t = typename val<D>::type;
    ne::i_ecs& ecs; store_t* s; std::vector<typename store_t::scoped_snapshot*> held; int top; int kind; int nextHandle = 1;
    std::vector<int> big;
    Run(ne::i_ecs& e, int k) : ecs{ e }, s{ new store_t{ e } }, kind{ k } {}
    ~Run() { for (auto h : held) delete h; delete s; }
    void end(E& ev, bool full = true)
    {
        int bad = 0; ev.raw("s", listed(*s, bad));
        std::vector<std::vector<long>> probes;
        auto const& cs = *s;
        for (int e = 1; e <= top + 2; ++e)
        {
            bool has = s->has_entity_record(e); if (has != s->has_entity_record_no_lock(e)) ++bad;
            long v = -7; try { v = num(cs.entity_record(e)); if (num(s->entity_record_no_lock(e)) != v || &cs.entity_record(e) != &s->entity_record(e)) ++bad; } catch (typename store_t::entity_record_not_found&) {}
            auto at = s->reverse_index(e); if (has != (at < s->component_data().size())) ++bad; else if (has && s->entities()[at] != (ne::entity_id)e) ++bad;
            probes.push_back({ e, has, v });
        }
        ev.raw("probes", cells(probes));
        if (s->have_snapshot()) { auto h = s->snapshot(); ev.raw("snap", listed(h.data(), bad)); }
        ev.seq("freed", freed()); freed().clear();
        ev.i("bad", bad); ev.end();
    }
    int value() { return kind == 2 ? nextHandle++ : kind == 3 && R->chance(1, 4) ? -1 : R->below(top > 10 ? 3 : 6); }
    void put(int e, int v)
    {
        if (kind == 2 && s->has_entity_record(e)) return;
        int how = R->below(4); long res;
        if (how == 0) { value_t d = make<value_t>(v); res = num(s->populate(e, d)); }
        else if (how == 1) res = num(s->populate(e, make<value_t>(v)));
        else if (how == 2)
        {
            auto d = make<typename store_t::data_type>(v < 0 ? 0 : v);
            res = num(*static_cast<value_t const*>(static_cast<ne::i_component&>(*s).populate(e, v < 0 ? nullptr : &d, sizeof d)));
        }
        else { static_cast<value_t&>(s->entity_record(e, true)) = make<value_t>(v); res = v; }
        E ev("put"); ev.i("en", e).i("v", v).i("res", res); end(ev);
    }
    void step()
    {
        int e = R->chance(1, 12) ? top + 2 : R->range(1, top);
        switch (R->below(17))
        {
        case 0: case 1: case 2: case 3: put(e, value()); break;
        case 4: { if (kind == 2) break; auto& r = s->entity_record(e, true); E ev("make"); ev.i("en", e).i("res", num(r)); end(ev); break; }
        case 5: case 6: case 7: case 8:
        {
            bool ok = true; try { s->destroy_entity_record(e); } catch (typename store_t::entity_record_not_found&) { ok = false; }
            E ev("del"); ev.i("en", e).b("ok", ok).b("h", kind == 2); end(ev); break;
        }
        case 9: case 10:
        {
            bool down = R->chance(1, 2);
            s->sort([&](auto const& a, auto const& b) { return down ? num(b) < num(a) : num(a) < num(b); });
            E ev("sort"); ev.b("down", down); end(ev); break;
        }
        case 11: case 12: { s->take_snapshot(); E ev("take"); end(ev); break; }
        case 13: { if (!s->have_snapshot() || held.size() > 1) break; held.push_back(held.size() && R->chance(1, 2) ? new typename store_t::scoped_snapshot{ *held.back() } : new typename store_t::scoped_snapshot{ s->snapshot() }); E ev("hold"); end(ev); break; }
        case 14: { if (held.empty()) break; delete held.back(); held.pop_back(); E ev("drop"); end(ev); break; }
        case 15:
        {
            if (kind == 2) break;
            bool par = R->chance(1, 3); std::atomic<int> n = 0;
            auto bump = [&](store_t&, value_t& d) { ++n; long v = num(d); if (v >= 0) d = make<value_t>((v + 1) % 50); };
            if (par) s->parallel_apply(bump); else s->apply(bump);
            E ev("bump"); ev.i("n", n); end(ev); break;
        }
        case 16:
        {
            auto d = make<typename store_t::data_type>(0); int how = R->below(3); bool threw = false;
            if (how == 2 && kind == 3) how = 0;
            try { static_cast<ne::i_component&>(*s).populate(e, how == 2 ? nullptr : &d, sizeof d + (how == 0 ? 1 : how == 1 ? -1 : 0)); } catch (typename store_t::invalid_data&) { threw = true; }
            if (R->chance(1, 2)) { store_t c{ *s }; E ev("bad"); int bad = 0; ev.b("threw", threw).raw("copy", listed(c, bad)); end(ev); }
            else { store_t c{ ecs }; c = *s; E ev("bad"); int bad = 0; ev.b("threw", threw).raw("copy", listed(c, bad)); end(ev); }
            break;
        }
        }
    }
    void history(int len)
    {
        bool wide = R->chance(1, 5); top = wide ? R->range(20, 60) : R->range(1, 7);
        freed().clear();
        E ev("reset"); end(ev);
        if (wide)
        {
            int few = R->range(1, 3);
            for (int e = 1; e <= top; ++e) if (R->chance(9, 10)) { int v = kind == 2 ? nextHandle++ : R->chance(1, 6) ? R->below(40) : few; s->populate(e, make<value_t>(v)); if (kind == 2) { E b("put"); b.i("en", e).i("v", v).i("res", v); end(b); } else big.push_back(e), big.push_back(v); }
            if (kind != 2) { E b("fill"); b.seq("all", big); end(b); }
            len /= 5;
        }
        for (int i = 0; i < len; ++i) step();
    }
};
template <typename D> void one(ne::i_ecs& e, int kind, int len) { Run<D> r{ e, kind }; r.history(len); }

void shared(ne::i_ecs& ecs, int len)
{
    ne::shared_component<named> s{ ecs }; std::map<void const*, int> ids; 
    auto id = [&](void const* p) { return ids.emplace(p, (int)ids.size() + 1).first->second; };
    auto end = [&](E& ev)
    {
        std::vector<std::vector<long>> r; int bad = 0; size_t i = 0;
        for (auto& x : s.component_data()) { if (&s[i] != &x.second) ++bad; ++i; r.push_back({ std::stol(x.first), x.second.v, id(&x.second) }); }
        ev.raw("s", cells(r)).i("bad", bad); ev.end();
    };
    { E ev("sreset"); end(ev); }
    for (int i = 0; i < len; ++i)
    {
        int n = R->range(1, 6), v = R->below(9); std::string name = std::to_string(n);
        switch (R->below(5))
        {
        case 0: { named d; d.v = v; auto r = s.populate(name, d); E ev("sput"); ev.i("n", n).i("v", v).i("res", id(r.ptr())).i("upd", r->updates); end(ev); break; }
        case 1: { named d; d.v = v; auto r = s.populate(name, std::move(d)); E ev("sput"); ev.i("n", n).i("v", v).i("res", id(r.ptr())).i("upd", r->updates); end(ev); break; }
        case 2: { named d; d.v = v; auto r = static_cast<named const*>(static_cast<ne::i_shared_component&>(s).populate(name, &d, sizeof d)); E ev("sput"); ev.i("n", n).i("v", v).i("res", id(r)).i("upd", r->updates); end(ev); break; }
        case 3: { auto& r = s[name]; if (R->chance(1, 2)) { r.v = v; E ev("sput"); ev.i("n", n).i("v", v).i("res", id(&r)).i("upd", 1); end(ev); } else { E ev("sget"); ev.i("n", n).i("v", r.v).i("res", id(&r)); end(ev); } break; }
        case 4: { named d; bool threw = false; try { static_cast<ne::i_shared_component&>(s).populate(name, R->chance(1, 2) ? nullptr : &d, sizeof d + 1); } catch (ne::shared_component<named>::invalid_data&) { threw = true; } E ev("sbad"); ev.b("threw", threw); end(ev); break; }
        }
    }
}

int main(int, char** a)
{
    vt::Out::get().open(a[1]); vt::Rng r{ (uint64_t)std::atoi(a[2]) }; R = &r; E::Out_unbuffered() = true;
    host h; ne::ecs ecs{ ne::ecs_flags::NoThreads };
    for (int i = 0; i < std::atoi(a[3]); ++i)
    {
        int len = std::atoi(a[4]);
        switch (i % 5) { case 0: one<plain>(ecs, 0, len); break; case 1: one<heavy>(ecs, 1, len); break; case 2: one<handled>(ecs, 2, len); break; case 3: one<std::optional<maybe>>(ecs, 3, len); break; case 4: shared(ecs, len / 2); break; }
    }
    vt::Out::get().flush(); return 0;
}
