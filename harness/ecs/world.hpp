// What the entity component system drivers share: component types, archetypes and the service set-up.
#pragma once
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/task/event.hpp>
#include <neolib/app/i_power.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/entity_life_span.hpp>
#include <neolib/ecs/time.hpp>
#include "trace.hpp"
namespace ne = neolib::ecs;
inline std::vector<long>& freed() { static std::vector<long> f; return f; }
inline std::function<void(long, ne::i_ecs&)>& on_free() { static std::function<void(long, ne::i_ecs&)> f; return f; }

template <int N> struct meta_base : ne::i_component_data::meta
{
    static neolib::uuid const& id() { static neolib::uuid const i = { 0x11110000u + N, 0x1111, 0x2222, 0x3333, { 1, 2, 3, 4, 5, N } }; return i; }
    static neolib::i_string const& name() { static neolib::string const n = "component"; return n; }
    static uint32_t field_count() { return 1; }
    static ne::component_data_field_type field_type(uint32_t) { return ne::component_data_field_type::Int32; }
    static neolib::i_string const& field_name(uint32_t) { static neolib::string const n = "v"; return n; }
};
struct plain // a plain number
{
    int v = 0;
    struct meta : meta_base<1> {};
};
struct heavy // data which owns memory: mixing two records up corrupts it or leaks
{
    std::string s; int k = 0;
    heavy() : s{ "empty, but long enough to be on the heap 0" } {}
    explicit heavy(int v) : s{ "a text which is long enough to be on the heap " + std::to_string(v) }, k{ v } {}
    struct meta : meta_base<2> {};
};
struct handled // data which holds handles to be freed with it
{
    int v = 0;
    struct meta : meta_base<3>
    {
        static constexpr bool has_handles = true;
        static void free_handles(handled& d, ne::i_ecs& e) { freed().push_back(d.v); if (on_free()) on_free()(d.v, e); }
    };
};
struct maybe { int v = 0; struct meta : meta_base<4> {}; };
struct named { int v = 0; int updates = 0; struct meta : meta_base<5> { static constexpr bool has_updater = true; static void update(named& d, ne::i_ecs&, ne::entity_id) { ++d.updates; } }; };
struct rare { int v = 0; struct meta : meta_base<6> {}; };
inline long num(plain const& p) { return p.v; }
inline long num(heavy const& p) { return p.s == (heavy{ p.k }).s || (p.k == 0 && p.s == heavy{}.s) ? p.k : -99; }
inline long num(handled const& p) { return p.v; }
inline long num(rare const& p) { return p.v; }
inline long num(std::optional<maybe> const& p) { return p ? p->v : -1; }
template <typename T> T make(int v) { T t{}; t.v = v; return t; }
template <> inline heavy make<heavy>(int v) { return heavy{ v }; }
template <> inline std::optional<maybe> make<std::optional<maybe>>(int v) { if (v < 0) return std::nullopt; maybe m; m.v = v; return m; }
inline std::string cells(std::vector<std::vector<long>> const& r)
{
    std::string s = "[";
    for (auto const& x : r) { if (s.size() > 1) s += ','; s += '['; for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]); s += ']'; }
    return s + "]";
}
struct done_t : neolib::async_task { done_t() : neolib::async_task{ "host" } {} };
namespace neolib { template<> i_async_task& services::start_service<i_async_task>() { static auto* t = new done_t; return *t; } }
struct host { host() { neolib::services::allocate_service_provider(); } }; // the services an entity component system asks for
