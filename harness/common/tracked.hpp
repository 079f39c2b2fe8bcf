// Element type whose constructions, destructions and uses are accounted for by address: observing Tracked::live and
// Tracked::bad after each operation shows whether the container under test keeps exactly the live elements it reports.
#pragma once
#include <unordered_set>
#include <compare>
#include <utility>
namespace vt
{
    struct Tracked
    {
        int v;
        static std::unordered_set<void const*>& at() { static std::unordered_set<void const*> s; return s; }
        static inline long long bad = 0;      // constructed over a live object, destroyed or used when not alive
        static long long live() { return (long long)at().size(); }
        void born() { if (!at().insert(this).second) ++bad; }
        void use() const { if (!at().count(this)) ++bad; }
        Tracked() : v(0) { born(); }
        Tracked(int x) : v(x) { born(); }
        Tracked(Tracked const& o) : v(o.v) { o.use(); born(); }
        Tracked(Tracked&& o) : v(o.v) { o.use(); born(); o.v = -1; }
        Tracked& operator=(Tracked const& o) { use(); o.use(); v = o.v; return *this; }
        Tracked& operator=(Tracked&& o) { use(); o.use(); int t = o.v; o.v = -1; v = t; return *this; }
        ~Tracked() { if (!at().erase(this)) ++bad; v = -2; }
        operator int() const { use(); return v; }
        explicit operator long long() const { use(); return v; }
        bool operator==(Tracked const& o) const { return v == o.v; }
        auto operator<=>(Tracked const& o) const { return v <=> o.v; }
    };
}
namespace vt
{
    // Element type owning a registered resource: a moved-from shell owns nothing. Observing Owner::live (resources
    // currently owned) after each operation shows whether any element's resource was lost, duplicated or released twice.
    template <bool Movable> struct OwnerT; using Owner = OwnerT<true>; using CopyOwner = OwnerT<false>; // CopyOwner: "move" copies
    template <bool Movable> struct OwnerT
    {
        int id; // 0: owns nothing
        int v;
        static std::unordered_set<int>& tokens() { static std::unordered_set<int> s; return s; }
        static inline int next = 1;
        static inline long long bad = 0;
        static long long live() { return (long long)tokens().size(); }
        static int acquire() { int t = next++; tokens().insert(t); return t; }
        static void release(int t) { if (t && !tokens().erase(t)) ++bad; }
        OwnerT() : id(acquire()), v(0) {}
        OwnerT(int x) : id(acquire()), v(x) {}
        OwnerT(OwnerT const& o) : id(acquire()), v(o.v) { if (!tokens().count(o.id)) ++bad; }
        OwnerT(OwnerT&& o) noexcept : id(Movable ? o.id : acquire()), v(o.v) { if (!tokens().count(Movable ? id : o.id)) ++bad; if (Movable) { o.id = 0; o.v = -1; } }
        OwnerT& operator=(OwnerT const& o) { if (this != &o) { if (!tokens().count(o.id)) ++bad; release(id); id = acquire(); v = o.v; } return *this; }
        OwnerT& operator=(OwnerT&& o) noexcept { if (!Movable) return *this = static_cast<OwnerT const&>(o); if (this != &o) { release(id); id = o.id; v = o.v; o.id = 0; o.v = -1; } return *this; }
        ~OwnerT() { release(id); id = 0; v = -2; }
        operator int() const { return v; }
        bool operator==(OwnerT const& o) const { return v == o.v; }
        auto operator<=>(OwnerT const& o) const { return v <=> o.v; }
    };
}
