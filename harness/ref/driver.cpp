// ref_ptr / weak_ref_ptr / reference_counted under random histories.
#include <neolib/core/reference_counted.hpp>
#include <sanitizer/asan_interface.h>
#include <array>
#include <functional>
#include <memory>
#include "trace.hpp"
namespace vt
{
    constexpr int MaxObj = 16;
    struct INode;
    using Ref = neolib::ref_ptr<INode>;
    struct INode : neolib::i_reference_counted { using abstract_type = INode; virtual int id() const = 0; virtual Ref& next() = 0; };
    struct Pool // dead objects stay mapped but poisoned, so that an address identifies an object for ever
    {
        alignas(64) static inline unsigned char mem[MaxObj + 1][192];
        static inline int made = 0, dtors = 0, bad = 0; static inline bool alive[MaxObj + 1] = {}; static inline bool node[MaxObj + 1] = {};
        static int idOf(void const* p) { if (!p) return 0; auto d = (unsigned char const*)p - &mem[0][0]; int i = (int)(d / 192); return d >= 0 && i <= MaxObj ? i : -1; }
        static void clear() { ASAN_UNPOISON_MEMORY_REGION(mem, sizeof mem); made = dtors = bad = 0; for (auto& a : alive) a = false; }
        static void born(int i) { alive[i] = true; }
        static void dies(int i) { ++dtors; if (!alive[i]) ++bad; alive[i] = false; }
    };
    template <int K> struct NodeT : neolib::reference_counted<INode>
    {
        int i; Ref n;
        explicit NodeT(int i) : i{ i } { Pool::born(i); Pool::node[i] = K == 0; }
        ~NodeT() { Pool::dies(i); }
        int id() const final { return i; }
        Ref& next() final { return n; }
        static void* operator new(size_t s) { if (s > 192) std::exit(3); return Pool::mem[Pool::made]; }
        static void operator delete(void* p) { ASAN_POISON_MEMORY_REGION(p, 192); }
    };
    using Node = NodeT<0>; using Other = NodeT<1>;
    using RefN = neolib::ref_ptr<Node>;
    using Weak = neolib::weak_ref_ptr<INode>;
    struct Model // only what is needed to keep the calls legal
    {
    };
    struct Driver
    {
        std::array<std::unique_ptr<Ref>, 4> a; std::array<std::unique_ptr<RefN>, 6> b; std::array<std::unique_ptr<Weak>, 4> w;
        std::array<INode*, MaxObj + 1> obj{}; std::array<int, MaxObj + 1> raw{}; std::array<bool, MaxObj + 1> bare{}, loose{};
        Rng r{ 1 };
        bool isN(int s) { return s == 4 || s == 5; }
        Ref& A(int s) { return s > 100 ? obj[s - 100]->next() : *a[s]; }
        RefN& N(int s) { return *b[s]; }
        neolib::i_ref_ptr<INode>& any(int s) { if (isN(s)) return N(s); return A(s); }
        bool live(int o) { return o >= 1 && o <= MaxObj && Pool::alive[o]; }
        int pick(bool chains = true) { if (chains && r.chance(1, 3)) { int o = pickObj(); if (o) return 100 + o; } return r.range(1, 5); }
        int pickObj() { int n = 0; for (int o = 1; o <= MaxObj; ++o) n += live(o); if (!n) return 0; n = r.below(n); for (int o = 1; o <= MaxObj; ++o) if (live(o) && n-- == 0) return o; return 0; }
        int P(int s) { return Pool::idOf(any(s).ptr()); }
        int M(int s) { return Pool::idOf(any(s).managed_ptr()); }
        bool C(int s) { return any(s).reference_counted() && any(s).managing(); }
        std::string show(int s) { return "[" + std::to_string(P(s)) + "," + std::to_string(M(s)) + "," + std::to_string((int)C(s)) + "," + std::to_string(any(s).use_count()) + "]"; }
        void end(E& e)
        {
            std::string s = "["; for (int i = 1; i <= 5; ++i) s += (i > 1 ? "," : "") + show(i); e.raw("sl", s + "]");
            s = "["; for (int o = 1; o <= MaxObj; ++o) if (live(o)) { auto n = show(100 + o); s += (s.size() > 1 ? ",[" : "[") + std::to_string(o) + "," + std::to_string(obj[o]->use_count()) + "," + std::to_string((int)obj[o]->pinned()) + "," + n.substr(1); } e.raw("objs", s + "]");
            s = "["; for (int i = 1; i <= 3; ++i) s += std::string(i > 1 ? "," : "") + "[" + std::to_string((int)w[i]->expired()) + "," + std::to_string(Pool::idOf(w[i]->ptr())) + "]"; e.raw("wk", s + "]");
            e.i("dtors", Pool::dtors).i("bad", Pool::bad).end();
        }
        bool typed(int s, int f) { return !isN(s) || ((P(f) == 0 || (live(P(f)) && Pool::node[P(f)])) && (M(f) == 0 || (live(M(f)) && Pool::node[M(f)]))); }
        INode* make() { int i = ++Pool::made; bool n = r.chance(2, 3); INode* p = n ? (INode*)new Node(i) : (INode*)new Other(i); obj[i] = p; return p; }
        void release_all()
        {
            for (int i = 1; i <= 5; ++i) any(i).reset();
            for (int o = 1; o <= MaxObj; ++o) if (live(o)) A(100 + o).reset();
            for (int o = 1; o <= MaxObj; ++o) while (live(o) && raw[o] > 0) { --raw[o]; obj[o]->release(); }
            for (int o = 1; o <= MaxObj; ++o) if (live(o) && obj[o]->pinned()) obj[o]->unpin();
            for (int o = 1; o <= MaxObj; ++o) if (live(o) && loose[o]) { Ref t(obj[o]); }
        }
        void reset()
        {
            for (int i = 1; i <= 3; ++i) w[i].reset();
            for (auto& x : a) x.reset(); for (auto& x : b) x.reset();
            Pool::clear(); raw.fill(0); bare.fill(false); loose.fill(false); obj.fill(nullptr);
            for (int i = 1; i <= 3; ++i) { a[i] = std::make_unique<Ref>(); w[i] = std::make_unique<Weak>(); } for (int i = 4; i <= 5; ++i) b[i] = std::make_unique<RefN>();
            E e("reset"); end(e);
        }
        template <typename F> void placed(int s, F f) // destroy the slot and construct it again
        {
            if (isN(s)) { auto n = std::make_unique<RefN>(f.template operator()<RefN>()); b[s] = std::move(n); }
            else { auto n = std::make_unique<Ref>(f.template operator()<Ref>()); if (s > 100) A(s) = std::move(*n); else a[s] = std::move(n); }
        }
        bool step()
        {
            int op = r.below(26); int s = pick(), f = pick();
            switch (op)
            {
            case 0: case 1:
            {
                if (Pool::made >= MaxObj) return false;
                INode* p = make(); int o = p->id(); bool n = Pool::node[o];
                if (isN(s) && !n) s = r.range(1, 3);
                if (isN(s)) { if (r.chance(1, 2)) N(s) = RefN(static_cast<Node*>(p)); else N(s).reset(p); }
                else switch (r.below(4)) { case 0: A(s) = Ref(p); break; case 1: A(s).reset(p); break; case 2: A(s).reset(p, p); break; default: { Ref t(p); if (n) A(s) = RefN(static_cast<Node*>(p)); else A(s) = t; } }
                E e("new"); e.i("s", s).i("o", o); end(e); return true;
            }
            case 2:
            {
                if (Pool::made >= MaxObj || !r.chance(1, 3)) return false;
                INode* p = make(); p->pin(); bare[p->id()] = true; E e("bare"); e.i("o", p->id()); end(e); return true;
            }
            case 3: case 4: case 5: // copy
            {
                int via = r.below(4);
                if (!typed(s, f)) { if (via == 0 && isN(s) && P(f) && live(P(f)) && !Pool::node[P(f)] && M(f) == P(f) && !isN(f)) { bool threw = false; try { N(s) = static_cast<neolib::i_ref_ptr<INode> const&>(A(f)); } catch (std::bad_cast const&) { threw = true; } E e("badcast"); e.b("threw", threw); end(e); return true; } return false; }
                if (isN(f) && (!live(P(f)) && P(f))) return false;
                if (via == 0) { neolib::i_ref_ptr<INode> const& x = any(f); if (isN(s)) N(s) = x; else A(s) = x; }
                else if (via == 1) { if (isN(s) && isN(f)) N(s) = N(f); else if (isN(s)) N(s) = static_cast<neolib::i_ref_ptr<INode> const&>(A(f)); else if (isN(f)) A(s) = N(f); else A(s) = A(f); }
                else if (via == 2) { any(s) = any(f); } // through the interface
                else { if (isN(s)) { placed(s, [&]<typename T>() { if constexpr (std::is_same_v<T, RefN>) return isN(f) ? RefN(N(f)) : RefN(static_cast<neolib::i_ref_ptr<INode> const&>(A(f))); else return T(); }); }
                       else placed(s, [&]<typename T>() { if constexpr (std::is_same_v<T, Ref>) return isN(f) ? Ref(N(f)) : Ref(A(f)); else return T(); }); }
                E e("copy"); e.i("s", s).i("f", f).i("via", via); end(e); return true;
            }
            case 6: case 7: case 8: // move
            {
                if (isN(s) != isN(f) && isN(s)) return false;
                int via = r.below(2);
                if (isN(f) && !isN(s) && P(f) && !live(P(f))) return false;
                if (via == 0 || s == f) { if (isN(s)) N(s) = std::move(N(f)); else if (isN(f)) A(s) = std::move(N(f)); else A(s) = std::move(A(f)); }
                else placed(s, [&]<typename T>() { if constexpr (std::is_same_v<T, RefN>) return RefN(std::move(N(f))); else return isN(f) ? Ref(std::move(N(f))) : Ref(std::move(A(f))); });
                E e("move"); e.i("s", s).i("f", f).i("via", via); end(e); return true;
            }
            case 9: { if (isN(s) != isN(f) || s == f) return false; if (isN(s)) std::swap(N(s), N(f)); else std::swap(A(s), A(f)); E e("swap"); e.i("s", s).i("f", f); end(e); return true; }
            case 10: // alias
            {
                int p = pickObj(); if (!p || isN(s) || isN(f) || s == f) return false; bool mv = r.chance(1, 2);
                if (mv) A(s) = Ref(std::move(A(f)), obj[p]); else A(s) = Ref(A(f), obj[p]);
                E e("alias"); e.i("s", s).i("f", f).i("p", p).b("mv", mv); end(e); return true;
            }
            case 11: case 12: { int via = r.below(3); if (via == 0) any(s).reset(); else if (isN(s)) N(s) = nullptr; else if (via == 1) A(s) = nullptr; else A(s).reset(nullptr); E e("clear"); e.i("s", s); end(e); return true; }
            case 13: // reset to an object
            {
                int o = pickObj(), p = r.chance(1, 3) ? pickObj() : o; if (!o || (isN(s) && (!Pool::node[o] || !Pool::node[p]))) return false;
                if (bare[o] && false) return false;
                if (o == p) any(s).reset(obj[o]); else any(s).reset(obj[p], obj[o]);
                loose[o] = false; E e("resetto"); e.i("s", s).i("p", p).i("m", o); end(e); return true;
            }
            case 14: { int o = pickObj(); if (!o || isN(s) || (obj[o]->use_count() == 0 && !bare[o])) return false; A(s) = Ref(*obj[o]); E e("refer"); e.i("s", s).i("o", o); end(e); return true; }
            case 15:
            {
                int o = M(s); if (o && !C(s)) return false; int res = Pool::idOf(any(s).detach()); if (res) ++raw[res];
                E e("detach"); e.i("s", s).i("res", res); end(e); return true;
            }
            case 16:
            {
                int o = M(s); if (o && (!C(s) || bare[o])) return false; bool threw = false; int res = 0;
                try { res = Pool::idOf(any(s).release()); loose[res] = true; } catch (std::logic_error const&) { threw = true; }
                E e("release"); e.i("s", s).b("threw", threw).i("res", res); end(e); return true;
            }
            case 17: { int o = pickObj(); if (!o) return false; obj[o]->add_ref(); ++raw[o]; loose[o] = false; E e("addref"); e.i("o", o); end(e); return true; }
            case 18: { int o = pickObj(); if (!o || !raw[o]) return false; --raw[o]; obj[o]->release(); E e("dropref"); e.i("o", o); end(e); return true; }
            case 19: { int o = pickObj(); if (!o || !raw[o] || (isN(s) && !Pool::node[o])) return false; --raw[o]; any(s).reset(obj[o], obj[o], true, false); E e("adopt"); e.i("s", s).i("o", o); end(e); return true; }
            case 20:
            {
                int o = pickObj(); if (!o || bare[o]) return false;
                if (obj[o]->pinned()) { obj[o]->unpin(); loose[o] = false; E e("unpin"); e.i("o", o); end(e); } else { obj[o]->pin(); E e("pin"); e.i("o", o); end(e); } return true;
            }
            case 21:
            {
                int i = r.range(1, 3); int via = r.below(5), o = pickObj();
                if (via == 4 || !o) { if (r.chance(1, 2)) w[i]->reset(); else *w[i] = nullptr; E e("wreset"); e.i("w", i); end(e); return true; }
                if (via == 0) *w[i] = Weak(obj[o]); else if (via == 1) w[i]->reset(obj[o]); else if (via == 2) *w[i] = Weak(*obj[o]);
                else { o = M(s); if (o && !live(o)) return false; if (r.chance(1, 2)) *w[i] = any(s); else w[i] = std::make_unique<Weak>(any(s)); }
                E e("observe"); e.i("w", i).i("o", o); end(e); return true;
            }
            case 22: { int i = r.range(1, 3), j = r.range(1, 3); if (r.chance(1, 2)) *w[i] = *w[j]; else { auto t = std::make_unique<Weak>(*w[j]); w[i] = std::move(t); } E e("wcopy"); e.i("w", i).i("f", j); end(e); return true; }
            case 23:
            {
                int i = r.range(1, 3); if (isN(s)) return false; INode* p = w[i]->ptr(); if (p && loose[p->id()]) return false; if (p && p->use_count() == 0) return false;
                if (p && r.chance(1, 2)) A(s) = Ref(**w[i]); else A(s) = Ref(w[i]->ptr());
                E e("upgrade"); e.i("s", s).i("w", i); end(e); return true;
            }
            case 24:
            {
                if (r.chance(1, 2)) { int i = r.range(1, 3); bool threw = false; int res = 0; try { res = r.chance(1, 2) ? (**w[i]).id() : (*w[i])->id(); } catch (std::logic_error const&) { threw = true; } E e("wderef"); e.i("w", i).b("threw", threw).i("res", res); end(e); return true; }
                if (P(s) && !live(P(s))) return false; bool threw = false; int res = 0; try { res = r.chance(1, 2) ? (*any(s)).id() : any(s)->id(); } catch (std::logic_error const&) { threw = true; }
                E e("deref"); e.i("s", s).b("threw", threw).i("res", res); end(e);
                { E q("query"); q.i("s", s).i("f", f).b("valid", any(s).valid()).b("managing", any(s).managing()).b("unique", any(s).unique()).b("eq", any(s) == any(f)); end(q); } return true;
            }
            default: // cast
            {
                s = r.range(4, 5); if (isN(f)) return false; int p = P(f), m = M(f); if (p && !live(p)) return false; if (m && (!live(m) || !Pool::node[m])) return false; if (!p && m) return false;
                bool want = p && Pool::node[p], mv = r.chance(1, 2);
                if (mv) N(s) = neolib::dynamic_pointer_cast<Node>(std::move(A(f))); else N(s) = neolib::dynamic_pointer_cast<Node>(A(f));
                E e("cast"); e.i("s", s).i("f", f).b("mv", mv).b("want", want).b("ok", N(s).valid()); end(e); return true;
            }
            }
        }
        void random(uint64_t seed, int histories, int length)
        {
            r = Rng(seed);
            for (int h = 0; h < histories; ++h)
            {
                if (h) release_all();
                reset();
                for (int i = 0; i < length; ++i) step();
            }
            release_all();
        }
    };
}
int main(int, char** argv)
{
    vt::Out::get().open(argv[2]);
    vt::Driver d; d.random(std::strtoull(argv[3], nullptr, 10), std::atoi(argv[4]), std::atoi(argv[5]));
}
