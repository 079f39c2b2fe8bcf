#include <neolib/core/vector.hpp>
#include <neolib/core/list.hpp>
#include <neolib/core/deque.hpp>
#include <string>
#include "seq_driver.hpp"
// -DKIND=vector|list|deque -DELEM=.. -DLEVEL=0 (own type) | 1 (its abstract interface) | 2 (the interface below that)
namespace vt
{
    // a sequence used only through an abstract interface
    template <typename C, typename A, typename T> struct Via
    {
        C c;
        A& a() { return c; }
        A const& a() const { return c; }
        using iterator = typename A::iterator;
        Via() {}
        Via(Via const& o) : c() { a() = o.a(); }
        Via& operator=(Via const& o) { a() = o.a(); return *this; }
        auto begin() { return a().begin(); }
        auto end() { return a().end(); }
        auto begin() const { return a().begin(); }
        auto end() const { return a().end(); }
        auto rbegin() { return a().rbegin(); }
        auto rend() { return a().rend(); }
        auto rbegin() const { return a().rbegin(); }
        auto rend() const { return a().rend(); }
        std::size_t size() const { return a().size(); }
        bool empty() const { return a().empty(); }
        void clear() { a().clear(); }
        iterator insert(iterator i, T const& t) { return a().insert(i, t); }
        iterator erase(iterator i) { return a().erase(i); }
        iterator erase(iterator i, iterator j) { return a().erase(i, j); }
        void push_back(T const& t) { a().push_back(t); }
        void pop_back() { a().pop_back(); }
        void push_front(T const& t) requires requires (A& x, T const& y) { x.push_front(y); } { a().push_front(t); }
        void pop_front() requires requires (A& x) { x.pop_front(); } { a().pop_front(); }
        T& front() { return a().front(); }
        T& back() { return a().back(); }
        T const& front() const { return a().front(); }
        T const& back() const { return a().back(); }
        void resize(std::size_t n) { a().resize(n); }
        void resize(std::size_t n, T const& t) { a().resize(n, t); }
        void reserve(std::size_t n) { a().reserve(n); }
        std::size_t capacity() const { return a().capacity(); }
        decltype(auto) operator[](std::size_t n) requires requires (A& x) { x[0]; } { return a()[n]; }
        decltype(auto) operator[](std::size_t n) const requires requires (A const& x) { x[0]; } { return a()[n]; }
        decltype(auto) at(std::size_t n) requires requires (A& x) { x.at(0); } { return a().at(n); }
        auto data() requires requires (A& x) { x.data(); } { return a().data(); }
        bool operator==(Via const& o) const { return a() == o.a(); }
    };
    template <typename V, typename T> struct Driver : SeqDriver<V, T>
    {
        using base = SeqDriver<V, T>;
        explicit Driver(int n) : base(n)
        {
            this->add("self_assign", [this](int k, int a, int, int) {
                V& v = this->at(k); if (a % 4 == 0) { V& w = v; v = w; } E e("nop"); e.str("via", "self_assign"); this->obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.front() = T(1); })
                this->add("set_ends", [this](int k, int a, int, int) {
                    V& v = this->at(k); int n = this->len(v); if (!n) return false; int x = this->val(); { T t(x); if (a % 2) v.front() = t; else v.back() = t; }
                    E e("set"); e.i("o", k).i("p", a % 2 ? 0 : n - 1).i("v", x).str("via", "ends"); this->obs(e); e.end(); return true; });
            if constexpr (requires (V& v) { v.as_std_vector(); } || requires (V& v) { v.as_std_list(); } || requires (V& v) { v.as_std_deque(); })
                this->add("as_std", [this](int k, int a, int, int) {
                    V& v = this->at(k); std::vector<int> r;
                    auto rd = [&](auto&& s) { for (auto& x : s) r.push_back((int)x); };
                    if constexpr (requires { v.as_std_vector(); }) { if (a % 2) rd(v.as_std_vector()); else rd(v.to_std_vector()); }
                    else if constexpr (requires { v.as_std_list(); }) { if (a % 2) rd(v.as_std_list()); else rd(v.to_std_list()); }
                    else { if (a % 2) rd(v.as_std_deque()); else rd(v.to_std_deque()); }
                    E e("read"); e.i("o", k).seq("res", r).str("via", "as_std"); this->obs(e); e.end(); return true; });
            // iterator copies are independent; a const iterator made from an iterator refers to the same element
            this->add("it_copy", [this](int k, int a, int b, int) {
                V& v = this->at(k); V const& cv = v; int n = this->len(v); if (!n) return false; int i = a % n; auto x = this->it(v, i); auto y = x; ++y; auto z = x; z = y; --z;
                E e("itcopy"); e.i("o", k).i("i", i).i("vx", (int)*x).i("vz", (int)*z).b("eqz", z == x).b("ney", y != x).b("yend", y == v.end()).b("cend", std::next(cv.begin(), i + 1) == cv.end()).i("cv", (int)*std::next(cv.begin(), i));
                this->obs(e); e.end(); return true; });
        }
    };
    using T = ELEM;
    using C = neolib::KIND<T>;
#if LEVEL == 0
    using V = C;
#elif LEVEL == 1
    using V = Via<C, typename C::abstract_type, T>;
#else
    using V = Via<C, neolib::i_random_access_container<T>, T>;
#endif
}
int main(int argc, char** argv)
{
    using namespace vt;
    Driver<V, T> d(24);
    return seq_main(d, argc, argv, 1);
}
