#include <neolib/core/segmented_array.hpp>
#include <string>
#include "seq_driver.hpp"
// one configuration per translation unit: -DSEG=.. -DELEM=.. -DMAXLEN=..
namespace vt
{
    template <typename V, typename T> struct Driver : SeqDriver<V, T>
    {
        using base = SeqDriver<V, T>;
        explicit Driver(int n) : base(n)
        {
            // position of an element from its address
            this->add("iter_of", [this](int k, int a, int, int) {
                V& v = this->at(k); int n = this->len(v); if (!n) return false; int p = a % n; auto& x = *this->it(v, p);
                V const& cv = v; int r = (int)(v.iter(x) - v.begin()); int cr = (int)(cv.iter(x) - cv.begin());
                E e("pos"); e.i("o", k).i("p", p).i("res", r).i("cres", cr); this->obs(e); e.end(); return true; });
            this->add("citer_arith", [this](int k, int a, int b, int) {
                V const& v = this->at(k); int n = (int)v.size(); if (!n) return false; int i = a % n, j = b % (n + 1);
                auto x = v.begin() + i; auto y = v.begin() + j; auto z = v.end() - (n - j);
                E e("iter"); e.i("o", k).i("i", i).i("j", j).i("diff", (int)(y - x)).i("vi", (int)*x).b("lt", x < y).b("eq", x == y).b("eqz", y == z);
                auto w = x; w += (j - i); e.b("eqw", w == y); w -= (j - i); e.i("vw", (int)*w); e.i("sub", (int)v.begin()[i]);
                this->obs(e); e.end(); return true; });
            this->add("input_range", [this](int k, int a, int b, int) {
                V& v = this->at(k); int n = this->clampn(v, b % 12); int p = a % (this->len(v) + 1); auto vs = this->vals(n);
                std::stringstream ss; for (int x : vs) ss << x << ' ';
                int r = (int)(v.insert(this->it(v, p), std::istream_iterator<int>(ss), std::istream_iterator<int>()) - v.begin());
                E e("insert"); e.i("o", k).i("p", p).seq("vals", vs).i("res", r).str("via", "insert_input"); this->obs(e); e.end(); return true; });
            this->add("emplace_n", [this](int k, int a, int b, int) {
                V& v = this->at(k); int n = this->clampn(v, b % 12); int p = a % (this->len(v) + 1); int x = this->val();
                int r = (int)(v.emplace_insert(this->it(v, p), (std::size_t)n, x) - v.begin());
                E e("insert"); e.i("o", k).i("p", p).seq("vals", std::vector<int>(n, x)).i("res", r).str("via", "emplace_n"); this->obs(e); e.end(); return true; });
            // walk through a mixture of steps, reading on the way
            this->add("walk", [this](int k, int a, int b, int c) {
                V& v = this->at(k); int n = this->len(v); if (!n) return false; Rng r((uint64_t)a * 7919 + b);
                auto i = v.begin() + (a % n); int p = a % n; std::vector<int> at, got;
                for (int s = 0; s < 12; ++s)
                {
                    int t = r.below(n); int how = r.below(4);
                    if (how == 0) { i += (t - p); p = t; }
                    else if (how == 1) { i -= (p - t); p = t; }
                    else if (how == 2) { if (p < n - 1) { ++i; ++p; } }
                    else { if (p > 0) { --i; --p; } }
                    at.push_back(p); got.push_back((int)*i);
                }
                E e("walk"); e.i("o", k).seq("at", at).seq("res", got); this->obs(e); e.end(); return true; });
        }
    };
}
int main(int argc, char** argv)
{
    using namespace vt;
    Driver<neolib::segmented_array<ELEM, SEG>, ELEM> d(MAXLEN);
#ifdef BULKY
    d.bulk = true; E::Out_unbuffered() = false;
#endif
    return seq_main(d, argc, argv, 1);
}
