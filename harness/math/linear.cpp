// Vectors, matrices, rotations and bounding boxes over small whole numbers, where floating point is exact.
//   linear d|f OUT SEED COUNT [0|1 = use SIMD, if that is decided at run time]
#include <neolib/neolib.hpp>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/numerical.hpp>
#include <sstream>
#include <cstring>
#include "trace.hpp"
using vt::E; using namespace neolib::math;

static vt::Rng rng{ 1 };
static int range(int lo, int hi) { return lo + (int)rng.below((unsigned)(hi - lo + 1)); }
static constexpr int Off = 999999; // not a whole number
template <class T> int whole(T x) { double r = std::round((double)x); return std::abs((double)x - r) < 2e-3 && std::abs(r) < 900000 ? (int)r : Off; }
template <class T> int exact(T x) { return std::abs((double)x) < 900000 && (double)x == std::floor((double)x) ? (int)x : Off; }
template <class V> std::string vec(V const& v) { std::string s = "["; for (std::uint32_t i = 0; i < V::Size; ++i) s += (i ? "," : "") + std::to_string(exact(v[i])); return s + "]"; }
template <class V> std::string near(V const& v) { std::string s = "["; for (std::uint32_t i = 0; i < V::Size; ++i) s += (i ? "," : "") + std::to_string(whole(v[i])); return s + "]"; }
template <class M> std::string mat(M const& m, bool nearly = false)
{
    std::string s = "["; auto z = m.size();
    for (std::uint32_t c = 0; c < z.second; ++c) { s += c ? ",[" : "["; for (std::uint32_t r = 0; r < z.first; ++r) s += (r ? "," : "") + std::to_string(nearly ? whole(m[c][r]) : exact(m[c][r])); s += "]"; }
    return s + "]";
}
template <class C> std::string list(C const& c) { std::string s = "["; bool f = true; for (auto const& v : c) { s += (f ? "" : ",") + vec(v); f = false; } return s + "]"; }
template <class B> std::string box(B const& b) { return "[" + vec(b.min) + "," + vec(b.max) + "]"; }
static std::string bools(std::initializer_list<bool> l) { std::string s = "["; bool f = true; for (bool b : l) { s += std::string(f ? "" : ",") + (b ? "true" : "false"); f = false; } return s + "]"; }

template <class V> V any(int lo = -4, int hi = 4) { V v; for (std::uint32_t i = 0; i < V::Size; ++i) v[i] = (typename V::value_type)range(lo, hi); return v; }
template <class M> M anyMatrix(int lo = -3, int hi = 3)
{
    M m; auto z = m.size(); bool id = z.first == z.second && rng.chance(1, 6);
    for (std::uint32_t c = 0; c < z.second; ++c) for (std::uint32_t r = 0; r < z.first; ++r) m[c][r] = (typename M::value_type)(id ? c == r : range(lo, hi));
    return m;
}

template <class T, std::uint32_t N> struct Dim
{
    using V = basic_vector<T, N>; using R = basic_vector<T, N, row_vector>; using M = basic_matrix<T, N, N>;
    static void vectors()
    {
        V a = any<V>(), b = any<V>(); T s = (T)range(1, 4);
        auto e = [&](char const* op, std::string r) { E("vector").str("op", op).raw("a", vec(a)).raw("b", vec(b)).i("s", (int)s).raw("r", r).end(); };
        std::array<V, 2> two{ a, b }, shifted = two; V third = any<V>();
        e("add", vec(a + b)); e("sub", vec(a - b)); e("neg", vec(-a)); e("addScalar", vec(a + s)); e("addScalar", vec(s + a)); e("subScalar", vec(a - s)); e("scalarSub", vec(s - a));
        e("mul", vec(a * s)); e("mul", vec(s * a)); e("div", vec((a * s) / s)); e("rem", vec(a % s)); e("times", vec(a.scale(b))); e("times", vec(a.hadamard_product(b)));
        e("min", vec(a.min(b))); e("max", vec(a.max(b)));
        e("dot", std::to_string(exact(a.dot(b)))); e("least", std::to_string(exact(a.min())));
        e("length", std::to_string((int)std::floor(a.magnitude() + 1e-4))); e("distance", std::to_string((int)std::floor(a.distance(b) + 1e-4)));
        e("order", bools({ a < b, a > b, a <= b, a >= b, a == b, a != b }));
        V h; for (std::uint32_t i = 0; i < N; ++i) h[i] = a[i] / (T)2; // halves
        e("ceil", vec(h.ceil())); e("floor", vec(h.floor())); V q; for (std::uint32_t i = 0; i < N; ++i) q[i] = a[i] / (T)3; e("round", vec(q.round()));
        e("lerp", vec(lerp(a, b, s))); V near_ = a; near_[N - 1] += (T)0.0000001;
        e("nearly", bools({ nearly_equal(a, b), nearly_equal(a, near_), nearly_equal(a[0], b[0]), nearly_equal(neolib::optional<T>{ a[0] }, neolib::optional<T>{ b[0] }), nearly_equal(neolib::optional<T>{ a[0] }, neolib::optional<T>{}) }));
        { std::stringstream ss; ss << a; V back = third; ss >> back; e("text", "[" + vec(back) + ",\"" + ss.str() + "\"]"); }
        { R l = any<R>(); for (std::uint32_t i = 0; i < N; ++i) l[i] = a[i]; e("dot", std::to_string(exact(l * b))); e("outer", mat(b * l)); }
        shifted += b; e("each+", list(shifted)); shifted -= b; e("each", list(shifted)); e("each+", list(two + b)); e("each+", list(b + two)); e("each-", list(two - b)); e("-each", list(b - two));
        basic_vector<int, N> i = a.template as<int>(); e("same", vec(i)); e("same", vec(V{ i })); basic_vector<T, 5> wide{ a }; e("widen", vec(wide));
        basic_vector<T, 2> narrow{ a }; E("vector").str("op", "narrow").raw("a", vec(a)).raw("b", vec(b)).i("s", 2).raw("r", vec(narrow)).end();
        V fromList; bool refused = false; try { fromList = { a[0] }; } catch (...) { refused = true; } e("first", vec(fromList)); e("first", vec(V{ std::initializer_list<T>{ a[0] } }));
        try { fromList = { 1, 2, 3, 4, 5, 6 }; } catch (std::out_of_range const&) { refused = true; } e("refused", bools({ refused })); e("first", vec(fromList));
    }
    static void matrices()
    {
        M a = anyMatrix<M>(), b = anyMatrix<M>(); V v = any<V>(); R w = any<R>(); T s = (T)range(1, 3);
        auto e = [&](char const* op, std::string r) { E("matrix").str("op", op).raw("a", mat(a)).raw("b", mat(b)).raw("v", vec(v)).raw("w", vec(w)).i("s", (int)s).raw("r", r).end(); };
        M c = a; std::array<V, 2> vs{ v, any<V>() }; vs[1] = vs[0]; std::array<R, 2> ws{ w, w };
        e("add", mat(a + b)); e("sub", mat(a - b)); e("neg", mat(-a)); e("mul", mat(a * b)); c *= b; e("mul", mat(c)); c = a; c += b; e("add", mat(c)); c = a; c -= b; e("sub", mat(c));
        c = a; c *= c; e("square", mat(c)); e("square", mat(a * a));
        e("scale", mat(a * s)); e("scale", mat(s * a)); e("addScalar", mat(a + s)); e("addScalar", mat(s + a)); e("subScalar", mat(a - s)); e("scalarSub", mat(s - a)); e("div", mat((a * s) / s));
        e("transposed", mat(a.transposed())); e("apply", vec(a * v)); e("row", vec(w * a)); e("applyEach", list(a * vs)); e("rowEach", list(ws * a));
        e("identity", bools({ a.is_identity() })); e("unit", mat(M::identity())); e("equal", bools({ a == b, a != b })); e("untranslated", mat(without_translation(a)));
        M third; for (std::uint32_t i = 0; i < N; ++i) for (std::uint32_t j = 0; j < N; ++j) third[i][j] = a[i][j] / (T)3;
        e("roundThird", mat(third.round_to((T)1))); e("same", mat(a.template as<float>())); e("same", mat(basic_matrix<T, N, N>{ a.template as<int>() }));
        { std::ostringstream o; o << a; e("text", "\"" + o.str() + "\""); }
        matrix_array<T, N, N> ma; for (std::uint32_t i = 0; i < N; ++i) for (std::uint32_t j = 0; j < N; ++j) ma[i][j] = a[i][j];
        e("addScalar", mat(ma.apply([&](T const& x) { return x + s; }))); e("transposed", mat(ma.transposed())); e("same", mat(ma.template as<int>()));
    }
    static void oblong()
    {
        constexpr std::uint32_t K = N == 2 ? 3 : 2;
        basic_matrix<T, N, K> a = anyMatrix<basic_matrix<T, N, K>>(), a2 = anyMatrix<basic_matrix<T, N, K>>(); basic_matrix<T, K, N> b = anyMatrix<basic_matrix<T, K, N>>();
        auto e = [&](char const* op, std::string r) { E("matrix").str("op", op).raw("a", mat(a)).raw("b", mat(b)).raw("v", "[]").raw("w", "[]").i("s", 0).raw("r", r).end(); };
        e("mul", mat(a * b)); e("transposed", mat(a.transposed())); e("neg", mat(-a)); a2 = a; e("same", mat(a2)); a2 += a; e("double", mat(a2));
    }
};

// a file of four registers, changed in place
template <class T, std::uint32_t N> void registers(int length)
{
    using V = basic_vector<T, N>; V r[4];
    for (auto& v : r) v = any<V>();
    auto state = [&] { return list(std::vector<V>(r, r + 4)); };
    E("reset").raw("regs", state()).end();
    for (int n = 0; n < length; ++n)
    {
        int a = range(0, 3), b = range(0, 3), s = range(1, 3), big = 0; for (auto& v : r) for (std::uint32_t i = 0; i < N; ++i) big = std::max(big, std::abs((int)v[i]));
        V& x = r[a]; V const& y = r[b]; std::string op; std::vector<int> ix;
        auto done = [&] { E("change").str("op", op).i("a", a + 1).i("b", b + 1).i("s", s).seq("ix", ix).raw("regs", state()).end(); };
        switch (big > 300 ? range(8, 13) : range(0, 13))
        {
        case 0: op = "add"; x += y; break;
        case 1: op = "sub"; x -= y; break;
        case 2: op = "mul"; x *= (T)s; break;
        case 3: op = "addScalar"; x += (T)s; break;
        case 4: op = "subScalar"; x -= (T)s; break;
        case 5: op = "times"; if (big > 17) { op = "copy"; x = y; } else x *= y; break;
        case 6: op = "undouble"; x *= (T)s; x /= (T)s; break;
        case 7: op = "neg"; x = -x; break;
        case 8: op = "copy"; x = y; break;
        case 9: op = "swap"; swap(x, r[b]); break;
        case 10: op = "element"; s = range(1, (int)N); x[s - 1] = y[(std::uint32_t)(N - s)]; break;
        case 11: op = "fill"; s = range(-3, 3); ix = { 1, 2 }; x.xy = (T)s; break;
        case 12: // swizzles of the same shape and of another
            switch (range(0, 3))
            {
            case 0: op = "swizzle"; ix = { 1, 2, 1, 2 }; x.xy = y.xy; break;
            case 1: op = "swizzle"; ix = { 2, 1, 2, 1 }; x.yx = y.yx; break;
            case 2: op = "swizzle"; ix = { 1, 2, 2, 1 }; x.xy = ~y.yx; break;
            case 3: op = "swizzle"; ix = { 2, 1, 1, 1 }; x.yx = ~y.xx; break;
            }
            break;
        case 13:
            op = "swizzle";
            if constexpr (N >= 3) switch (range(0, 3))
            {
            case 0: ix = { 3, 2, 1, 1, 2, 3 }; x.zyx = ~y.xyz; break;
            case 1: ix = { 1, 2, 3, 3, 3, 2 }; x.xyz = ~y.zzy; break;
            case 2: ix = { 1, 3, 1, 3 }; x.xz = y.xz; break;
            case 3: ix = { 1, 2, 2, 3 }; x.xy = ~y.yz; break;
            }
            else { ix = { 1, 2, 2, 1 }; x = V{ y.yx }; }
            break;
        }
        done();
    }
}

template <class T> struct Space
{
    using V = basic_vector<T, 3>; using V2 = basic_vector<T, 2>; using M = basic_matrix<T, 4, 4>; using B = basic_aabb<V>; using B2 = basic_aabb_2d<V2>;
    static M affine() { M m = anyMatrix<M>(); for (int c = 0; c < 4; ++c) m[c][3] = (T)(c == 3); return m; }
    static basic_matrix<T, 3, 3> affine2() { auto m = anyMatrix<basic_matrix<T, 3, 3>>(); for (int c = 0; c < 3; ++c) m[c][2] = (T)(c == 2); return m; }
    static B anyBox(int lo = -4, int hi = 4) { V a = any<V>(lo, hi), b = any<V>(lo, hi); return B{ a.min(b), a.max(b) }; }
    static void boxes()
    {
        B a = anyBox(), b = rng.chance(1, 5) ? a : anyBox(); M m = affine(), k = affine(); V p = any<V>(-5, 5), size = any<V>(0, 3) * (T)2; std::vector<V> pts; for (int n = range(0, 4); n > 0; --n) pts.push_back(any<V>(-4, 4));
        auto e = [&](char const* op, std::string r) { E("box").str("op", op).raw("a", box(a)).raw("b", box(b)).raw("m", mat(m)).raw("k", mat(k)).raw("p", vec(p)).raw("size", vec(size)).raw("pts", list(pts)).raw("r", r).end(); };
        e("union", box(aabb_union(a, b))); e("contains", bools({ aabb_contains(a, b) })); e("holds", bools({ aabb_contains(a, p) })); e("meets", bools({ aabb_intersects(a, b) }));
        e("meets", bools({ aabb_intersects(neolib::optional<B>{ a }, b) })); e("never", bools({ aabb_intersects(neolib::optional<B>{}, b), aabb_intersects(a, std::optional<B>{}), aabb_intersects(neolib::optional<B>{ a }, std::optional<B>{}) }));
        e("volume", std::to_string(exact(aabb_volume(a)))); e("extents", vec(aabb_extents(a))); e("middle", vec(aabb_origin(B{ a.min * (T)2, a.max * (T)2 })));
        e("moved", box(aabb_transform(a, m))); e("movedTwice", box(aabb_transform(a, m, k))); e("sized", box(to_aabb(p, size))); e("cube", box(to_aabb(p, size[0])));
        e("around", box(to_aabb(pts))); e("aroundMoved", box(to_aabb(pts.begin(), pts.end(), m))); e("order", bools({ a < b, a == b, a > b, a != b }));
        e("points", list(m * pts)); e("point", vec(m * p)); e("flat", box(to_aabb_2d(pts))); e("flatMoved", box(to_aabb_2d(pts, m)));
        neolib::small_vector<V, 2> few; for (auto const& v : pts) few.push_back(v);
        e("points", list(m * few)); e("around", box(to_aabb(few))); e("flat", box(to_aabb_2d(few)));
        e("midpoint", vec(midpoint(p * (T)2, size))); e("cross", vec(p.cross(size)));
    }
    static void flat()
    {
        auto two = [](V const& v) { return V2{ v[0], v[1] }; };
        B a3 = anyBox(), b3 = anyBox(); B2 a{ two(a3.min), two(a3.max) }, b{ two(b3.min), two(b3.max) }; auto m = affine2(), k = affine2(); V2 p = any<V2>(-5, 5), size = any<V2>(0, 3) * (T)2; std::vector<V2> pts; for (int n = range(0, 4); n > 0; --n) pts.push_back(any<V2>(-4, 4));
        if (rng.chance(1, 5)) b = a;
        auto e = [&](char const* op, std::string r) { E("box").str("op", op).raw("a", box(a)).raw("b", box(b)).raw("m", mat(m)).raw("k", mat(k)).raw("p", vec(p)).raw("size", vec(size)).raw("pts", list(pts)).raw("r", r).end(); };
        e("union", box(aabb_union(a, b))); e("contains", bools({ aabb_contains(a, b) })); e("holds", bools({ aabb_contains(a, p) })); e("meets", bools({ aabb_intersects(a, b) }));
        e("meets", bools({ aabb_intersects(a, std::optional<B2>{ b }) })); e("never", bools({ aabb_intersects(neolib::optional<B2>{}, b), aabb_intersects(a, std::optional<B2>{}), aabb_intersects(neolib::optional<B2>{ a }, std::optional<B2>{}) }));
        e("area", std::to_string(exact(aabb_volume(a)))); e("extents", vec(aabb_extents(a))); e("middle", vec(aabb_origin(B2{ a.min * (T)2, a.max * (T)2 })));
        e("moved", box(aabb_transform(a, m))); e("movedTwice", box(aabb_transform(a, m, k))); e("sized", box(to_aabb_2d(p, size))); e("cube", box(to_aabb_2d(p, size[0])));
        e("around", box(to_aabb_2d(pts))); e("aroundMoved", box(to_aabb_2d(pts, m))); e("order", bools({ a < b, a == b, a > b, a != b }));
        V2 w{ (T)range(0, 5), (T)0 }, h{ (T)0, (T)range(0, 5) }; std::array<V2, 4> quad{ p, p + w, p + w + h, p + h };
        V2 ext = quad_extents(quad); E("quad").raw("w", vec(w)).raw("h", vec(h)).raw("r", vec(ext)).end();
    }
    static T quarter(int k) { return (T)(k * boost::math::constants::half_pi<double>()); }
    static V quarters(V const& k) { return V{ quarter((int)k[0]), quarter((int)k[1]), quarter((int)k[2]) }; }
    static V axis() { V v; v[range(0, 2)] = (T)(rng.chance(1, 2) ? 1 : -1); return v; }
    static void rotations()
    {
        V a = axis(), k = any<V>(-3, 3); int q = range(-3, 4);
        E("turn").raw("axis", vec(a)).i("q", q).raw("r", mat(rotation_matrix(a, quarter(q)), true)).end();
        E("euler").raw("k", vec(k)).raw("r", mat(rotation_matrix(quarters(k)), true)).raw("affine", mat(affine_rotation_matrix(quarters(k)), true)).end();
        V b = axis(); a = a * (T)range(1, 3); b = b * (T)range(1, 3);
        E("facing").raw("a", vec(a)).raw("b", vec(b)).raw("r", mat(rotation_matrix(a, b), true)).end();
        M m; V d = any<V>(-3, 3), t = any<V>(-3, 3), s = any<V>(-3, 3); for (int i = 0; i < 3; ++i) { m[i][i] = d[i]; m[3][i] = t[i]; } m[3][3] = (T)1;
        M moved = m, scaled = m, moved2 = m, scaled2 = m; apply_translation(moved, s); apply_scaling(scaled, s); apply_translation(moved2, V2{ s[0], s[1] }); apply_scaling(scaled2, V2{ s[0], s[1] });
        E("place").raw("m", mat(m)).raw("s", vec(s)).raw("moved", mat(moved)).raw("scaled", mat(scaled)).raw("moved2", mat(moved2)).raw("scaled2", mat(scaled2)).end();
        // between two placements, at either end in each of the three parts
        using R3 = basic_vector3_range<T>; V t0 = any<V>(-3, 3), t1 = any<V>(-3, 3), s0 = any<V>(1, 3), s1 = any<V>(1, 3), r0 = any<V>(-2, 2), r1 = any<V>(-2, 2), at = any<V>(0, 1), as = any<V>(0, 1), ar = any<V>(0, 1);
        if (rng.chance(1, 3)) { ar = V{ (T)range(0, 1), (T)0, (T)0 }; ar[1] = ar[2] = ar[0]; }
        M between = affine_transformation_lerp(R3{ t0, t1 }, R3{ s0, s1 }, R3{ quarters(r0), quarters(r1) }, at, as, ar), same = affine_transformation_lerp_generator(R3{ t0, t1 }, R3{ s0, s1 }, R3{ quarters(r0), quarters(r1) })(at, as, ar);
        E("between").raw("t0", vec(t0)).raw("t1", vec(t1)).raw("s0", vec(s0)).raw("s1", vec(s1)).raw("r0", vec(r0)).raw("r1", vec(r1)).raw("at", vec(at)).raw("as", vec(as)).raw("ar", vec(ar)).raw("r", mat(between, true)).raw("g", mat(same, true)).end();
        // half way along a curve, and its ends
        V2 p[4]; for (auto& v : p) v = any<V2>(-3, 3) * (T)8;
        E("curve").raw("p", list(std::vector<V2>(p, p + 4))).raw("r", list(std::vector<V2>{ V2{ bezier_cubic(p[0], p[1], p[2], p[3], (T)0) }, V2{ bezier_cubic(p[0], p[1], p[2], p[3], (T)0.5) }, V2{ bezier_cubic(p[0], p[1], p[2], p[3], (T)1) } })).end();
    }
};

static void randomness()
{
    std::uint32_t upper = (std::uint32_t)range(0, 5), seed = (std::uint32_t)range(1, 1000); std::vector<std::uint32_t> first, again; bool all[6] = {}; int below = 0;
    neolib::simd_srand(seed); for (int n = 0, skip = range(0, 9); n < 8 + skip; ++n) { auto v = neolib::simd_rand(); if (n < 8) first.push_back(v); }
    neolib::simd_srand(seed); for (int n = 0; n < 8; ++n) again.push_back(neolib::simd_rand());
    for (int n = 0; n < 600; ++n) { auto v = neolib::simd_rand(upper); if (v > upper) below = 1; else all[v] = true; }
    int seen = 0; for (bool b : all) seen += b;
#if defined(USE_EMM) || defined(USE_EMM_DYNAMIC)
    std::vector<int> in, out; for (int i = 0; i < 4; ++i) in.push_back(range(0, 1000));
    __m128i lanes = _mm_set_epi32(in[3], in[2], in[1], in[0]); for (std::size_t i = 0; i < 4; ++i) out.push_back((int)std::min(neolib::to_scalar(lanes, i), 100000u));
    E("lanes").seq("a", in).seq("r", out).end();
#endif
    E("random").i("upper", upper).b("repeats", first == again).b("over", below).i("seen", seen).end();
}

template <class T> void all(int count)
{
    for (int n = 0; n < count; ++n)
    {
        Dim<T, 2>::vectors(); Dim<T, 3>::vectors(); Dim<T, 4>::vectors();
        Dim<T, 2>::matrices(); Dim<T, 3>::matrices(); Dim<T, 4>::matrices(); Dim<T, 2>::oblong(); Dim<T, 3>::oblong(); Dim<T, 4>::oblong();
        Space<T>::boxes(); Space<T>::flat(); Space<T>::rotations(); randomness();
        registers<T, 2>(20); registers<T, 3>(20); registers<T, 4>(20);
    }
    E("end").end();
}

int main(int argc, char** argv)
{
    vt::Out::get().open(argv[2]); E::Out_unbuffered() = false; rng = vt::Rng{ (std::uint64_t)atoll(argv[3]) };
#if defined(USE_AVX_DYNAMIC)
    neolib::use_simd() = atoi(argv[5]) != 0;
#endif
    if (!std::strcmp(argv[1], "d")) all<double>(atoi(argv[4])); else all<float>(atoi(argv[4]));
}
