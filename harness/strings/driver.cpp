// Random histories of neolib::string (also through i_string) and quick_string; each operation is one line with the contents of all strings after it.
//   driver KIND OUT SEED HISTORIES LENGTH     (KIND: string | quick)
#include <neolib/neolib.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/quick_string.hpp>
#include "../common/trace.hpp"
#include <sstream>
#include <unordered_set>
using vt::E; typedef std::string S;
static vt::Rng* R;
template <typename C> static S A(C const& s) { std::string o = "["; bool first = true; for (char c : s) { if (!first) o += ','; first = false; o += std::to_string((unsigned char)c); } return o + "]"; }
static S rnd(int n) { static const char al[] = "aabbc\0Z"; S s; for (int k = R->below(n + 1); k > 0; --k) s += al[R->below(7)]; return s; }
static S rndz(int n) { S s = rnd(n); for (auto& c : s) if (!c) c = 'a'; return s; }
static long long P(size_t p) { return p == S::npos ? -1 : (long long)p; }
static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }

template <typename T, typename C, typename I> static neolib::i_container<T, C, I>& container(neolib::i_container<T, C, I>& c) { return c; }
template <typename T, typename C, typename I> static neolib::i_container<T, C, I> const& container(neolib::i_container<T, C, I> const& c) { return c; }
template <typename T, typename C, typename I> static neolib::i_sequence_container<T, C, I>& sequence(neolib::i_sequence_container<T, C, I>& c) { return c; }
template <typename F> static bool throws(F f) { try { f(); } catch (std::out_of_range const&) { return true; } return false; }

struct Strings
{
    neolib::string s[3];
    // what a string shows through each way to read it; anything that differs is put down as a line of its own
    S contents(int i)
    {
        neolib::string const& c = s[i]; neolib::i_string const& ic = c; S a = c.as_std_string();
        bool same = ic.to_std_string() == a && c.to_std_string() == a && S{ ic.data(), ic.size() } == a && S{ ic.cdata(), ic.length() } == a && ic.to_std_string_view() == a && c.to_string_view().to_std_string_view() == a && ic.c_str()[a.size()] == 0 && ic.empty() == a.empty();
        S b; for (auto ch : ic) b += ch; same = same && a == b;
        auto const& cc = container(c); S d; for (auto j = cc.begin(); j != cc.end(); ++j) d += *j; same = same && a == d;
        for (size_t k = 0; k < a.size(); ++k) same = same && ic[k] == a[k] && ic.at(k) == a[k] && s[i][k] == a[k];
        std::ostringstream os; os << ic; same = same && os.str() == a;
        same = same && std::hash<neolib::string>{}(c) == std::hash<S>{}(a) && std::hash<neolib::i_string>{}(ic) == std::hash<S>{}(a);
        if (!same) E("disagree").i("t", i).end();
        return A(a);
    }
    S all() { return "[" + contents(0) + "," + contents(1) + "," + contents(2) + "]"; }
    E op(const char* o, int t) { E e(o); e.i("t", t); return e; }
    void done(E& e) { e.raw("s", all()).end(); }
    void step()
    {
        int t = R->below(3), u = R->below(3); auto& x = s[t]; neolib::i_string& ix = x; neolib::i_string const& cx = x; int n = (int)x.size();
        if (n > 30) { E e = op("clear", t); ix.clear(); done(e); return; }
        switch (R->below(17))
        {
        case 0: case 1: case 2: // take or add another text
        {
            bool add = R->chance(1, 2); E e = op(add ? "append" : "assign", t); S y = rnd(7), z = rndz(7); auto& o = s[u]; neolib::i_string const& io = o;
            size_t f = R->below((int)o.size() + 1), l = R->below((int)o.size() + 1); if (f > l) std::swap(f, l); // part of another string or of this one
            neolib::string_view sv{ io.c_str() + f, io.c_str() + l }; neolib::i_string_view const& isv = sv; S part = o.as_std_string().substr(f, l - f), whole = o.as_std_string();
            S took;
            if (add) switch (R->below(13))
            {
            case 0: took = z; ix.append(z.c_str()); break;
            case 1: took = y; ix.append(y); break;
            case 2: took = y; ix.append(std::string_view{ y }); break;
            case 3: took = y; ix.append(y.data(), y.size()); break;
            case 4: took = whole; ix.append(io); break;
            case 5: took = whole; x.append(o); break;
            case 6: took = part; ix.append(isv); break;
            case 7: took = part; x.append(sv); break;
            case 8: took = part; ix.append(io.c_str() + f, l - f); break;
            case 9: took = whole; ix += io; break;
            case 10: took = whole; x += io; break;
            case 11: { took = whole; neolib::string r = x + o; x = r; } break;
            default: took = y; x.append(neolib::string_view{ std::string_view{ y } }); break;
            }
            else switch (R->below(17))
            {
            case 0: took = z; ix.assign(z.c_str()); break;
            case 1: took = y; ix.assign(y); break;
            case 2: took = y; ix.assign(std::string_view{ y }); break;
            case 3: took = y; ix.assign(y.data(), y.size()); break;
            case 4: took = whole; ix.assign(io); break;
            case 5: took = whole; x = o; break;
            case 6: took = part; ix.assign(isv); break;
            case 7: took = part; x = isv; break;
            case 8: took = part; ix.assign(io.c_str() + f, l - f); break;
            case 9: took = whole; ix = io; break;
            case 10: took = part; ix = isv; break;
            case 11: took = z; ix = z.c_str(); break;
            case 12: took = y; ix = y; break;
            case 13: took = y; x = std::string_view{ y }; break;
            case 14: took = whole; container(ix).assign(container(io)); break;
            case 15: took = y; x = neolib::quick_string{ y.data(), y.size() }; break;
            default: took = whole; { neolib::string tmp{ o }; if (R->chance(1, 2)) x = std::move(tmp); else x.assign(std::move(tmp)); } break;
            }
            e.raw("x", A(took)); done(e);
        } break;
        case 3: // a new string in its place
        {
            E e = op("assign", t); S y = rnd(7), z = rndz(7), took; auto& o = s[u];
            switch (R->below(9))
            {
            case 0: { took = z; neolib::string r{ z.c_str() }; x = r; } break;
            case 1: { took = y; neolib::string r{ y }; x = r; } break;
            case 2: { took = y; neolib::string r{ y.data(), y.size() }; x = r; } break;
            case 3: { took = y; neolib::string r{ std::string_view{ y } }; x = r; } break;
            case 4: { took = o.as_std_string(); neolib::string r{ static_cast<neolib::i_string const&>(o) }; x = r; } break;
            case 5: { took = o.as_std_string(); neolib::string r{ static_cast<neolib::i_string_view const&>(o.to_string_view()) }; x = r; } break;
            case 6: { took = y; neolib::string r{ y.begin(), y.end() }; x = r; } break;
            case 7: { took = S(y.size(), 'b'); neolib::string r(y.size(), 'b'); x = r; } break;
            default: { took = o.as_std_string(); neolib::string c{ o }; neolib::string r{ std::move(c) }; x = r; } break;
            }
            e.raw("x", A(took)); done(e);
        } break;
        case 4: { char c = "abcZ"[R->below(4)]; E e = op("append", t); ix.push_back(c); e.raw("x", A(S(1, c))); done(e); } break;
        case 5: if (n) { E e = op("erase", t); e.i("p", n - 1).i("n", 1); ix.pop_back(); done(e); } break;
        case 6: // insert
        {
            char c = "abcZ"[R->below(4)]; int p = R->range(0, n); E e = op("insert", t); long long r;
            auto& cc = container(ix); auto& sc = sequence(ix);
            auto at = sc.insert(std::next(std::as_const(cc).begin(), p), c); r = 0; for (auto k = cc.begin(); !(k == at); ++k) ++r;
            e.i("p", p).raw("x", A(S(1, c))).i("r", r); done(e);
        } break;
        case 7: case 8: if (n) // erase
        {
            int p = R->below(n), q = R->range(p, n); bool one = R->chance(1, 2); if (one) q = p + 1;
            E e = op("erase", t); auto& cc = container(ix); auto const& k = std::as_const(cc);
            if (one) cc.erase(std::next(k.begin(), p)); else cc.erase(std::next(k.begin(), p), std::next(k.begin(), q));
            e.i("p", p).i("n", q - p); done(e);
        } break;
        case 9: { int m = R->below(14); bool z = R->chance(1, 2); E e = op("resize", t); if (z) ix.resize(m); else ix.resize(m, 'c'); e.i("n", m).i("c", z ? 0 : 'c'); done(e); } break;
        case 10: { E e = op("clear", t); ix.clear(); done(e); } break;
        case 11: if (n) // write a character
        {
            int p = R->below(n); char c = "abcZ"[R->below(4)]; 
            switch (R->below(5)) { case 0: ix[p] = c; break; case 1: ix.at(p) = c; break; case 2: ix.data()[p] = c; break; case 3: p = 0; ix.front() = c; break; default: p = n - 1; ix.back() = c; break; }
            E e = op("put", t); e.i("p", p).i("c", c); done(e);
        } break;
        case 12: case 13: // replace everywhere
        {
            S f = R->chance(1, 8) ? S{} : rnd(2), y = rnd(4); E e = op("replace", t); neolib::string nf{ f }, ny{ y };
            ix.replace_all(nf, ny); e.raw("f", A(f)).raw("y", A(y)); done(e);
        } break;
        case 14: // read
        {
            E e = op("read", t); e.i("size", (long long)cx.size()).b("empty", cx.empty()).b("beyond", throws([&] { cx.at(n + R->below(3)); }) && throws([&] { ix.at(n); })).i("front", n ? (unsigned char)cx.front() : -1).i("back", n ? (unsigned char)cx.back() : -1); done(e);
        } break;
        case 15: // compare
        {
            auto& o = s[u]; neolib::i_string const& io = o; std::vector<long long> c, q; auto ord = [&](std::strong_ordering v) { c.push_back(v < 0 ? -1 : v > 0 ? 1 : 0); };
            ord(x <=> o); ord(cx <=> io); ord(x <=> io); ord(cx <=> o); q = { x == o, cx == io, x == io, cx == o, !(x != o), x.to_string_view() == o.to_string_view() };
            E e = op("cmp", t); e.i("u", u).seq("c", c).seq("q", q); done(e);
        } break;
        default: // reading from a stream takes one word
        {
            S y = rndz(5); std::istringstream is("  " + y + " rest"); E e = op("assign", t); is >> ix; e.raw("x", A(y.empty() ? S("rest") : y)); done(e);
        } break;
        }
    }
};

struct Quick
{
    S pool[2]; // what views look into stays as it is
    neolib::quick_string q[2];
    void start() { for (auto& p : pool) { p = rnd(12); } for (auto& x : q) x = neolib::quick_string{}; }
    S contents(int i)
    {
        auto const& c = q[i]; bool view = c.is_view(); S a{ c.to_std_string_view() };
        bool same = c.to_std_string() == a && S(c.begin(), c.end()) == a && S(c.cbegin(), c.cend()) == a && c.size() == a.size() && c.length() == a.size() && c.empty() == a.empty() && S{ c.data(), c.size() } == a && c.substr() == a && S(c.rbegin(), c.rend()) == S(a.rbegin(), a.rend());
        for (size_t k = 0; k < a.size(); ++k) same = same && c[k] == a[k] && c.at(k) == a[k];
        std::ostringstream os; os << c; same = same && os.str() == a && (a.empty() || c.back() == a.back());
        same = same && throws([&] { c.at(a.size()); }) && (a.empty() || hash_value(c) == hash_value(neolib::quick_string{ a }));
        same = same && c.is_view() == view; // looking at it does not copy it
        if (!same) E("disagree").i("t", i).end();
        return A(a);
    }
    S all() { return "[" + contents(0) + "," + contents(1) + ",[]]"; }
    E op(const char* o, int t) { E e(o); e.i("t", t); return e; }
    void done(E& e) { e.raw("s", all()).end(); if (R->chance(1, 6)) { auto& c = q[R->below(2)]; S a{ c.to_std_string_view() }; if (S{ c.c_str() } != S{ a.c_str() } || c.is_view()) E("disagree").end(); } }
    void step()
    {
        typedef neolib::quick_string Q;
        int t = R->below(2); Q& x = q[t]; Q const& cx = x; Q& o = q[R->chance(1, 4) ? t : 1 - t]; Q const& co = o; int n = (int)cx.size();
        if (n > 30) { E e = op("clear", t); x.clear(); done(e); return; }
        S const& p = pool[R->below(2)]; size_t f = R->below((int)p.size() + 1), l = R->range(f, (int)p.size()); S y = rnd(6), z = rndz(6), ow{ co.to_std_string_view() };
        size_t of = R->below((int)ow.size() + 1), on = R->chance(1, 4) ? S::npos : R->below(5); S opart = ow.substr(of, on);
        switch (R->below(15))
        {
        case 0: case 1: case 2: // a view or a copy in its place
        {
            E e = op("assign", t); S took;
            switch (R->below(9))
            {
            case 0: case 1: took = p.substr(f, l - f); x = Q{ p.data() + f, l - f }; break;
            case 2: took = p.substr(f, l - f); x = Q{ p.data() + f, p.data() + l }; break;
            case 3: took = p.c_str(); x = Q{ p.c_str() }; break;
            case 4: took = p.c_str(); x = p.c_str(); break;
            case 5: took = y; x = Q{ y }; break;
            case 6: took = ow; x = o; break;
            case 7: took = S(3, 'b'); x = Q(3, 'b'); break;
            default: took = ow; { Q c{ o }; Q m{ std::move(c) }; x = m; } break;
            }
            e.raw("x", A(took)); done(e);
        } break;
        case 3: case 4: // assign
        {
            E e = op("assign", t); S took;
            switch (R->below(8))
            {
            case 0: took = ow; x.assign(o); break;
            case 1: took = y; x.assign(y); break;
            case 2: took = opart; x.assign(o, of, on); break;
            case 3: took = y.substr(0, 2); x.assign(y, 0, 2); break;
            case 4: took = y; x.assign(y.data(), y.size()); break;
            case 5: took = z; x.assign(z.c_str()); break;
            case 6: took = S(4, 'c'); x.assign(4, 'c'); break;
            default: took = y; x.assign(y.begin(), y.end()); break;
            }
            e.raw("x", A(took)); done(e);
        } break;
        case 5: case 6: // append
        {
            E e = op("append", t); S took;
            switch (R->below(13))
            {
            case 0: took = ow; x.append(o); break;
            case 1: took = y; x.append(y); break;
            case 2: took = opart; x.append(o, of, on); break;
            case 3: took = y.substr(0, 2); x.append(y, 0, 2); break;
            case 4: took = y; x.append(y.data(), y.size()); break;
            case 5: took = z; x.append(z.c_str()); break;
            case 6: took = S(2, 'c'); x.append(2, 'c'); break;
            case 7: took = y; x.append(y.begin(), y.end()); break;
            case 8: took = "Z"; x.push_back('Z'); break;
            case 9: took = ow; x += o; break;
            case 10: took = z; x += z.c_str(); break;
            case 11: took = "b"; x += 'b'; break;
            default: took = ow; { Q r = x + o; x = r; } break;
            }
            e.raw("x", A(took)); done(e);
        } break;
        case 7: // insert
        {
            int at = R->range(0, n); E e = op("splice", t); S took;
            switch (R->below(7))
            {
            case 0: took = ow; x.insert(at, o); break;
            case 1: took = y; x.insert(at, y); break;
            case 2: took = opart; x.insert(at, o, of, on); break;
            case 3: took = y; x.insert(at, y.data(), y.size()); break;
            case 4: took = z; x.insert(at, z.c_str()); break;
            case 5: took = S(2, 'c'); x.insert(at, 2, 'c'); break;
            default: took = "Z"; { auto r = x.insert(x.begin() + at, 'Z'); if (r - x.begin() != at) E("disagree").end(); } break;
            }
            e.i("p", at).i("n", 0).raw("x", A(took)); done(e);
        } break;
        case 8: // erase
        {
            int at = R->range(0, n), m = R->below(5); bool rest = R->chance(1, 6); E e = op("splice", t);
            if (rest) { m = n - at; x.erase(at); }
            else if (R->chance(1, 3) && at < n) { m = std::min(m, n - at); if (m == 1) x.erase(x.begin() + at); else x.erase(x.begin() + at, x.begin() + at + m); }
            else x.erase(at, m);
            e.i("p", at).i("n", m).raw("x", "[]"); done(e);
        } break;
        case 9: // replace
        {
            int at = R->range(0, n), m = R->below(5); E e = op("splice", t); S took; int mm = std::min(m, n - at);
            switch (R->below(8))
            {
            case 0: took = ow; x.replace(at, m, o); break;
            case 1: took = y; x.replace(at, m, y); break;
            case 2: took = opart; x.replace(at, m, o, of, on); break;
            case 3: took = y; x.replace(at, m, y.data(), y.size()); break;
            case 4: took = z; x.replace(at, m, z.c_str()); break;
            case 5: took = S(3, 'c'); x.replace(at, m, 3, 'c'); break;
            case 6: took = y; x.replace(x.begin() + at, x.begin() + at + mm, y); break;
            default: took = y; x.replace(x.begin() + at, x.begin() + at + mm, y.begin(), y.end()); break;
            }
            e.i("p", at).i("n", m).raw("x", A(took)); done(e);
        } break;
        case 10: { int m = R->below(14); bool zz = R->chance(1, 2); E e = op("resize", t); if (zz) x.resize(m); else x.resize(m, 'c'); e.i("n", m).i("c", zz ? 0 : 'c'); done(e); } break;
        case 11: if (R->chance(1, 3)) { E e = op("swap", t); q[0].swap(q[1]); done(e); } else if (n) { int at = R->below(n); E e = op("put", t); if (R->chance(1, 2)) x[at] = 'Z'; else if (R->chance(1, 2)) x.at(at) = 'Z'; else { at = n - 1; x.back() = 'Z'; } e.i("p", at).i("c", 'Z'); done(e); } break;
        case 12: case 13: // search
        {
            S w = R->chance(1, 2) ? rndz(2) : S{ 1, "abcZ"[R->below(4)] }; int from = R->chance(1, 4) ? 0 : R->range(0, n); size_t back = R->chance(1, 3) ? S::npos : R->range(0, n); char ch = w.empty() ? 'a' : w[0]; Q qw{ w.c_str(), w.size() };
            int form = R->below(5); auto call = [&](auto g, size_t at) { return P(g(at)); };
            std::vector<long long> r;
#define FORMS(fn, at) (form == 0 ? P(cx.fn(qw, at)) : form == 1 ? P(cx.fn(w, at)) : form == 2 ? P(cx.fn(w.c_str(), at, w.size())) : form == 3 ? P(cx.fn(w.c_str(), at)) : P(cx.fn(ch, at)))
            r = { FORMS(find, from), FORMS(rfind, back), FORMS(find_first_of, from), FORMS(find_first_not_of, from), FORMS(find_last_of, back), FORMS(find_last_not_of, back) };
            if (form == 4) w = S(1, ch);
            bool sw = form == 4 ? cx.starts_with(ch) : form == 3 ? cx.starts_with(w.c_str()) : cx.starts_with(std::string_view{ w });
            char buf[8] = { 0 }; size_t got = cx.copy(buf, R->below(6), from); 
            E e = op("find", t); e.raw("x", A(w)).i("from", from).i("back", back == S::npos ? n + 1 : (long long)back).seq("r", r).b("sw", sw).raw("copy", A(S{ buf, got })).raw("sub", A(cx.substr(from, 3))); done(e);
        } break;
        default: // compare
        {
            int at = R->range(0, n), m = R->chance(1, 4) ? 99 : R->below(5); S part = S{ cx.to_std_string_view() }.substr(at, m); std::vector<long long> c, q, k;
            c = { sgn(cx.compare(o)), sgn(cx.compare(ow)), cx < o ? -1 : cx > o ? 1 : 0 }; q = { cx == o, !(cx != o) };
            k = { sgn(cx.compare(at, m, z)), sgn(cx.compare(at, m, z.c_str())), sgn(cx.compare(at, m, z.c_str(), z.size())), sgn(cx.compare(at, m, z, 0, 99)) };
            E e = op("qcmp", t); e.raw("y", A(ow)).seq("c", c).seq("q", q).i("p", at).i("n", m).raw("z", A(z)).seq("k", k); done(e);
        } break;
        }
    }
};
int main(int, char** v)
{
    S kind = v[1]; vt::Out::get().open(v[2]); E::Out_unbuffered() = false; vt::Rng r(atoll(v[3])); R = &r; long h = atol(v[4]), len = atol(v[5]);
    for (long i = 0; i < h; ++i)
    {
        E("reset").end();
        if (kind == "string") { Strings s; for (long k = 0; k < len; ++k) s.step(); }
        else { Quick s; s.start(); for (long k = 0; k < len; ++k) s.step(); }
    }
    return 0;
}
