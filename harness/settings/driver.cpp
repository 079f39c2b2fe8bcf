// Settings of several types, their manager and its file, under random histories; every announcement is recorded with what
// its handler sees. usage: settings_driver rand TRACE SEED ROUNDS OPS SCRATCHDIR
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/core/string_utils.hpp>
#include <neolib/app/settings.hpp>
#include <memory>
#include <set>
#include <algorithm>
#include <unistd.h>
#include "trace.hpp"
using namespace vt;
using neolib::string;
enum class Colour { Red, Green, Blue };
begin_declare_enum(Colour)
declare_enum_string(Colour, Red)
declare_enum_string(Colour, Green)
declare_enum_string(Colour, Blue)
end_declare_enum(Colour)
inline std::ostream& operator<<(std::ostream& o, Colour const& c) { return o << neolib::enum_to_string<Colour, std::string>(c); }
inline std::istream& operator>>(std::istream& i, Colour& c) { std::string s; i >> s; c = neolib::string_to_enum<Colour>(s); return i; }
using Settings = neolib::settings;
using ISetting = neolib::i_setting;
using Ann = std::vector<int>;
static std::vector<Ann>* gAnn = nullptr;
// a kind of setting: its key, its type and the values used with it (1..)
struct Kind
{
    std::string key;
    Kind(std::string k) : key(k) {}
    virtual ~Kind() = default;
    virtual int count() const = 0;
    virtual ISetting& reg(neolib::i_settings& s, int def, bool opt, bool dis, bool cons) = 0;
    virtual int get(ISetting const& s, bool n) const = 0;
    virtual int def(ISetting const& s) const = 0;
    virtual int mod(ISetting const& s) const = 0;      // the pending value: 0 cleared
    virtual void set(ISetting& s, int v, int how) const = 0;
    virtual void setDef(ISetting& s, int v) const = 0;
    virtual void change(neolib::i_settings& m, ISetting& s, int v, bool now) const = 0;
    virtual std::vector<int> cons(ISetting const& s) const = 0;
    virtual bool asString(ISetting const& s, bool n) const = 0;
};
template <typename T> struct KindOf : Kind
{
    std::vector<T> vals;
    KindOf(std::string k, std::vector<T> v) : Kind(k), vals(v) {}
    int count() const override { return (int)vals.size(); }
    int idx(T const& v) const { for (size_t i = 0; i < vals.size(); ++i) if (vals[i] == v) return (int)i + 1; return 99; }
    T val(int i) const { return vals[(size_t)i - 1]; }
    using V = neolib::setting_value<T>;
    ISetting& reg(neolib::i_settings& s, int def, bool opt, bool dis, bool cons) override
    {
        string k{ key }; T d = val(def);
        if (!cons) { if (!opt && !dis) return s.register_setting(k, d); return s.register_setting(k, d, neolib::setting_constraints<T>{ opt, dis }); }
        neolib::vector<V> allow; for (auto const& v : vals) allow.push_back(V{ T(v) });
        return s.register_setting(k, d, neolib::setting_constraints<T>{ opt, dis, V{ val(1) }, V{ val(count()) }, V{ val(2) }, allow }, string{ "fmt" });
    }
    T conv(neolib::i_setting_value const& v) const { return T(v.template get<T>()); }
    int get(ISetting const& s, bool n) const override { return idx(conv(s.value(n))); }
    int def(ISetting const& s) const override { return idx(conv(s.default_value())); }
    int mod(ISetting const& s) const override { auto const& v = s.modified_value(); return v.is_set() ? idx(conv(v)) : 0; }
    void set(ISetting& s, int v, int how) const override
    {
        switch (how)
        {
        case 0: s.set_value(static_cast<neolib::i_setting_value const&>(V{ val(v) })); break;
        case 1: s.set_value(val(v)); break;
        case 2: s = static_cast<neolib::i_setting_value const&>(V{ val(v) }); break;
        case 3: s = val(v); break;
        case 4: s.set_value_from_string(string{ str(val(v)) }); break;
        default: s.apply_value(val(v)); break;
        }
    }
    static std::string str(T const& v) { if constexpr (std::is_same_v<T, string>) return v.to_std_string(); else { std::ostringstream o; o.precision(17); if constexpr (sizeof(T) == 1 && std::is_integral_v<T>) o << (int)v; else o << v; return o.str(); } }
    void setDef(ISetting& s, int v) const override { if (v & 1) s.set_default_value(static_cast<neolib::i_setting_value const&>(V{ val(v) })); else s.set_default_value(val(v)); }
    void change(neolib::i_settings& m, ISetting& s, int v, bool now) const override { m.change_setting(s, val(v), now); }
    bool asString(ISetting const& s, bool n) const override
    {
        // the text of a value, given back, denotes that value
        auto t = s.value_as_string(n); auto d = neolib::make_ref<neolib::setting<T>>(s.manager(), string{ "scratch" }, vals[0] == conv(s.value(n)) ? vals[1] : vals[0]);
        auto* keep = gAnn; gAnn = nullptr; d->set_value_from_string(string{ t }); bool r = conv(d->value(true)) == conv(s.value(n)); gAnn = keep; return r;
    }
    std::vector<int> cons(ISetting const& s) const override
    {
        auto const& c = s.constraints(); std::vector<int> r{ c.optional(), c.initially_disabled(), 0, 0, 0, 0 };
        if (c.has_minimum_value()) r[2] = idx(conv(c.minimum_value()));
        if (c.has_maximum_value()) r[3] = idx(conv(c.maximum_value()));
        if (c.has_step_value()) r[4] = idx(conv(c.step_value()));
        if (c.has_allowable_values()) { auto const& a = static_cast<neolib::setting_constraints<T> const&>(c).allowable_values(); int n = 0; bool ok = true; for (auto const& v : a) { ++n; if (idx(conv(v)) != n) ok = false; } r[5] = ok ? n : 99; }
        return r;
    }
};
// keys in the order of their text; some are prefixes of others
static std::vector<std::unique_ptr<Kind>> kinds()
{
    std::vector<std::unique_ptr<Kind>> k;
    k.push_back(std::make_unique<KindOf<std::int32_t>>("a", std::vector<std::int32_t>{ -5, 0, 7, 2147483647 }));
    k.push_back(std::make_unique<KindOf<string>>("a.b", std::vector<string>{ string{ "plain" }, string{ " <x> & \"y\" 'z' " }, string{ "" }, string{ "l1\nl2\t&amp;\xc3\xa9]]>" } }));
    k.push_back(std::make_unique<KindOf<double>>("a.b.c", std::vector<double>{ 1.5, 0.123456789012345, -1e300, 1.0 / 3 }));
    k.push_back(std::make_unique<KindOf<bool>>("ab", std::vector<bool>{ false, true }));
    k.push_back(std::make_unique<KindOf<std::int8_t>>("b.x", std::vector<std::int8_t>{ 32, 0, -128, 60 }));
    k.push_back(std::make_unique<KindOf<Colour>>("b.x1.y", std::vector<Colour>{ Colour::Red, Colour::Green, Colour::Blue }));
    k.push_back(std::make_unique<KindOf<std::uint64_t>>("c.b", std::vector<std::uint64_t>{ 0, 18446744073709551615ull, 9 }));
    return k;
}
static std::vector<std::string> const CATS{ "a", "ab", "b", "c" };
struct Driver
{
    Rng r; std::string file; bool filed; std::vector<std::unique_ptr<Kind>> K = kinds(); neolib::ref_ptr<Settings> s; std::vector<Ann> ann;
    std::vector<ISetting*> p; neolib::sink sink; std::vector<neolib::ref_ptr<ISetting>> deleted;
    Driver(uint64_t seed, std::string dir) : r(seed), file(dir + "/settings.xml") { p.resize(K.size()); gAnn = &ann; }
    int which(ISetting const& x) { for (size_t i = 0; i < K.size(); ++i) if (p[i] == &x) return (int)i; return -1; }
    void note(int kind, int k) { if (!gAnn) return; ann.push_back(k < 0 ? Ann{ kind, 99, 0, 0 } : Ann{ kind, k + 1, K[k]->get(*p[k], false), K[k]->get(*p[k], true) }); }
    void open()
    {
        sink = neolib::sink{};
        s = neolib::make_ref<Settings>(string{ filed ? file : std::string{} });
        std::fill(p.begin(), p.end(), nullptr);
        sink += s->setting_changing([this](ISetting const& x) { note(3, which(x)); });
        sink += s->setting_changed([this](ISetting const& x) { note(4, which(x)); });
        sink += s->setting_deleted([this](ISetting const& x) { note(5, which(x)); });
        sink += s->settings_changed([this](neolib::i_string const& c) { auto i = std::find(CATS.begin(), CATS.end(), c.to_std_string()); if (gAnn) ann.push_back(Ann{ 6, i == CATS.end() ? 99 : int(i - CATS.begin()) + 1, 0, 0 }); });
    }
    void fin(E& e)
    {
        std::sort(ann.begin(), ann.end()); std::string a = "[";
        for (auto const& x : ann) { if (a.size() > 1) a += ','; a += "[" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + "," + std::to_string(x[3]) + "]"; }
        e.raw("ann", a + "]"); ann.clear();
        e.b("dirty", s->modified());
        std::string v = "["; int n = 0, m = 0; bool found = true;
        for (auto const& x : s->all_settings()) { ++n; found = found && which(*x.second()) >= 0 && K[which(*x.second())]->key == x.first().to_std_string(); }
        std::string o;
        for (auto const& x : s->all_settings_ordered()) { ++m; int w = which(*x); if (!o.empty()) o += ','; o += std::to_string(w + 1); }
        e.raw("order", "[" + o + "]");
        for (size_t k = 0; k < K.size(); ++k) if (p[k])
        {
            auto& x = *p[k]; Settings const& cs = *s; found = found && &s->setting(string{ K[k]->key }) == &x && &cs.setting(string{ K[k]->key }) == &x && x.key().to_std_string() == K[k]->key && &x.manager() == &*s && x.enabled() == x.is_enabled();
            found = found && K[k]->asString(x, false) && K[k]->asString(x, true);
            if (v.size() > 1) v += ','; 
            v += "{\"k\":" + std::to_string(k + 1) + ",\"def\":" + std::to_string(K[k]->def(x)) + ",\"v\":" + std::to_string(K[k]->get(x, false)) + ",\"n\":" + std::to_string(K[k]->get(x, true))
              + ",\"isdef\":" + (x.is_default() ? "true" : "false") + ",\"isdefn\":" + (x.is_default(true) ? "true" : "false") + ",\"mod\":" + (x.modified() ? "true" : "false") + ",\"en\":" + (x.is_enabled() ? "true" : "false") + "}";
        }
        e.raw("view", v + "]"); e.b("found", found && n == m); e.end();
    }
    void reset() { filed = !r.chance(1, 6); ::unlink(file.c_str()); deleted.clear(); open(); E e("reset"); e.b("file", filed); fin(e); }
    void reg(int k)
    {
        int d = r.range(1, K[k]->count()); bool opt = r.chance(2, 3), dis = r.chance(1, 6), cons = r.chance(1, 2); bool dup = p[k] != nullptr; std::string res = "ok"; std::vector<int> c;
        try
        {
            auto& x = K[k]->reg(*s, d, opt, dis, cons); p[k] = &x; c = K[k]->cons(x);
            sink += x.changing([this, k]() { note(1, p[k] ? k : -1); }); sink += x.changed([this, k]() { note(2, p[k] ? k : -1); });
        }
        catch (neolib::i_settings::setting_already_registered const&) { res = "already"; }
        (void)dup;
        E e("reg"); e.i("k", k + 1).i("d", d).b("opt", opt).b("dis", dis).i("n", cons ? K[k]->count() : 0).str("res", res).seq("cons", c); fin(e);
    }
    void remove(int k)
    {
        auto& x = *p[k]; if (r.chance(1, 2)) deleted.push_back(neolib::ref_ptr<ISetting>{ x }); // kept alive by someone else
        s->delete_setting(x); p[k] = nullptr; E e("delete"); e.i("k", k + 1); fin(e);
    }
    void befriend(int k) { string text{ "w" + std::to_string(r.below(2)) }, f{ "f" + std::to_string(r.below(9)) }; s->register_friendly_text(*p[k], text, f); E e("friend"); e.i("k", k + 1).str("t", text.to_std_string()).str("f", f.to_std_string()); fin(e); }
    void friendly(int k) { string text{ "w" + std::to_string(r.below(2)) }; E e("friendly"); e.i("k", k + 1).str("t", text.to_std_string()).str("f", s->friendly_text(*p[k], text).to_std_string()); fin(e); }
    void step()
    {
        int k = r.below((int)K.size()); int w = r.below(100);
        if (w < 14) return reg(k);
        if (w >= 92)
        {
            if (w < 94)
            {
                if (r.chance(1, 2)) return;
                { sink = neolib::sink{}; s.reset(); open(); E e("reopen"); fin(e); } return;
            }
            if (w < 95) { s->save(); E e("save"); fin(e); return; }
            if (w < 96) { s->load(); E e("load"); fin(e); return; }
            int c = r.below((int)CATS.size()), t = r.below(3); bool grp = r.chance(1, 2); std::string name = grp ? CATS[c] + (t == 1 ? ".g" : ".g.h") : CATS[c];
            if (r.chance(1, 3))
            {
                int g = r.below(9); string title{ "t" + std::to_string(g) };
                if (grp) s->register_group(string{ name }, title); else s->register_category(string{ name }, title);
                E e("title"); e.str("name", name).b("grp", grp).str("t", title.to_std_string()); fin(e); return;
            }
            std::string res;
            try { res = (grp ? s->group_title(string{ name }) : s->category_title(string{ name })).to_std_string(); }
            catch (neolib::i_settings::category_not_found const&) { res = "none"; }
            catch (neolib::i_settings::group_not_found const&) { res = "none"; }
            int n = 0; for (auto const& x : s->all_categories()) ++n, (void)x; int m = 0; for (auto const& x : s->all_groups()) for (auto const& y : x.second()) ++m, (void)y;
            E e("titled"); e.str("name", name).b("grp", grp).str("t", res).i("cats", n).i("groups", m); fin(e); return;
        }
        if (w < 20) { s->apply_changes(); E e("apply"); fin(e); return; }
        if (w < 25) { s->discard_changes(); E e("discard"); fin(e); return; }
        if (!p[k])
        {
            bool thrown = false; try { (void)s->setting(string{ K[k]->key }); } catch (neolib::i_settings::setting_not_found const&) { thrown = true; }
            E e("missing"); e.i("k", k + 1).b("thrown", thrown); fin(e); return;
        }
        if (r.chance(1, 40)) { befriend(k); remove(k); reg(k); return friendly(k); }
        auto& x = *p[k]; int v = r.range(1, K[k]->count());
        if (w < 50) { int how = r.below(6); K[k]->set(x, v, how); E e("set"); e.i("k", k + 1).i("x", v).b("now", how == 5); fin(e); return; }
        if (w < 58) { std::string res = "ok"; try { x.clear(); } catch (ISetting::setting_not_optional const&) { res = "notoptional"; } E e("clear"); e.i("k", k + 1).str("res", res); fin(e); return; }
        if (w < 64) { K[k]->setDef(x, v); E e("setdef"); e.i("k", k + 1).i("x", v); fin(e); return; }
        if (w < 68) { bool en = r.chance(1, 2); if (en && r.chance(1, 2)) x.enable(); else x.set_enabled(en); E e("enable"); e.i("k", k + 1).b("on", en); fin(e); return; }
        if (w < 76) { bool now = r.chance(1, 2); K[k]->change(*s, x, v, now); E e("change"); e.i("k", k + 1).i("x", v).b("now", now); fin(e); return; }
        if (w < 80) return remove(k);
        if (w < 84) { int res = -1; try { res = K[k]->mod(x); } catch (ISetting::setting_not_modified const&) {} E e("pending"); e.i("k", k + 1).i("res", res); fin(e); return; }
        if (r.chance(1, 3)) befriend(k); else friendly(k);
    }
};
int main(int argc, char** argv)
{
    if (argc < 7) return 2;
    neolib::services::allocate_service_provider();
    Out::get().open(argv[2]); E::Out_unbuffered() = true;
    uint64_t seed = std::strtoull(argv[3], nullptr, 10); int rounds = std::atoi(argv[4]), ops = std::atoi(argv[5]);
    Driver d(seed, argv[6]);
    for (int i = 0; i < rounds; ++i) { d.reset(); for (int j = 0; j < ops; ++j) d.step(); }
    d.sink = neolib::sink{}; d.s.reset(); ::unlink(d.file.c_str());
    std::fflush(nullptr); Out::get().flush(); _exit(0);
}
