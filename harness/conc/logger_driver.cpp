// neolib::logger under scheduled threads: driver rand TRACE SEED HIST LEN
#include <neolib/app/logger.hpp>
#include <neolib/app/ostream_logger.hpp>
#include <thread>
#include <memory>
#include <array>
#include "sched.hpp"
using namespace vt; namespace lg = neolib::logger;
static std::string sBad;
static void written(int i, std::string const& s)
{
    if (s.empty()) return;
    std::string o; std::size_t p = 0; bool ok = true; // <line:id>\n or <line:id>
    while (p < s.size())
    {
        int line = 0, id = 0, n = 0;
        if (std::sscanf(s.c_str() + p, "<%d:%d>%n", &line, &id, &n) != 2 || n == 0) { ok = false; break; }
        p += n; if (p < s.size() && s[p] == '\n') ++p;
        o += (o.empty() ? "" : ",") + std::string("{\"line\":") + std::to_string(line) + ",\"id\":" + std::to_string(id) + "}";
    }
    if (!ok) put(E("garbled").str("s", s)); else put(E("write").i("lg", i + 1).raw("items", "[" + o + "]"));
}
template <std::size_t I> struct Log : lg::logger<I>
{
    using lg::logger<I>::finalize; using lg::logger<I>::commit;
    ~Log() { finalize(); }
    void commit(std::string const& b) override { std::string copy = b; for (int i = 0; i < 3; ++i) sched::point(); if (copy != b) put(E("garbled").str("s", b)); written(I, b); }
};
struct Sink : std::streambuf { int i; std::string s; Sink(int n) : i(n) {} int overflow(int ch) override { s += (char)ch; return ch; } std::streamsize xsputn(char const* p, std::streamsize n) override { s.append(p, n); sched::point(); return n; } int sync() override { written(i, s); s.clear(); return 0; } };
static void history(uint64_t seed, int len)
{
    Rng r(seed); int n = r.range(1, 3);
    sched::onStuck([](const char* w) { put(E("stuck").str("why", w)); });
    neolib::services::allocate_service_provider();
    bool fm[3]; for (auto& f : fm) f = r.below(2);
    put(E("reset").i("n", n).raw("fmt", std::string("[") + (fm[0] ? "true," : "false,") + (fm[1] ? "true," : "false,") + (fm[2] ? "true]" : "false]")));
    Sink sink(2); auto os = std::make_unique<std::ostream>(&sink);
    auto a = std::make_unique<Log<0>>(); auto b = std::make_unique<Log<1>>(); auto o = std::make_unique<lg::ostream_logger<2>>(*os);
    std::array<lg::i_logger*, 3> g{ a.get(), b.get(), o.get() };
    auto gp = g; lg::formatter f{ [gp](lg::i_logger const& l, neolib::i_string const& x, neolib::i_string& y) { std::string s = x.to_std_string(); auto k = s.find('<'); int w = 0; for (int i = 0; i < 3; ++i) if (gp[i] == &l) w = i + 1; int id = std::atoi(s.c_str() + s.find(':') + 1); put(E("format").i("t", id / 100).i("lg", w).i("id", id).i("line", l.line_id())); y = neolib::string{ s.substr(0, k + 1) + std::to_string(l.line_id()) + s.substr(s.find(':')) }; } };
    for (int i = 0; i < 3; ++i) if (fm[i]) g[i]->set_formatter(f);
    auto call = [&](int t, const char* op, int i, int x = 0) { put(E("call").i("t", t).str("op", op).i("lg", i + 1).i("a", x)); };
    auto ret = [&](int t, const char* op, std::string res = "ok") { put(E("ret").i("t", t).str("op", op).str("res", res)); };
    bool threads = r.below(3);
    auto body = [&](int t, uint64_t s)
    {
        Rng q(s); int next = 0;
        for (int k = 0; k < len; ++k)
        {
            int i = q.below(3), op = q.below(threads ? 30 : 26);
            if (op < 12)
            {
                if (q.below(2)) { int x = q.below(5) + 1; call(t, "sev", i, x); *g[i] << static_cast<lg::severity>(x); ret(t, "sev"); }
                if (q.below(3) == 0) { int x = q.below(3); call(t, "cat", i, x); if (q.below(2)) *g[i] << lg::category{ x }; else *g[i] << static_cast<lg::category_id>(x); ret(t, "cat"); }
                int id = t * 100 + next++; call(t, "flush", i, id);
                *g[i] << "<0:" << id << ">"; if (q.below(2)) *g[i] << std::endl; else *g[i] << std::flush;
                ret(t, "flush");
            }
            else if (op < 14) { int x = q.below(5); call(t, "filter", i, x); g[i]->set_filter_severity(static_cast<lg::severity>(x)); ret(t, "filter"); }
            else if (op == 14) { int x = q.below(3); call(t, "register", i, x); g[i]->register_category(x, "c"); ret(t, "register"); }
            else if (op == 15) { int x = q.below(3); call(t, "enable", i, x); g[i]->enable_category(x); ret(t, "enable"); }
            else if (op == 16) { int x = q.below(3); call(t, "disable", i, x); g[i]->disable_category(x); ret(t, "disable"); }
            else if (op == 17) { int x = q.range(2, 3); call(t, "copy", 0, x); g[0]->copy_to(*g[x - 1]); ret(t, "copy"); }
            else if (op == 18) { int x = q.range(2, 3); call(t, "uncopy", 0, x); g[0]->cancel_copy_to(*g[x - 1]); ret(t, "uncopy"); }
            else if (op < 22) { call(t, "commit", i); g[i]->commit(); ret(t, "commit"); }
            else if (op < 23) { call(t, "wait", i); g[i]->wait(); ret(t, "wait"); }
            else if (op == 23) switch (q.below(3))
            {
            case 0: call(t, "filter?", i); ret(t, "filter?", std::to_string((int)g[i]->filter_severity())); break;
            case 1: { int x = q.below(3); call(t, "enabled?", i, x); ret(t, "enabled?", g[i]->category_enabled(static_cast<lg::category_id>(x)) ? "true" : "false"); } break;
            default: call(t, "thread?", i); ret(t, "thread?", g[i]->has_logging_thread() ? "true" : "false"); break;
            }
            else if (op < 26) std::this_thread::yield();
            else if (op < 28) { call(t, "thread", i); std::string x = "ok"; try { g[i]->create_logging_thread(); } catch (lg::i_logger::logging_thread_already_created&) { x = "already"; } ret(t, "thread", x); }
            else { call(t, "wait", i); g[i]->wait(); ret(t, "wait"); }
        }
    };
    { std::vector<std::thread> ts; for (int i = 1; i < n; ++i) ts.emplace_back(body, i + 1, r.next()); body(1, r.next()); for (auto& t : ts) t.join(); }
    for (int i = 0; i < 3; ++i)
    {
        int x = r.below(4);
        if (x == 0) { call(1, "commit", i); g[i]->commit(); ret(1, "commit"); }
        else if (x == 1) { call(1, "wait", i); g[i]->wait(); ret(1, "wait"); }
        call(1, "line", i); ret(1, "line", std::to_string(g[i]->line_id()));
    }
    if (r.below(3) == 0)
    {
        call(1, "finalize", 0); a->finalize(); ret(1, "finalize");
        int id = 199; call(1, "sev", 0, 4); *g[0] << lg::severity::Error; ret(1, "sev"); call(1, "flush", 0, id); *g[0] << "<0:" << id << ">" << std::endl; ret(1, "flush");
    }
    call(1, "destroy", 0); a.reset(); ret(1, "destroy"); call(1, "destroy", 1); b.reset(); ret(1, "destroy"); call(1, "destroy", 2); o.reset(); ret(1, "destroy");
    put(E("done"));
}
int main(int argc, char** argv)
{
    if (argc < 6) return 3; int len = std::atoi(argv[5]);
    return sched::histories(argv[2], std::strtoull(argv[3], 0, 10), std::atoi(argv[4]), [&](uint64_t s) { history(s, len); });
}
