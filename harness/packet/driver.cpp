// Packet framing and packet streams over the loopback interface.
// usage: packet_driver frame TRACE SEED ROUNDS OPS | packet_driver stream TRACE SEED ROUNDS OPS
// PACKET 0 string, 1 binary; RXBUF the receive buffer size
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/io/packet_stream.hpp>
#include <memory>
#include <chrono>
#include <thread>
#include "trace.hpp"
using namespace vt;
#ifndef RXBUF
#define RXBUF 1024
#endif
#if PACKET == 1
using P = neolib::binary_packet;
static P make(std::string const& s) { return P{ std::vector<char>(s.begin(), s.end()) }; }
#else
using P = neolib::string_packet;
static P make(std::string const& s) { return P{ s }; }
#endif
using Stream = neolib::packet_stream<P, neolib::tcp_protocol, RXBUF>;
using tcp = boost::asio::ip::tcp;
static std::string text(neolib::i_packet const& p) { return p.empty() ? std::string{} : std::string(p.data(), p.length()); }
static std::vector<int> bytes(std::string const& s) { return std::vector<int>(s.begin(), s.end()); }
static Rng R{ 1 };
static std::string random_text(int n) { std::string s; for (int i = 0; i < n; ++i) { int w = R.below(8); s += w == 0 ? '\r' : w < 3 ? '\n' : char('a' + R.below(3)); } return s; }
static std::string random_packet()
{
    if (PACKET == 1) { std::string s; int n = R.chance(1, 12) ? 0 : R.chance(1, 10) ? R.range(20, 90) : R.range(1, 6); for (int i = 0; i < n; ++i) s += char(R.range(97, 99)); return s; }
    if (R.chance(1, 8)) return random_text(R.range(0, 8)) + "\n";
    if (R.chance(1, 40)) return std::string{};
    std::string s; int n = R.chance(1, 10) ? R.range(20, 70) : R.range(0, 5); for (int i = 0; i < n; ++i) s += char(R.range(97, 99)); return s + (R.chance(1, 2) ? "\r\n" : "\n");
}
static void frame(int rounds, int ops)
{
    for (int k = 0; k < rounds; ++k)
    {
        P p; neolib::i_packet& ip = p; E("reset").end();
        for (int j = 0; j < ops; ++j)
        {
            int w = R.below(20);
            if (w == 0) { ip.clear(); E("clear").end(); }
            else if (w == 1) { auto c = ip.clone(); P d = make("zz"); d.copy_from(ip); P e = make("y"); e = p; E("copy").seq("a", bytes(text(*c))).seq("b", bytes(text(d))).seq("c", bytes(text(e))).end(); }
            std::string s = random_text(R.below(7)); std::string held = s; char const* f = s.data(); char const* l = s.data() + s.size(); std::vector<std::vector<int>> out; int spin = 0;
            while (ip.take_some(f, l)) { if (!ip.empty()) { out.push_back(bytes(text(ip))); ip.clear(); } if (++spin > 100) break; }
            std::string o; for (auto const& x : out) { if (!o.empty()) o += ','; std::string i; for (int b : x) { if (!i.empty()) i += ','; i += std::to_string(b); } o += "[" + i + "]"; }
            E("feed").seq("x", bytes(s)).raw("out", "[" + o + "]").seq("rest", bytes(text(ip))).b("all", f == l && spin <= 100).b("len", ip.length() == text(ip).size() && ip.empty() == text(ip).empty() && std::string(ip.begin(), ip.end()) == text(ip)).end();
        }
    }
}
struct Net
{
    struct Task : neolib::async_task {};
    std::unique_ptr<Task> task = std::make_unique<Task>();
    std::unique_ptr<tcp::acceptor> acc; std::unique_ptr<Stream> s[2]; std::unique_ptr<tcp::socket> raw, pendingRaw; bool accepting = false, rawMode = false; int depth = 0;
    std::unique_ptr<neolib::sink> k[2]; std::string out[2], rawIn; long expect[2] = { 0, 0 }, arrived[2] = { 0, 0 }; bool failed = false; bool clean = false; int gen[2] = { 0, 0 };
    boost::asio::io_context& io() { return task->io_context().native_object<boost::asio::io_context>(); }
    void start() { acc = std::make_unique<tcp::acceptor>(io(), tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); acc->non_blocking(true); }
    void poll() { task->io_context().poll(); }
    void look(int i) { E("look").i("s", i).b("opened", s[i]->opened()).b("closed", s[i]->closed()).b("conn", s[i]->connected()).b("under", s[i]->underflow()).end(); }
    // a callback may destroy what holds it
    void hooks(int i)
    {
        k[i] = std::make_unique<neolib::sink>(); auto& S = *s[i];
        *k[i] += S.connection_established([this, i]() { established(i); });
        *k[i] += S.connection_failure([this, i](boost::system::error_code const&) { connectFailed(i); });
        *k[i] += S.packet_sent([this, i](P const& p) { packetSent(i, p); });
        *k[i] += S.packet_arrived([this, i](P const& p) { packetArrived(i, p); });
        *k[i] += S.transfer_failure([this, i](boost::system::error_code const&) { clean = false; E("tfail").i("s", i).end(); });
        *k[i] += S.connection_closed([this, i]() { connectionClosed(i); });
    }
    void established(int i) { E("est").i("s", i).end(); int g = gen[i]; react(i); if (s[i] && g == gen[i]) E("estend").i("s", i).end(); }
    void connectFailed(int i) { clean = false; failed = true; E("fail").i("s", i).end(); react(i); }
    void packetSent(int i, P const& p) { E("sent").i("s", i).seq("x", bytes(text(p))).end(); int g = gen[i]; react(i); if (s[i] && g == gen[i]) E("sentend").i("s", i).end(); }
    void packetArrived(int i, P const& p) { arrived[i] += PACKET ? (long)p.length() : 1; E("arr").i("s", i).seq("x", bytes(text(p))).end(); react(i); }
    void connectionClosed(int i) { clean = false; forget(i); ++gen[i]; E("closed").i("s", i).end(); if (!destroying[i]) react(i); }
    bool destroying[2] = { false, false };
    void forget(int i) { out[i] = ""; expect[i] = 0; }
    void create(int i) { forget(i); s[i] = std::make_unique<Stream>(*task); ++gen[i]; E("new").i("s", i).end(); hooks(i); }
    void destroy(int i) { clean = false; ++gen[i]; E("destroy").i("s", i).end(); auto t = std::move(s[i]); destroying[i] = true; t.reset(); destroying[i] = false; E("destroyed").i("s", i).end(); }
    void close(int i) { clean = false; forget(i); ++gen[i]; E("close").i("s", i).end(); s[i]->close(); if (s[i]) E("closeend").i("s", i).end(); }
    void send(int i)
    {
        std::string t = random_packet(); bool hi = R.chance(1, 4); E("send").i("s", i).seq("x", bytes(t)).b("hi", hi).end(); out[i] += t; expect[i] += count(t);
        s[i]->send_packet(make(t), hi);
    }
    // what callbacks do
    void react(int i)
    {
        if (depth > 0 || !s[i]) return; 
        ++depth; int w = R.below(40);
        if (w < 4) send(i);
        else if (w == 4) close(i);
        else if (w == 5) { close(i); if (i == 0 && R.chance(1, 2)) open(); }
        else if (w == 6 && i == 0 && s[i]->closed()) open();
        else if (w == 7) destroy(i);
        --depth;
    }
    void open()
    {
        if (s[0]->opened()) { bool t = false; try { s[0]->open("127.0.0.1", port()); } catch (std::logic_error const&) { t = true; } E("already").i("s", 0).b("thrown", t).end(); return; }
        drop(); bool bad = R.chance(1, 12); E("open").i("s", 0).end(); clean = true; accepting = !bad; arrived[0] = arrived[1] = 0; forget(1); failed = false; rawIn = ""; rawMode = R.chance(1, 2); ++gen[0];
        s[0]->open("127.0.0.1", bad ? deadPort() : port());
    }
    unsigned short port() { return acc->local_endpoint().port(); }
    unsigned short deadPort() { tcp::acceptor a(io(), tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), 0)); return a.local_endpoint().port(); }
    // the other end and anything waiting to be accepted go
    void drop()
    {
        if (s[1]) destroy(1);
        if (raw) { raw.reset(); E("rclose").end(); }
        boost::system::error_code ec; for (;;) { tcp::socket t(io()); acc->accept(t, ec); if (ec) break; }
        accepting = false;
    }
    void accept()
    {
        if (!accepting || !s[0] || !s[0]->opened()) return; boost::system::error_code ec;
        if (rawMode) { tcp::socket t(io()); acc->accept(t, ec); if (!ec) { raw = std::make_unique<tcp::socket>(std::move(t)); raw->non_blocking(true); raw->set_option(tcp::no_delay(true)); accepting = false; E("raccept").end(); } }
        else
        {
            tcp::socket t(io()); acc->accept(t, ec); if (ec) return; accepting = false; if (s[1]) destroy(1);
            create(1); int n = R.below(3); for (int j = 0; j < n; ++j) send(1);
            s[1]->connection().open(true); s[1]->connection().socket() = std::move(t); E("accept").i("s", 1).end(); s[1]->connection().server_accept();
        }
    }
    void rawRead()
    {
        if (!raw) return; char b[64]; boost::system::error_code ec; auto n = raw->read_some(boost::asio::buffer(b, (size_t)R.range(1, 64)), ec);
        if (!ec && n) { std::string t(b, n); rawIn += t; E("rrecv").seq("x", bytes(t)).end(); }
    }
    void rawSend()
    {
        if (!raw) return; std::string t = random_text(R.range(1, 6)); if (PACKET == 0 && R.chance(1, 3)) t += "\r\n"; boost::system::error_code ec; E("rsend").seq("x", bytes(t)).end(); out[1] += t; expect[1] = count(out[1]); boost::asio::write(*raw, boost::asio::buffer(t), ec);
    }
    static long count(std::string const& t) { if (PACKET) return (long)t.size(); long n = 0; bool in = false; for (char c : t) { if (c == '\r' || c == '\n') { if (in) ++n; in = false; } else in = true; } return n; }
    void pump(int n) { for (int j = 0; j < n; ++j) { accept(); poll(); if (R.chance(1, 2)) rawRead(); } }
    // an end that is connected and unharmed gets to deliver all it has
    void settle()
    {
        auto t0 = std::chrono::steady_clock::now();
        for (int j = 0; ; ++j)
        {
            accept(); poll(); rawRead();
            if (!s[0]) break;
            bool opening = s[0]->opened() && !s[0]->connected() && !failed;
            bool done = clean && s[0]->connected() && (rawMode ? raw && rawIn.size() >= out[0].size() : s[1] && s[1]->connected() && s[1]->underflow() && arrived[1] >= expect[0]) && s[0]->underflow() && arrived[0] >= expect[1];
            if (done || (!clean && j > 20 && !opening)) break;
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) break;
            if (j > 3) std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        if (clean && s[0] && s[0]->connected()) E("settled").b("raw", rawMode).end();
    }
    void step()
    {
        if (!s[0]) create(0);
        int w = R.below(100); int i = rawMode || !s[1] ? 0 : R.below(2);
        if (w < 30) send(i);
        else if (w < 45) rawSend();
        else if (w < 75) pump(R.range(1, 4));
        else if (w < 78) { if (s[i]) close(i); }
        else if (w < 80) destroy(i);
        else if (w < 82) { if (raw) { clean = false; raw.reset(); E("rclose").end(); } }
        else if (w < 92) { if (s[0]->closed() || R.chance(1, 20)) open(); }
        else if (w < 96) settle();
        if (s[0]) look(0);
    }
};
static void streams(int rounds, int ops)
{
    for (int k = 0; k < rounds; ++k)
    {
        E("reset").end(); Net n; n.start(); for (int j = 0; j < ops; ++j) n.step();
        n.settle(); if (n.s[0]) n.destroy(0); if (n.s[1]) n.destroy(1); n.raw.reset(); for (int j = 0; j < 10; ++j) n.poll();
        n.acc.reset(); 
    }
}
int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    neolib::services::allocate_service_provider();
    Out::get().open(argv[2]); E::Out_unbuffered() = true; R = Rng(std::strtoull(argv[3], nullptr, 10));
    if (!std::strcmp(argv[1], "frame")) frame(std::atoi(argv[4]), std::atoi(argv[5])); else streams(std::atoi(argv[4]), std::atoi(argv[5]));
    std::fflush(nullptr); Out::get().flush(); _exit(0);
}
