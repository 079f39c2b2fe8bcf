// Pool, reserve and small-buffer allocators under random histories; the addresses handed out and the contents of every
// block in use are recorded after each call.
#include <neolib/core/vecarray.hpp>
#include <neolib/core/allocator.hpp>
#include <map>
#include <sstream>
#include <optional>
#include "trace.hpp"
using namespace vt;
static long long news, dels;
static void* heap(std::size_t n, std::size_t a) { ++news; void* p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1); if (!p) throw std::bad_alloc{}; return p; }
void* operator new(std::size_t n) { return heap(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return heap(n, (std::size_t)a); }
void operator delete(void* p) noexcept { ++dels; free(p); }
void operator delete(void* p, std::size_t) noexcept { ++dels; free(p); }
void operator delete(void* p, std::align_val_t) noexcept { ++dels; free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { ++dels; free(p); }
template <std::size_t S, std::size_t A> struct alignas(A) Item { unsigned char b[S]; };
struct Block { unsigned char* p; int n; int pat; };
struct Book
{
    std::map<int, Block> blocks; int top = 0; std::size_t size; Rng r;
    Book(std::size_t s, uint64_t seed) : size{ s }, r{ seed } {}
    static std::string where(void* p) { auto a = (uintptr_t)p; return "[" + std::to_string(a >> 24) + "," + std::to_string(a & 0xffffff) + "]"; }
    int look(Block const& b) { for (std::size_t i = 0; i < b.n * size; ++i) if (b.p[i] != b.pat) return -1; return b.pat; }
    void end(E& e)
    {
        if (blocks.empty()) top = 0; // names start again
        std::vector<int> f; for (int i = 1; i <= top; ++i) f.push_back(blocks.count(i) ? look(blocks[i]) : 0);
        e.i("top", top).seq("found", f).end();
    }
    int name() { for (int i = 1;; ++i) if (!blocks.count(i)) return i; }
};
template <typename Alloc, typename T> struct History
{
    Book book; Alloc& al; std::string kind; void* lo = nullptr; void* hi = nullptr; std::function<void()> recycle; std::function<void()> extra;
    History(Alloc& a, std::string k, uint64_t seed) : book{ sizeof(T), seed }, al{ a }, kind{ k } {}
    void reset(int cap, int free) { E e("reset"); e.str("kind", kind).i("cap", cap).i("free", free); book.end(e); }
    void take(int n)
    {
        T* p; auto n0 = news, d0 = dels;
        try { p = al.allocate(n); } catch (std::bad_alloc const&) { E e("refused"); e.i("n", n); book.end(e); return; }
        auto dn = news - n0, dd = dels - d0; int id = book.name(); int pat = book.r.range(1, 255);
        std::memset((void*)p, pat, n * sizeof(T)); book.blocks[id] = Block{ (unsigned char*)p, n, pat }; if (id > book.top) book.top = id;
        E e("take"); e.i("id", id).i("n", n).raw("at", Book::where(p)).i("size", n * sizeof(T)).i("align", alignof(T)).i("pat", pat).i("news", dn).i("dels", dd).b("own", (void*)p >= lo && (void*)p < hi); book.end(e);
    }
    void give(int id)
    {
        auto b = book.blocks[id]; int had = book.look(b); auto d0 = dels; al.deallocate((T*)b.p, b.n); auto dd = dels - d0; book.blocks.erase(id);
        E e("give"); e.i("id", id).i("n", b.n).i("had", had).i("dels", dd); book.end(e);
    }
    int any() { auto i = book.blocks.begin(); std::advance(i, book.r.below((int)book.blocks.size())); return i->first; }
    void run(int len, int big, int maxn)
    {
        int phase = 0;
        for (int i = 0; i < len; ++i)
        {
            if (book.r.chance(1, 20)) phase = book.r.below(3);
            int op = book.r.below(100); int live = (int)book.blocks.size();
            if (op < (phase == 0 ? 60 : phase == 1 ? 85 : 25) && live < big) take(maxn > 1 && book.r.chance(1, 6) ? book.r.range(0, maxn) : 1);
            else if (op < 92 && live) { if (book.r.chance(1, 3)) give(book.blocks.rbegin()->first); else if (book.r.chance(1, 2)) give(book.blocks.begin()->first); else give(any()); }
            else if (op < 95 && recycle) { recycle(); book.blocks.clear(); E e("recycle"); book.end(e); }
            else if (extra) extra();
        }
        while (!book.blocks.empty()) give(any());
    }
};
template <typename T, std::size_t Chunk, bool Omega, int I> void pool(uint64_t seed, int len)
{
    using A = neolib::neo_pool_allocator<T, Chunk, Omega, I>; A a; A b{ a }; static int returned = 0; // the pool lives on between histories
    History<A, T> h{ b, Omega ? "omega" : "pool", seed };
    if (Omega) { A::omega_recycle(); h.recycle = [] { A::omega_recycle(); }; } // also the first of all, of a pool never used
    h.reset(0, 0); (void)returned; h.run(len, 12 + (int)(seed % 30), Omega ? 1 : 5);
    std::ostringstream s; A::info(s);
}
template <typename T, std::size_t N, int I> void reserve(uint64_t seed, int len)
{
    using A = neolib::reserve_allocator<T, N, I>; A a; History<A, T> h{ a, "reserve", seed }; h.reset(N, 0);
    h.extra = [&] { if (h.book.blocks.empty()) return; int id = h.any(); try { a.deallocate((T*)h.book.blocks[id].p, 2); } catch (std::logic_error const&) { E e("badgive"); e.i("id", id); h.book.end(e); } };
    h.run(len, N + 3, 2);
}
template <typename T, std::size_t N> void small(uint64_t seed, int len)
{
    using A = neolib::small_buffer_allocator<T, N>; typename A::small_buffer_type buf; A a{ buf };
    A copy{ a }; History<A, T> h{ seed % 2 ? a : copy, "small", seed }; h.lo = &buf.storage; h.hi = (char*)&buf.storage + sizeof buf.storage; h.reset(N, 0);
    h.extra = [&] { E e("buffer"); e.b("used", copy.is_buffer_used()).b("available", a.is_buffer_available()); h.book.end(e); };
    h.run(len, 8, N + 3);
}
int main(int argc, char** argv)
{
    if (argc < 6) return 3; Out::get().open(argv[2]);
    uint64_t seed = std::strtoull(argv[3], 0, 10); int hist = std::atoi(argv[4]), len = std::atoi(argv[5]);
    for (int h = 0; h < hist; ++h)
    {
        uint64_t s = seed * 100003 + h;
        switch (h % 22)
        {
        case 0: pool<Item<1, 1>, 64, false, 0>(s, len); break;
        case 1: pool<Item<3, 1>, 100, false, 0>(s, len); break;
        case 2: pool<int, 16, false, 0>(s, len); break;
        case 3: pool<Item<12, 4>, 64, false, 0>(s, len); break;
        case 4: pool<Item<24, 8>, 25, false, 0>(s, len); break;
        case 5: pool<Item<48, 16>, 1000, false, 0>(s, len); break;
        case 6: pool<Item<64, 64>, 200, false, 0>(s, len); break;
        case 7: pool<Item<9, 1>, 4096, false, 1>(s, len); break;
        case 8: pool<Item<1, 1>, 1, false, 2>(s, len); break;
        case 9: pool<int, 4, true, 3>(s, len); break;
        case 10: pool<Item<12, 4>, 64, true, 0>(s, len); break;
        case 11: pool<long long, 64, true, 0>(s, len); break;
        case 12: pool<Item<40, 8>, 128, true, 0>(s, len); break;
        case 13: pool<Item<5, 1>, 4096, true, 0>(s, len); break;
        case 14: reserve<Item<1, 1>, 5, 0>(s, len); break;
        case 15: reserve<Item<12, 4>, 8, 0>(s, len); break;
        case 16: reserve<Item<48, 16>, 1, 0>(s, len); break;
        case 17: reserve<Item<9, 1>, 12, 0>(s, len); break;
        case 18: small<int, 8>(s, len); break;
        case 19: small<Item<48, 16>, 3>(s, len); break;
        case 20: small<Item<1, 1>, 1>(s, len); break;
        default: small<Item<24, 8>, 4>(s, len); break;
        }
    }
    return 0;
}
