#include "sched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <stdarg.h>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <thread>
namespace sched
{
    static long rawsys(long n, long a, long b, long c, long d, long e, long f)
    {
        long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
    }
    struct Sem
    {
        volatile int v = 0;
        void post() { __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST); rawsys(SYS_futex, (long)&v, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
        void wait() { while (!__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST)) rawsys(SYS_futex, (long)&v, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
    };
    enum St { Run, Blocked, Done };
    struct Th { int id; St st = Run; const void* obj = nullptr; int kind = 0; uint64_t deadline = 0; bool timedOut = false; Sem sem; double prio = 0; pthread_t real{}; bool joined = false; void* (*fn)(void*) = nullptr; void* arg = nullptr; };
    enum Kind { KMutex = 1, KCond, KFutex, KJoin, KSleep, KOnce, KRw };
    static std::vector<Th*> ths; static thread_local int me = 0; static int cur = 0; static bool on = false; static int np = 0;
    static uint64_t vnow = 1000000000ull, steps = 0, runLen = 0; uint64_t stepLimit = 60000; int failCreate = 0; int hardware = 2;
    static vt::Rng rng{ 1 }; static int mode = 0, sw = 2, plain = 0, early = 0, spur = 0; static double low = 0; static std::vector<uint64_t> change;
    static std::function<void(const char*)> stuckFn;
    struct M { int owner = -1; int count = 0; };
    static std::unordered_map<const void*, M> mutexes; static std::unordered_map<const void*, std::vector<int>> conds;
    static pthread_key_t key; static bool keyMade = false;
    void onStuck(std::function<void(const char*)> f) { stuckFn = f; }
    int self() { return me; }
    uint64_t now() { return vnow; }
    void noPreempt(int d) { np += d; }
    [[noreturn]] static void stuck(const char* why) { ++np; on = false; if (stuckFn) stuckFn(why); vt::Out::get().flush(); _exit(0); }
    static double newPrio() { return 1 + rng.below(1000000) / 1e6; }
    void begin(uint64_t seed)
    {
        for (auto t : ths) delete t; ths.clear(); rng = vt::Rng(seed * 7919 + 13); steps = 0; runLen = 0; np = 0; vnow = 1000000000ull; mutexes.clear(); conds.clear();
        auto t = new Th; t->id = 0; t->real = pthread_self(); ths.push_back(t); me = cur = 0; 
        mode = rng.below(3) == 0 ? 1 : 0; static const int sws[] = { 1, 2, 4, 8, 20, 60 }; sw = sws[rng.below(6)]; static const int pl[] = { 0, 0, 3, 12, 50 }; plain = pl[rng.below(5)];
        static const int ea[] = { 0, 0, 300, 40, 8 }; early = ea[rng.below(5)]; static const int sp[] = { 0, 0, 200, 30 }; spur = sp[rng.below(4)];
        change.clear(); if (mode == 1) { int d = rng.below(6); int span = 50 << rng.below(6); for (int i = 0; i < d; ++i) change.push_back(1 + rng.below(span)); } low = 0; t->prio = newPrio(); on = true;
    }
    static void hand(Th* n)
    {
        if (n->id == me) { cur = me; return; }
        runLen = 0; Th* m = ths[me]; cur = n->id; bool done = m->st == Done; n->sem.post(); if (!done) m->sem.wait();
    }
    static void wake(Th* t, bool timeout) { t->st = Run; t->timedOut = timeout; t->obj = nullptr; t->deadline = 0; if (t->prio < 1 && mode == 1 && rng.chance(1, 2)) t->prio = newPrio(); }
    static Th* earliest() { Th* b = nullptr; for (auto t : ths) if (t->st == Blocked && t->deadline && (!b || t->deadline < b->deadline)) b = t; return b; }
    static void forget(Th* t) { if (t->kind == KCond) { auto& v = conds[t->obj]; v.erase(std::remove(v.begin(), v.end(), t->id), v.end()); } }
    static void fireTime() { Th* t = earliest(); if (!t) return; if (t->deadline > vnow) vnow = t->deadline; forget(t); wake(t, true); for (auto u : ths) if (u->st == Blocked && u->deadline && u->deadline <= vnow) { forget(u); wake(u, true); } }
    // choose who runs next; the caller may be blocked or done
    static Th* choose(bool yielding)
    {
        for (;;)
        {
            if (steps > stepLimit && earliest() && steps % 16 == 0) fireTime();
            if (Th* d = earliest()) if (d->deadline <= vnow && rng.below(4) == 0) fireTime();
            if (early && earliest() && rng.below(early) == 0) fireTime();
            if (spur && rng.below(spur) == 0) { std::vector<Th*> b; for (auto t : ths) if (t->st == Blocked && (t->kind == KCond || t->kind == KFutex)) b.push_back(t); if (!b.empty()) { auto t = b[rng.below(b.size())]; forget(t); wake(t, false); } }
            std::vector<Th*> r; for (auto t : ths) if (t->st == Run) r.push_back(t);
            if (r.empty()) { if (earliest()) { fireTime(); continue; } stuck("deadlock"); }
            Th* m = ths[me];
            if (steps > stepLimit) { for (auto t : r) if (t->id > me) return t; return r[0]; }   // a fair tail
            if (r.size() == 1) { if (yielding && r[0] == m && earliest() && rng.below(4) == 0) fireTime(); return r[0]; }
            if (mode == 1)
            {
                if (m->st == Run) { if (yielding || ++runLen > 2000) { m->prio = (low -= 1e-6); runLen = 0; } for (auto c : change) if (c == steps) m->prio = (low -= 1e-6); }
                return *std::max_element(r.begin(), r.end(), [](Th* a, Th* b) { return a->prio < b->prio; });
            }
            bool keep = m->st == Run && !yielding && ++runLen < 2000 && (sw > 1 && rng.below(sw) != 0);
            if (keep) return m;
            if (yielding || runLen >= 2000) { r.erase(std::remove(r.begin(), r.end(), m), r.end()); }
            return r[rng.below(r.size())];
        }
    }
    static void step(bool yielding = false)
    {
        if (!on || np) return;
        if (++steps > 2 * stepLimit) stuck("limit");
        vnow += 100; hand(choose(yielding));
    }
    void point() { step(); }
    // returns true if the deadline ended the wait
    static bool block(Kind k, const void* obj, uint64_t deadline)
    {
        int saved = np; np = 0; Th* m = ths[me]; m->st = Blocked; m->kind = k; m->obj = obj; m->deadline = deadline; m->timedOut = false;
        if (++steps > 2 * stepLimit) stuck("limit");
        hand(choose(false)); np = saved; return m->timedOut;
    }
    static void wakeAll(Kind k, const void* obj) { for (auto t : ths) if (t->st == Blocked && t->kind == k && t->obj == obj) wake(t, false); }
    static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
    static int mlock(pthread_mutex_t* p, bool tryOnly, bool noPoint = false)
    {
        if (!noPoint) step();
        for (;;)
        {
            M& m = mutexes[p];
            if (m.owner == -1) { m.owner = me; m.count = 1; return 0; }
            if (m.owner == me && recursive(p)) { ++m.count; return 0; }
            if (tryOnly) return EBUSY;
            block(KMutex, p, 0);
        }
    }
    static int munlock(pthread_mutex_t* p, bool noPoint = false)
    {
        M& m = mutexes[p]; if (m.owner == me && --m.count == 0) { m.owner = -1; wakeAll(KMutex, p); }
        if (!noPoint) step(); return 0;
    }
    static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
    {
        step(); int n = mutexes[m].count; mutexes[m].count = 1; conds[c].push_back(me); munlock(m, true);
        bool t = block(KCond, c, deadline); mlock(m, false, true); mutexes[m].count = n; return t ? ETIMEDOUT : 0;
    }
    static void cwake(pthread_cond_t* c, bool all)
    {
        step(); auto& v = conds[c]; 
        if (all) { for (int i : v) wake(ths[i], false); v.clear(); } else if (!v.empty()) { int k = rng.below(v.size()); wake(ths[v[k]], false); v.erase(v.begin() + k); }
        step();
    }
    static const uint64_t realOffset = 1700000000ull * 1000000000ull;
    static uint64_t toNs(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
    static uint64_t absNs(clockid_t c, const timespec* t) { if (t->tv_sec < 0) return 1; uint64_t n = toNs(t); if (c == CLOCK_REALTIME) n = n > realOffset ? n - realOffset : 1; return n ? n : 1; }
    static long futex(int* a, int op, int val, const timespec* to, int val3)
    {
        step(); int cmd = op & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
            uint64_t dl = 0; if (to) dl = cmd == FUTEX_WAIT ? vnow + toNs(to) : absNs(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
            if (block(KFutex, a, dl)) { errno = ETIMEDOUT; return -1; } return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
        {
            std::vector<Th*> w; for (auto t : ths) if (t->st == Blocked && t->kind == KFutex && t->obj == a) w.push_back(t);
            int n = 0; while (n < val && !w.empty()) { int k = rng.below(w.size()); wake(w[k], false); w.erase(w.begin() + k); ++n; }
            step(); return n;
        }
        errno = ENOSYS; return -1;
    }
    static void finish(void*)
    {
        Th* m = ths[me]; m->st = Done; wakeAll(KJoin, m); int saved = np; np = 0; Th* n = choose(false); (void)saved; cur = n->id; n->sem.post();
    }
    static void* tramp(void* p) { Th* t = (Th*)p; me = t->id; t->sem.wait(); pthread_setspecific(key, t); return t->fn(t->arg); }
    int histories(const char* trace, uint64_t seed, int n, std::function<void(uint64_t)> f)
    {
        { int fd = ::open(trace, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) return 3; ::close(fd); }
        for (int h = 0; h < n; ++h)
        {
            pid_t p = fork(); if (p < 0) return 3;
            if (p == 0)
            {
                vt::Out::get().fd = ::open(trace, O_WRONLY | O_APPEND); alarm(40);
                begin(seed * 1000003 + h); f(seed * 1000003 + h); on = false; vt::Out::get().flush(); _exit(0);
            }
            int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
                int fd = ::open(trace, O_WRONLY | O_APPEND); char b[128]; int k = std::snprintf(b, sizeof b, "{\"e\":\"crash\",\"signal\":%d,\"status\":%d}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1); if (::write(fd, b, k) != k) return 3; ::close(fd);
            }
        }
        return 0;
    }
}
using namespace sched;
template <typename F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C"
{
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        static auto real = next<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        if (!on) return real(t, a, fn, arg);
        if (failCreate && --failCreate == 0) return EAGAIN;
        if (!keyMade) { pthread_key_create(&key, finish); keyMade = true; }
        auto n = new Th; n->id = (int)ths.size(); n->fn = fn; n->arg = arg; n->prio = newPrio(); ths.push_back(n);
        int r = real(&n->real, a, tramp, n); if (r) { n->st = Done; return r; } *t = n->real; step(); return 0;
    }
    int pthread_join(pthread_t t, void** ret)
    {
        static auto real = next<int (*)(pthread_t, void**)>("pthread_join"); if (!on) return real(t, ret);
        step(); Th* x = nullptr; for (auto u : ths) if (u->id && pthread_equal(u->real, t) && !u->joined) x = u;
        if (!x) return EINVAL; if (x->id == me) return EDEADLK; x->joined = true; while (x->st != Done) block(KJoin, x, 0); return real(t, ret);
    }
    int pthread_detach(pthread_t t) { static auto real = next<int (*)(pthread_t)>("pthread_detach"); for (auto u : ths) if (u->id && pthread_equal(u->real, t)) u->joined = true; return real(t); }
    int pthread_mutex_lock(pthread_mutex_t* m) { static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return on ? mlock(m, false) : real(m); }
    int pthread_mutex_trylock(pthread_mutex_t* m) { static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return on ? mlock(m, true) : real(m); }
    int pthread_mutex_unlock(pthread_mutex_t* m) { static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return on ? munlock(m) : real(m); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cwait(c, m, absNs(CLOCK_REALTIME, t)); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return cwait(c, m, absNs(k, t)); }
    int pthread_cond_signal(pthread_cond_t* c) { if (on) cwake(c, false); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) { if (on) cwake(c, true); return 0; }
    int pthread_cond_destroy(pthread_cond_t* c) { conds.erase(c); return 0; }
    int pthread_once(pthread_once_t* c, void (*f)())
    {
        static auto real = next<int (*)(pthread_once_t*, void (*)())>("pthread_once"); if (!on) return real(c, f);
        for (;;) { step(); if (*c == 2) return 0; if (*c == 0) { *c = 1; struct G { pthread_once_t* c; bool ok = false; ~G() { *c = ok ? 2 : 0; wakeAll(KOnce, c); } } g{ c }; f(); g.ok = true; return 0; } block(KOnce, c, 0); }
    }
    long syscall(long n, ...) noexcept
    {
        va_list v; va_start(v, n); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
        if (on && n == SYS_futex) return futex((int*)a, (int)b, (int)c, (const timespec*)d, (int)f);
        long r = rawsys(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
    }
    int sched_yield() noexcept { if (on && !np) step(true); return 0; }
    int nanosleep(const timespec* t, timespec*) { if (on) { block(KSleep, nullptr, vnow + std::max<uint64_t>(toNs(t), 1)); } return 0; }
    int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec*) { if (on) { uint64_t d = fl & TIMER_ABSTIME ? absNs(c, t) : vnow + toNs(t); if (d > vnow) block(KSleep, nullptr, d); else step(true); } return 0; }
    int usleep(useconds_t u) { if (on) block(KSleep, nullptr, vnow + u * 1000ull + 1); return 0; }
    int clock_gettime(clockid_t c, timespec* t) noexcept { uint64_t n = vnow += 50; if (c == CLOCK_REALTIME) n += realOffset; t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
    int gettimeofday(timeval* t, void*) noexcept { uint64_t n = vnow + realOffset; t->tv_sec = n / 1000000000ull; t->tv_usec = n % 1000000000ull / 1000; return 0; }
    // instrumentation entry points
    static inline void acc() { if (plain && on && !np && rng.below(plain) == 0) step(); }
    void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) { acc(); } void __tsan_write##n(void*) { acc(); } void __tsan_unaligned_read##n(void*) { acc(); } void __tsan_unaligned_write##n(void*) { acc(); } void __tsan_volatile_read##n(void*) { acc(); } void __tsan_volatile_write##n(void*) { acc(); } void __tsan_unaligned_volatile_read##n(void*) { acc(); } void __tsan_unaligned_volatile_write##n(void*) { acc(); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void*, unsigned long) { acc(); } void __tsan_write_range(void*, unsigned long) { acc(); }
    void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); } void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { step(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { step(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); step(); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { step(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { step(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { step(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { step(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { step(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { step(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { step(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { step(); if (on && spur && rng.below(8) == 0) { *e = __atomic_load_n(p, __ATOMIC_SEQ_CST); return false; } return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { step(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
unsigned int std::thread::hardware_concurrency() noexcept { return (unsigned)sched::hardware; }
