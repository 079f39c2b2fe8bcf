// Deterministic scheduler for the concurrency drivers. The code under test is compiled with -fsanitize=thread but linked
// with the runtime in sched.cpp: every atomic operation (and, in some histories, plain accesses) is a scheduling point,
// and pthread / futex / clock / sleep calls are interposed, so that exactly one thread runs at a time, the interleaving
// is chosen by a seed, time is virtual, and a history in which no thread can move is recognised.
#pragma once
#include <cstdint>
#include <functional>
#include "trace.hpp"
namespace sched
{
    void begin(uint64_t seed);                      // in the (forked) process of one history, before any thread is made
    void onStuck(std::function<void(const char*)>); // no thread can move ("deadlock") or too many steps ("limit")
    void point();
    int self();
    uint64_t now();                                 // virtual ns
    void noPreempt(int d);                          // +1 / -1
    extern int hardware;                            // std::thread::hardware_concurrency()
    extern uint64_t stepLimit;
    extern int failCreate;                          // the n-th thread creation from now fails
    struct NP { NP() { noPreempt(1); } ~NP() { noPreempt(-1); } };
    // runs each history in a forked child; a crash of the child becomes a "crash" event in the trace
    int histories(const char* trace, uint64_t seed, int n, std::function<void(uint64_t)> f);
}
namespace vt { inline void put(E&& e) { sched::NP g; e.end(); } inline void put(E& e) { sched::NP g; e.end(); } }
