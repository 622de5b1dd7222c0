// Deterministic cooperative threads for testing the library's own concurrency.
//
// While a case runs, every pthread primitive the code under test uses (linked with --wrap) is simulated: threads are fibers on one
// OS thread, time is virtual, and each synchronisation operation and each memory access of the instrumented library is a point
// where the scheduler may switch. All scheduling decisions come from the case's choice sequence, so an interleaving is an input:
// it is generated, shrunk and replayed like any other.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

#include "pbt.hpp"

namespace fib {

constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;

struct Tune {
    bool preemptMem = true;    // switch inside library code, between memory accesses
    bool spurious = true;      // spurious wakeups of condition waits
    bool timeJumps = false;    // the clock may jump forward at any point (slow machine)
    int64_t maxCost = 50 * US; // upper bound for the virtual duration of one synchronisation step
    uint64_t stepLimit = 400000;
};
struct Stats {
    uint64_t steps = 0, switches = 0, memPreempt = 0, syncPreempt = 0, signals = 0, signalsInline = 0, spurious = 0, blocked = 0, jumps = 0;
    uint64_t schedHash = 1469598103934665603ULL;  // identity of the interleaving
    int64_t jumped = 0;   // total clock jumps
};

// Runs 'body' as the first fiber and the fibers it creates; returns when it has ended. Threads alive then are a failure.
Stats run(pbt::Src& src, pbt::Rep& rep, const Tune& tune, const std::function<void()>& body);

bool active();
int self();                        // id of the running fiber
void name(const std::string& n);   // of the running fiber
int64_t now();                     // virtual time, ns
void settle(int64_t ns);           // let everything else run for this long (the caller runs last)
void sleep(int64_t ns);
void point();                      // scheduling point
bool spawn(const std::string& name, const std::function<void()>& fn);  // joined by joinSpawned()
void joinSpawned();
int daemon(const std::string& name, const std::function<void()>& fn);  // like spawn(), but joined by joinDaemon() only
void joinDaemon(int id);
// block until activity() is called by another fiber, or the deadline (-1: none) has passed
void waitActivity(int64_t deadline);
void activity();
bool waitOn(const void* obj, int64_t deadline);  // until wake(obj); false: deadline has passed
void wake(const void* obj);
bool waiting(const void* obj);
[[noreturn]] void exitFiber();
void lockScheduler(bool on);       // nesting; no switches in between
void blockSignals(bool on);
bool inHandler();                  // the running fiber executes a "signal" handler
int alive();                       // fibers not finished, without the caller and without spawn()ed ones
std::string dump();                // what every fiber is doing
// deliver a "signal": fn runs inside some fiber that doesn't block signals, between two of its memory accesses
void raise(const std::function<void()>& fn);
void flushSignals();               // deliver what is left in the context of the caller
bool inSignal();
void step(const std::string& what);  // add a line to the case's log (verbose replay only)
Stats& stats();

struct Quiet {  // code of the harness itself: no switches inside
    Quiet();
    ~Quiet();
    void done();
    bool on = true;
};

}  // namespace fib
