// C15..C20, C29: the std::thread dispatcher and the library's synchronisation under simulated threads (fib.hpp).
#include <sanitizer/allocator_interface.h>
#include <sys/single_threaded.h>

#include <memory>
#include <numeric>
#include <thread>

#include "fib.hpp"
#include "bk.hpp"
#include "hsmcpp/hsm.hpp"
#include "hsmcpp/os/AtomicFlag.hpp"
#include "hsmcpp/os/ConditionVariable.hpp"
#include "hsmcpp/os/CriticalSection.hpp"
#include "hsmcpp/os/InterruptsFreeSection.hpp"
#include "hsmcpp/os/LockGuard.hpp"
#include "hsmcpp/os/Mutex.hpp"
#include "hsmcpp/os/UniqueLock.hpp"

using namespace hsmcpp;
using fib::MS;
using fib::Quiet;
using fib::US;
using pbt::Rep;
using pbt::Src;

namespace {

std::string S(int64_t v) { return std::to_string(v); }

[[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    fib::step("FAILURE " + kind + ": " + msg);
    pbt::dieWithFailure(kind, msg + "\n" + fib::dump());
}

// memory must not be allocated by this fiber while set
bool gNoAlloc[256];
struct NoAlloc {
    int f = fib::self();
    bool keep = gNoAlloc[f];
    NoAlloc() { gNoAlloc[f] = bk::SIGNALS; }  // otherwise it's a known finding
    ~NoAlloc() { gNoAlloc[f] = keep; }
};
void onMalloc(const volatile void*, size_t n) {
    if (fib::active() && gNoAlloc[fib::self() & 255]) {
        gNoAlloc[fib::self() & 255] = false;
        fail("allocation", "an interrupt-safe call allocated " + S(static_cast<int64_t>(n)) + " bytes");
    }
}
void onFree(const volatile void*) {}

void note(Rep& rep, const fib::Stats& s) {
    rep.label("scheduling steps", s.steps);
    rep.label("thread switches", s.switches);
    rep.label("preemptions between memory accesses", s.memPreempt);
    rep.label("preemptions at synchronisation", s.syncPreempt);
    if (s.signals) rep.label("signals delivered", s.signals);
    if (s.signalsInline) rep.label("signals inside library code", s.signalsInline);
    if (s.spurious) rep.label("spurious wakeups", s.spurious);
    if (s.jumps) rep.label("clock jumps", s.jumps);
    rep.hash = s.schedHash;
    rep.nontrivial = s.memPreempt + s.syncPreempt >= 2 && s.switches >= 10;
}
std::string describe(const std::vector<std::string>& v) {
    std::string r;
    for (auto& s : v) r += "  " + s + "\n";
    return r;
}

// ---------------------------------------------------------------------------------------------------------------- C29
// ownership of UniqueLock against a model, one thread
void c29Ownership(Src& src, Rep& rep) {
    constexpr int NM = 3, NL = 4;
    struct Op { int k, a, b; };
    std::vector<Op> ops;
    int n = src.range(1, 25);
    for (int i = 0; i < n; ++i) ops.push_back({static_cast<int>(src.below(11)), static_cast<int>(src.below(NL)), static_cast<int>(src.below(NM * NL))});
    fib::Tune t;
    auto st = fib::run(src, rep, t, [&]() {
        Mutex m[NM];
        bool held[NM] = {};
        std::unique_ptr<UniqueLock> l[NL];
        struct Mod { bool alive = false; int m = -1; bool owns = false; } mod[NL];
        auto locked = [&](int i) {  // is mutex i locked? (observable by trying)
            bool ok = m[i].nativeHandle().try_lock();
            if (ok) m[i].nativeHandle().unlock();
            return !ok;
        };
        auto drop = [&](int i) {  // lock object i gives up its mutex
            if (mod[i].owns) held[mod[i].m] = false;
        };
        auto check = [&](const std::string& what) {
            for (int i = 0; i < NM; ++i)
                if (locked(i) != held[i]) fail("ownership", what + ": mutex " + S(i) + " is " + (held[i] ? "free, expected locked" : "locked, expected free"));
            for (int i = 0; i < NL; ++i) {
                if (!l[i]) continue;
                if (l[i]->owns_lock() != mod[i].owns) fail("ownership", what + ": owns_lock() of L" + S(i) + " is wrong");
                if (static_cast<bool>(*l[i]) != mod[i].owns) fail("ownership", what + ": operator bool of L" + S(i) + " is wrong");
                if (l[i]->mutex() != (mod[i].m >= 0 ? &m[mod[i].m] : nullptr)) fail("ownership", what + ": mutex() of L" + S(i) + " is wrong");
            }
        };
        for (auto& o : ops) {
            int a = o.a, b = o.b % NL, mi = o.b % NM;
            std::string what;
            switch (o.k) {
                case 0:  // construct
                    if (l[a] || held[mi]) continue;
                    what = "L" + S(a) + " = UniqueLock(M" + S(mi) + ")";
                    l[a].reset(new UniqueLock(m[mi]));
                    mod[a] = {true, mi, true};
                    held[mi] = true;
                    break;
                case 1:
                    if (l[a]) continue;
                    what = "L" + S(a) + " = UniqueLock()";
                    l[a].reset(new UniqueLock());
                    mod[a] = {true, -1, false};
                    break;
                case 2:  // destroy
                    if (!l[a]) continue;
                    what = "destroy L" + S(a);
                    l[a].reset();
                    drop(a);
                    mod[a] = {};
                    break;
                case 3:
                    if (!l[a] || (mod[a].m >= 0 && !mod[a].owns && held[mod[a].m])) continue;
                    what = "L" + S(a) + ".lock()";
                    l[a]->lock();
                    if (mod[a].m >= 0) { mod[a].owns = true; held[mod[a].m] = true; }
                    break;
                case 4:
                    if (!l[a]) continue;
                    what = "L" + S(a) + ".unlock()";
                    l[a]->unlock();
                    drop(a);
                    mod[a].owns = false;
                    break;
                case 5: {
                    if (!l[a]) continue;
                    what = "L" + S(a) + ".release()";
                    Mutex* r = l[a]->release();
                    if (r != (mod[a].m >= 0 ? &m[mod[a].m] : nullptr)) fail("ownership", what + " returned a wrong mutex");
                    mod[a].m = -1;
                    mod[a].owns = false;  // the mutex stays locked
                    break;
                }
                case 6:
                case 7:  // move assignment (also to itself)
                    if (!l[a] || !l[b]) continue;
                    what = "L" + S(a) + " = move(L" + S(b) + ")";
                    *l[a] = std::move(*l[b]);
                    if (a != b) {
                        drop(a);
                        mod[a] = mod[b];
                        mod[b].m = -1;
                        mod[b].owns = false;
                    }
                    break;
                case 8:
                    if (l[a] || !l[b]) continue;
                    what = "L" + S(a) + "(move(L" + S(b) + "))";
                    l[a].reset(new UniqueLock(std::move(*l[b])));
                    mod[a] = mod[b];
                    mod[b].m = -1;
                    mod[b].owns = false;
                    break;
                case 9: {
                    if (held[mi]) continue;
                    what = "LockGuard(M" + S(mi) + ")";
                    { LockGuard g(m[mi]); if (!locked(mi)) fail("ownership", "LockGuard doesn't lock"); }
                    break;
                }
                default: {
                    if (held[mi]) continue;
                    what = "CriticalSection(M" + S(mi) + ")";
                    sigset_t before, in, after;
                    pthread_sigmask(SIG_BLOCK, nullptr, &before);
                    { CriticalSection g(m[mi]);
                      if (!locked(mi)) fail("ownership", "CriticalSection doesn't lock");
                      pthread_sigmask(SIG_BLOCK, nullptr, &in);
                      if (!sigismember(&in, SIGUSR1) || !sigismember(&in, SIGTERM)) fail("signals", "signals aren't blocked in a critical section");
                      { InterruptsFreeSection nested; }
                      pthread_sigmask(SIG_BLOCK, nullptr, &in);
                      if (!sigismember(&in, SIGUSR1)) fail("signals", "nested section unblocked signals"); }
                    pthread_sigmask(SIG_BLOCK, nullptr, &after);
                    for (int s = 1; s < 32; ++s)
                        if (sigismember(&before, s) != sigismember(&after, s)) fail("signals", "signal mask wasn't restored");
                    break;
                }
            }
            fib::step(what);
            rep.label("lock operations");
            check(what);
        }
        for (int i = 0; i < NL; ++i) {
            if (l[i]) { l[i].reset(); drop(i); mod[i] = {}; }
        }
        check("end");
        for (int i = 0; i < NM; ++i)
            if (held[i]) m[i].unlock();
    });
    note(rep, st);
    rep.nontrivial = n >= 8;
    rep.hash = st.schedHash;
    for (auto& o : ops) rep.hash = pbt::hashStr(S(o.k * 1000 + o.a * 100 + o.b), rep.hash);
}

// several threads: mutual exclusion, condition variables, flags
void c29Threads(Src& src, Rep& rep) {
    constexpr int NM = 2;
    struct Op { int k, m, x, y; };
    int nf = src.range(2, 4);
    std::vector<std::vector<Op>> prog(nf);
    for (auto& p : prog) {
        int n = src.range(1, 8);
        for (int i = 0; i < n; ++i)
            p.push_back({static_cast<int>(src.below(10)), static_cast<int>(src.below(NM)), static_cast<int>(src.below(6)), static_cast<int>(src.below(4))});
    }
    fib::Tune t;
    auto st = fib::run(src, rep, t, [&]() {
        struct Obj {
            Mutex m;
            ConditionVariable cv;
            int inside = 0;
            int items = 0;
            AtomicFlag flag;
            int owners = 0, flagInside = 0;
        };
        std::unique_ptr<Obj> o[NM];
        for (auto& x : o) x.reset(new Obj);
        int waiting[NM] = {};
        bool finished = false;
        auto enter = [&](int i) {
            if (o[i]->inside++ != 0) fail("exclusion", "two threads hold mutex " + S(i));
            fib::point();
        };
        auto leave = [&](int i) { fib::point(); if (--o[i]->inside != 0) fail("exclusion", "two threads held mutex " + S(i)); };
        for (int f = 0; f < nf; ++f) {
            fib::spawn("W" + S(f), [&, f]() {
                for (auto& op : prog[f]) {
                    Obj& b = *o[op.m];
                    switch (op.k) {
                        case 0: { fib::step("LockGuard"); LockGuard g(b.m); enter(op.m); leave(op.m); break; }
                        case 1: { fib::step("CriticalSection"); CriticalSection g(b.m); enter(op.m); leave(op.m); break; }
                        case 2: {
                            fib::step("UniqueLock, moved");
                            UniqueLock a(b.m);
                            enter(op.m);
                            UniqueLock c(std::move(a));
                            a = UniqueLock();
                            fib::point();
                            leave(op.m);
                            c.unlock();
                            fib::point();
                            c.lock();
                            enter(op.m);
                            leave(op.m);
                            break;
                        }
                        case 3:
                        case 4: {  // produce
                            fib::step("produce");
                            UniqueLock g(b.m);
                            enter(op.m);
                            b.items += 1 + op.x / 3;
                            leave(op.m);
                            if (op.y & 1) g.unlock();
                            b.cv.notify();
                            break;
                        }
                        case 5: {  // consume, bounded time: mutex held on return, result says whether the predicate holds
                            UniqueLock g(b.m);
                            enter(op.m);
                            leave(op.m);
                            int ms = 1 + op.x * 7;
                            int64_t t0 = fib::now();
                            ++waiting[op.m];
                            bool r = b.cv.wait_for(g, ms, [&]() { if (b.inside) fail("exclusion", "predicate runs without the mutex"); return b.items > 0; });
                            --waiting[op.m];
                            int64_t el = fib::now() - t0;
                            fib::step("wait_for " + S(ms) + " ms -> " + S(r));
                            if (!g.owns_lock()) fail("wait", "wait_for() returned without the lock");
                            enter(op.m);
                            if (r != (b.items > 0)) fail("wait", "wait_for() returned " + S(r) + " with " + S(b.items) + " items");
                            if (!r && el < ms * MS) fail("wait", "wait_for(" + S(ms) + ") gave up after " + S(el / US) + " us");
                            if (r) --b.items;
                            leave(op.m);
                            rep.label(r ? "wait_for true" : "wait_for timeout");
                            break;
                        }
                        case 6: {  // consume, unlimited
                            UniqueLock g(b.m);
                            ++waiting[op.m];
                            b.cv.wait(g, [&]() { return b.items > 0 || finished; });
                            --waiting[op.m];
                            fib::step("wait returned");
                            if (!g.owns_lock()) fail("wait", "wait() returned without the lock");
                            enter(op.m);
                            if (b.items <= 0 && !finished) fail("wait", "wait() returned although the predicate is false");
                            if (b.items > 0) --b.items;
                            leave(op.m);
                            rep.label("wait");
                            break;
                        }
                        case 7: {  // test_and_set as a lock
                            bool before = b.flag.test_and_set();
                            fib::step("test_and_set -> " + S(before));
                            if (!before) {
                                if (b.owners++ != 0) fail("flag", "test_and_set() succeeded twice");
                                fib::point();
                                if (!b.flag.test()) fail("flag", "flag isn't set");
                                UniqueLock g = b.flag.lock();
                                if (!g.owns_lock()) fail("flag", "lock() doesn't own");
                                if (b.flagInside++) fail("flag", "two threads hold the lock of the flag");
                                fib::point();
                                --b.flagInside;
                                --b.owners;
                                b.flag.clear();
                                b.flag.notify();
                                rep.label("flag taken");
                            }
                            break;
                        }
                        case 8: {  // wait until the flag isn't set
                            b.flag.wait(true);
                            fib::step("flag wait returned");
                            break;
                        }
                        default: {
                            fib::step("lock of the flag");
                            UniqueLock g = b.flag.lock();
                            if (b.flagInside++) fail("flag", "two threads hold the lock of the flag");
                            fib::point();
                            --b.flagInside;
                            break;
                        }
                    }
                }
            });
        }
        fib::settle(2000 * MS);
        {
            finished = true;
            for (auto& x : o) {
                { UniqueLock g(x->m); }
                x->cv.notify();
            }
        }
        fib::joinSpawned();
        for (auto& x : o) {
            if (!x->m.nativeHandle().try_lock()) fail("exclusion", "mutex left locked");
            x->m.unlock();
            if (x->flag.test()) fail("flag", "flag left set");
        }
    });
    note(rep, st);
}
void c29(Src& src, Rep& rep) {
    if (src.chance(60)) c29Threads(src, rep);
    else c29Ownership(src, rep);
}

}  // namespace

extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0:detect_leaks=0"; }

#ifndef H4_NO_MAIN
#include "h4_more.hpp"
#ifdef BK_QT
namespace {
// QCoreApplication::postEvent() allocates (and locks a mutex), so enqueueEvent() isn't safe in signal handlers
int64_t gAllocations = -1;
void countMalloc(const volatile void*, size_t) { if (gAllocations >= 0) ++gAllocations; }
bool qtalloc(std::string& what) {
    auto d = bk::DispT::create(10);
    if (!d->start()) return false;
    HandlerID_t h = d->registerEnqueuedEventHandler([](const EventID_t) { return true; });
    __sanitizer_install_malloc_and_free_hooks(countMalloc, onFree);
    gAllocations = 0;
    d->enqueueEvent(h, 1);
    int64_t n = gAllocations;
    gAllocations = -1;
    what = "memory allocations inside of enqueueEvent(): " + S(n);
    return n > 0;
}
// interval is converted to a negative integer
bool qtlong(std::string& what) {
    int64_t fired = 0;
    auto sh = pbt::newShared();
    const std::vector<uint32_t> none;
    Src src(none, sh);
    Rep rep;
    fib::run(src, rep, fib::Tune(), [&]() {
        bk::Backend back;
        Disp d = back.create();
        HandlerID_t h = d->registerTimerHandler([&](const TimerID_t) { ++fired; return true; });
        d->startTimer(h, 1, 3000000000u, true);
        fib::settle(3000001000LL * MS);
        back.finish(d);
    });
    what = "timer of 3000000000 ms fired " + S(fired) + " times until 3000001000 ms";
    return fired == 0;
}
}  // namespace
#endif
int main(int argc, char** argv) {
    __libc_single_threaded = 0;
    bk::mainInit(argc, argv);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::map<std::string, pbt::Prop> props;
    const std::string rule = "at least 2 preemptions and 10 thread switches; distinct interleavings";
#ifdef BK_STD
    props["C29"] = {c29, rule + " (ownership part: 8 operations or more)", 400000, 8000000};
#endif
    addProps(props, rule);
#ifdef BK_QT
    return pbt::mainImpl(argc, argv, props, {{"qtalloc", qtalloc}, {"qtlong", qtlong}});
#else
    return pbt::mainImpl(argc, argv, props);
#endif
}
#endif
