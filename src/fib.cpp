#include "fib.hpp"

#include <errno.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>

#include <deque>
#include <memory>
#include <vector>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self();
int __real_pthread_sigmask(int, const sigset_t*, sigset_t*);
int __real_clock_gettime(clockid_t, timespec*);
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_sched_yield();
void fib_switch(void** save, void* to);
void fib_entry_asm();
}
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

namespace fib {
void finishFiber();
namespace {

constexpr size_t STACK = 512 * 1024;
enum State { READY, ON_MUTEX, ON_COND, ON_JOIN, ON_POLL, SLEEP, SETTLE, DONE };
const char* stateName[] = {"ready", "waits for mutex", "waits for condition", "joins thread", "polls", "sleeps", "settles", "done"};

struct Fiber {
    int id = 0;
    std::string name;
    void* sp = nullptr;
    char* stack = nullptr;
    void* fake = nullptr;
    State st = READY;
    const void* obj = nullptr;
    int64_t deadline = -1;
    bool timedOut = false;
    bool detached = false, joined = false, spawned = false, daemon = false;
    int prio = 0;
    sigset_t mask;
    bool sig = false;
    const void* condOp = nullptr;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    std::function<void()> body;
};

struct World {
    pbt::Src* src = nullptr;
    pbt::Rep* rep = nullptr;
    Tune tune;
    Stats st;
    std::vector<std::unique_ptr<Fiber>> f;
    int cur = 0;
    int64_t clock = 0;
    int64_t cost = 0;
    bool pct = false;
    int lowPrio = 0;
    uint32_t gapSync = 0, gapMem = 0;  // 0: never
    int64_t nextSync = -1, nextMem = -1;
    int64_t access = 0, nextAccess = INT64_MAX;
    int quiet = 0;
    int locked = 0;                     // no switches, see lockScheduler()
    bool fair = false;
    bool ended = false;
    std::deque<std::pair<int64_t, std::function<void()>>> signals;  // (access count, handler)
    int spuriousPct = 0, jumpPct = 0;
    uint64_t mainFiber = 0;
    char* mainBottom = nullptr;
    size_t mainSize = 0;
    void* osSp = nullptr;
    void* osFake = nullptr;
    const void* osBottom = nullptr;
    size_t osSize = 0;
};
World* W = nullptr;
std::vector<char*> gPool;

char* newStack() {
    if (!gPool.empty()) {
        char* s = gPool.back();
        gPool.pop_back();
        ASAN_UNPOISON_MEMORY_REGION(s, STACK);
        return s;
    }
    void* p = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<char*>(p);
}
Fiber& C() { return *W->f[W->cur]; }

[[noreturn]] void die(const char* kind, const char* msg) {  // no allocation: could be detected as well
    W->quiet = 1000;
    std::string d = dump();
    pbt::dieWithFailure(kind, std::string(msg) + "\n" + d);
}
[[noreturn]] void die(const char* kind, const std::string& msg) {
    W->quiet = 1000;
    std::string d = dump();
    pbt::dieWithFailure(kind, msg + "\n" + d);
}

void fiberMain() {
    __sanitizer_finish_switch_fiber(nullptr, &W->osBottom, &W->osSize);
    Fiber& f = C();
    if (f.body) f.body();
    else f.fn(f.arg);
    finishFiber();
}

void armAccess() {
    int64_t n = INT64_MAX;
    if (W->nextMem >= 0) n = W->nextMem;
    for (auto& s : W->signals) n = std::min(n, s.first);
    W->nextAccess = n;
}

void switchTo(int id) {
    if (id == W->cur) return;
    Fiber& from = C();
    W->cur = id;
    Fiber& to = *W->f[id];
    ++W->st.switches;
    W->st.schedHash = (W->st.schedHash ^ (static_cast<uint64_t>(id) + 16 * W->st.steps)) * 1099511628211ULL;
    __sanitizer_start_switch_fiber(from.st == DONE ? nullptr : &from.fake, to.stack, STACK);
    fib_switch(&from.sp, to.sp);
    __sanitizer_finish_switch_fiber(C().fake, nullptr, nullptr);
}

void wakeExpired() {
    for (auto& p : W->f) {
        Fiber& f = *p;
        if (f.deadline >= 0 && f.deadline <= W->clock && f.st != READY && f.st != SETTLE && f.st != DONE) {
            f.st = READY;
            f.timedOut = true;
            f.deadline = -1;
        }
    }
}

// choose the fiber to run; 'forced': current one can't or mustn't continue
int pick(bool preferOther) {
    Quiet quiet;
    for (;;) {
        wakeExpired();
        std::vector<int> r;
        int n = static_cast<int>(W->f.size());
        for (int k = 1; k <= n; ++k) {  // round robin order after the current one
            int i = (W->cur + k) % n;
            if (W->f[i]->st == READY && !(preferOther && i == W->cur)) r.push_back(i);
        }
        if (r.empty() && preferOther && C().st == READY) return W->cur;
        if (!r.empty()) {
            if (W->fair || r.size() == 1) return r[0];
            if (W->pct) {
                int best = r[0];
                for (int i : r)
                    if (W->f[i]->prio > W->f[best]->prio) best = i;
                return best;
            }
            return r[W->src->below(static_cast<uint32_t>(r.size()))];
        }
        // nobody can run: time passes
        int64_t d = -1;
        int who = -1;
        for (auto& p : W->f) {
            if (p->st == DONE || p->deadline < 0) continue;
            bool better = d < 0 || p->deadline < d || (p->deadline == d && W->f[who]->st == SETTLE && p->st != SETTLE);
            if (better) { d = p->deadline; who = p->id; }
        }
        if (who < 0) {
            if (W->ended) return -1;
            die("deadlock", "no thread can continue");
        }
        W->clock = std::max(W->clock, d);
        Fiber& f = *W->f[who];
        f.st = READY;
        f.timedOut = true;
        f.deadline = -1;
    }
}

void block(State s, const void* obj, int64_t deadline = -1) {
    if (W->locked) die("critical-section", "thread blocks inside of a critical section");
    Fiber& f = C();
    f.st = s;
    f.obj = obj;
    f.deadline = deadline;
    f.timedOut = false;
    ++W->st.blocked;
    int n = pick(false);
    switchTo(n);
    f.obj = nullptr;
}

int64_t drawGap(uint32_t g) {  // simplest choice: (practically) never
    if (g == 0) return -1;
    uint32_t v = W->src->below(g + g / 8 + 1);
    if (v == 0) return -2;
    return 1 + (v % g);
}

void countStep() {
    ++W->st.steps;
    W->clock += W->cost;
    if (!W->fair && W->st.steps >= W->tune.stepLimit / 2) { W->fair = true; W->cost = std::max<int64_t>(W->cost, 100 * US); W->nextMem = -1; armAccess(); }
    if (W->st.steps > W->tune.stepLimit) die("livelock", "threads are still busy after " + std::to_string(W->st.steps) + " steps");
}

// scheduling point of the running fiber
void syncPoint() {
    if (W->quiet) return;
    countStep();
    if (W->tune.timeJumps && W->jumpPct && W->src->chance(W->jumpPct)) {
        int64_t j = W->src->range(1, 40) * MS / 2;
        W->clock += j;
        W->st.jumped += j;
        ++W->st.jumps;
    }
    wakeExpired();
    if (W->locked) return;
    if (W->fair) { switchTo(pick(true)); return; }
    if (W->pct) { switchTo(pick(false)); }
    if (W->nextSync >= 0 && --W->nextSync == 0) {
        ++W->st.syncPreempt;
        if (W->pct) { C().prio = --W->lowPrio; switchTo(pick(false)); }
        else switchTo(pick(true));
        W->nextSync = drawGap(W->gapSync);
    }
}

void runSignal(const std::function<void()>& fn) {
    Fiber& f = C();
    f.sig = true;
    sigset_t old = f.mask;
    sigfillset(&f.mask);
    fn();
    f.mask = old;
    f.sig = false;
}

bool canSignal() { return !sigismember(&C().mask, SIGUSR1) && !C().sig; }

void accessSlow() {
    if (W->nextMem >= 0 && W->access >= W->nextMem) {
        int64_t g = drawGap(W->gapMem);
        W->nextMem = g < 0 ? g : W->access + g;
        armAccess();
        ++W->st.memPreempt;
        countStep();
        wakeExpired();
        if (W->locked) {}
        else if (W->pct) { C().prio = --W->lowPrio; switchTo(pick(false)); }
        else switchTo(pick(true));
    }
    if (W->nextAccess <= W->access) {
        for (size_t i = 0; i < W->signals.size(); ++i) {
            if (W->signals[i].first <= W->access && canSignal()) {
                std::function<void()> fn;
                {
                    Quiet quiet;
                    fn = W->signals[i].second;
                    W->signals.erase(W->signals.begin() + static_cast<long>(i));
                    armAccess();
                    ++W->st.signals;
                    ++W->st.signalsInline;
                }
                { Quiet quiet; step("signal handler starts"); }
                runSignal(fn);
                { Quiet quiet; step("signal handler ends"); }
                return;
            }
        }
    }
}

inline void onAccess() {
    if (!W || W->quiet) return;
    if (++W->access >= W->nextAccess) accessSlow();
}

int64_t toNs(const timespec* t) { return t->tv_sec * SEC + t->tv_nsec; }

int lockMutex(pthread_mutex_t* m, bool tryOnly, bool point = true) {
    if (point) syncPoint();
    int me = W->cur + 1;
    while (m->__data.__lock != 0) {
        if (m->__data.__owner == me) {
            if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++m->__data.__count; return 0; }
            if (tryOnly) return EBUSY;
            die("self-deadlock", "thread locks a mutex it already holds");
        }
        if (tryOnly) return EBUSY;
        if (W->quiet) die("harness", "blocking lock inside a quiet section");
        block(ON_MUTEX, m);
    }
    m->__data.__lock = 1;
    m->__data.__owner = me;
    return 0;
}
void unlockMutex(pthread_mutex_t* m) {
    if (m->__data.__lock == 0) die("unlock-free", "a mutex that isn't locked is unlocked");
    if (m->__data.__owner != W->cur + 1)
        die("unlock-foreign", "thread unlocks a mutex locked by " + W->f[m->__data.__owner - 1]->name);
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__count > 0) { --m->__data.__count; return; }
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    for (auto& p : W->f)
        if (p->st == ON_MUTEX && p->obj == m) p->st = READY;
}
int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    syncPoint();
    if (m->__data.__lock == 0 || m->__data.__owner != W->cur + 1) die("wait-without-lock", "condition wait without holding the mutex");
    if (W->quiet) die("harness", "wait inside a quiet section");
    bool spur = W->spuriousPct && W->src->chance(W->spuriousPct);
    unlockMutex(m);
    if (spur) {
        ++W->st.spurious;
        block(SLEEP, nullptr, W->clock + 1);
        lockMutex(m, false, false);
        return 0;
    }
    block(ON_COND, c, deadline);
    bool to = C().timedOut;
    C().timedOut = false;
    lockMutex(m, false, false);
    return to ? ETIMEDOUT : 0;
}
void runSignal(const std::function<void()>& fn);
bool canSignal();
// Not signal safe: a handler that interrupts an operation on a condition variable must not touch the same one.
void condWake(pthread_cond_t* c, bool all) {
  if (!W->quiet) {
    Fiber& f = C();
    if (f.condOp == c) die("signal-unsafe", "a signal handler notifies a condition variable while the thread it interrupted is doing the same");
    if (!W->signals.empty() && canSignal()) {
        std::function<void()> fn;
        {
            Quiet quiet;
            for (size_t i = 0; i < W->signals.size(); ++i)
                if (W->signals[i].first <= W->access + 60) {
                    fn = W->signals[i].second;
                    W->signals.erase(W->signals.begin() + static_cast<long>(i));
                    armAccess();
                    ++W->st.signals;
                    ++W->st.signalsInline;
                    step("signal handler starts (during notification)");
                    break;
                }
        }
        if (fn) {
            f.condOp = c;
            runSignal(fn);
            f.condOp = nullptr;
        }
    }
  }
  {
    Quiet quiet;
    std::vector<Fiber*> w;
    for (auto& p : W->f)
        if (p->st == ON_COND && p->obj == c) w.push_back(p.get());
    if (!w.empty()) {
        if (all) {
            for (auto* f : w) { f->st = READY; f->deadline = -1; }
        } else {
            Fiber* f = w[W->src->below(static_cast<uint32_t>(w.size()))];
            f->st = READY;
            f->deadline = -1;
        }
    }
  }
    syncPoint();
}

Fiber& newFiber() {
    Quiet q;
    auto f = std::unique_ptr<Fiber>(new Fiber);
    f->id = static_cast<int>(W->f.size());
    f->name = "T" + std::to_string(f->id);
    f->stack = newStack();
    sigemptyset(&f->mask);
    uintptr_t top = reinterpret_cast<uintptr_t>(f->stack + STACK) & ~uintptr_t(15);
    void** sp = reinterpret_cast<void**>(top);
    *--sp = nullptr;
    *--sp = reinterpret_cast<void*>(&fiberMain);  // return address: rsp % 16 == 8 at entry
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->sp = sp;
    f->prio = W->pct ? static_cast<int>(W->src->below(1000)) : 0;
    W->f.push_back(std::move(f));
    return *W->f.back();
}
}  // namespace

void finishFiber() {
    W->quiet++;
    Fiber& f = C();
    f.st = DONE;
    for (auto& p : W->f)
        if (p->st == ON_JOIN && p->obj == &f) p->st = READY;
    if (f.id == 0) {
        W->ended = true;
        __sanitizer_start_switch_fiber(nullptr, W->osBottom, W->osSize);
        fib_switch(&f.sp, W->osSp);
        _exit(3);
    }
    int n = pick(false);
    W->quiet--;
    switchTo(n);
    _exit(3);
}

Stats run(pbt::Src& src, pbt::Rep& rep, const Tune& tune, const std::function<void()>& body) {
    World w;
    w.src = &src;
    w.rep = &rep;
    w.tune = tune;
    w.clock = 1000 * SEC + 123456;
    // scheduling policy of this case
    static const int64_t costs[] = {0, 300, 7 * US, 80 * US, 900 * US};
    int nc = 1;
    while (nc < 5 && costs[nc] <= tune.maxCost) ++nc;
    w.cost = costs[src.below(static_cast<uint32_t>(nc))];
    w.pct = src.chance(30);
    static const uint32_t gs[] = {40, 12, 4, 2, 1};
    static const uint32_t gm[] = {0, 3000, 500, 120, 30};
    w.gapSync = gs[src.below(5)];
    w.gapMem = tune.preemptMem ? gm[src.below(5)] : 0;
    if (w.pct) { w.gapSync *= 12; w.gapMem *= 6; }
    w.spuriousPct = tune.spurious && src.chance(25) ? 10 : 0;
    w.jumpPct = tune.timeJumps && src.chance(50) ? 2 : 0;
    W = &w;
    w.quiet = 1;
    Fiber& m = newFiber();
    m.name = "main";
    m.body = body;
    w.nextSync = drawGap(w.gapSync);
    w.nextMem = w.gapMem ? drawGap(w.gapMem) : -1;
    armAccess();
    w.quiet = 0;
    W->cur = 0;
    void* fake = nullptr;
    __sanitizer_start_switch_fiber(&fake, m.stack, STACK);
    fib_switch(&w.osSp, m.sp);
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
    w.quiet = 1;
    for (auto& p : w.f) {
        if (p->st != DONE) die("thread-leak", "thread " + p->name + " is still alive at the end");
    }
    for (auto& p : w.f)
        if (!p->detached && !p->joined && p->id != 0 && !p->spawned) die("thread-leak", "thread " + p->name + " ended, but was neither joined nor detached");
    Stats s = w.st;
    W = nullptr;
    for (auto& p : w.f) gPool.push_back(p->stack);
    return s;
}

bool active() { return W != nullptr && W->quiet == 0; }
int self() { return W->cur; }
void name(const std::string& n) { C().name = n; }
int64_t now() { return W->clock; }
void settle(int64_t ns) {
    block(SETTLE, nullptr, W->clock + ns);
}
void sleep(int64_t ns) {
    if (!W->quiet) countStep();
    block(SLEEP, nullptr, W->clock + std::max<int64_t>(ns, 0));
}
void point() { syncPoint(); }
bool spawn(const std::string& nm, const std::function<void()>& fn) {
    Fiber& f = newFiber();
    f.name = nm;
    f.body = fn;
    f.spawned = true;
    syncPoint();
    return true;
}
void joinSpawned() {
    for (size_t i = 0; i < W->f.size(); ++i) {
        Fiber* f = W->f[i].get();
        if (f->spawned && !f->daemon) {
            while (f->st != DONE) block(ON_JOIN, f);
        }
    }
}
int daemon(const std::string& nm, const std::function<void()>& fn) {
    Fiber& f = newFiber();
    f.name = nm;
    f.body = fn;
    f.spawned = f.daemon = true;
    int id = f.id;
    syncPoint();
    return id;
}
void joinDaemon(int id) {
    Fiber* f = W->f[static_cast<size_t>(id)].get();
    while (f->st != DONE) block(ON_JOIN, f);
}
bool waitOn(const void* obj, int64_t deadline) {
    block(ON_COND, obj, deadline);
    const bool to = C().timedOut;
    C().timedOut = false;
    return !to;
}
void wake(const void* obj) {
    for (auto& p : W->f)
        if (p->st == ON_COND && p->obj == obj) { p->st = READY; p->deadline = -1; }
}
bool waiting(const void* obj) {
    for (auto& p : W->f)
        if (p->st == ON_COND && p->obj == obj) return true;
    return false;
}
void exitFiber() { finishFiber(); _exit(3); }
void lockScheduler(bool on) { W->locked += on ? 1 : -1; }
bool inHandler() { return W && C().sig; }
void blockSignals(bool on) {
    if (on) sigfillset(&C().mask); else sigemptyset(&C().mask);
}
void waitActivity(int64_t deadline) { block(ON_POLL, nullptr, deadline); }
void activity() {
    if (!W) return;
    for (auto& p : W->f)
        if (p->st == ON_POLL) { p->st = READY; p->deadline = -1; }
}
int alive() {
    int n = 0;
    for (auto& p : W->f)
        if (p->st != DONE && p->id != W->cur && !p->spawned) ++n;
    return n;
}
std::string dump() {
    std::ostringstream o;
    o << "time " << (W->clock - 1000 * SEC) / MS << " ms";
    for (auto& p : W->f) {
        o << "; " << p->name << (p->id == W->cur ? "*" : "") << " " << stateName[p->st];
        if (p->st == ON_MUTEX) {
            int ow = static_cast<const pthread_mutex_t*>(p->obj)->__data.__owner;
            if (ow > 0 && ow <= static_cast<int>(W->f.size())) o << " held by " << W->f[ow - 1]->name;
        }
        if (p->deadline >= 0) o << " until " << (p->deadline - 1000 * SEC) / MS << " ms";
        if (p->sig) o << " (in signal handler)";
    }
    return o.str();
}
void raise(const std::function<void()>& fn) {
    Quiet q;
    static const uint32_t g[] = {20, 200, 2000};
    int64_t at = W->access + 1 + W->src->below(g[W->src->below(3)]);
    W->signals.emplace_back(at, fn);
    armAccess();
}
void flushSignals() {
    for (;;) {
        std::function<void()> fn;
        {
            Quiet q;
            if (W->signals.empty()) return;
            fn = W->signals.front().second;
            W->signals.pop_front();
            armAccess();
            ++W->st.signals;
        }
        runSignal(fn);
    }
}
bool inSignal() { return W && W->cur < static_cast<int>(W->f.size()) && C().sig && W->quiet == 0; }
void step(const std::string& what) {
    if (!W->rep->verbose) return;
    Quiet q;
    char b[64];
    snprintf(b, sizeof b, "%10.3f ms %-8s ", static_cast<double>(W->clock - 1000 * SEC) / 1e6, C().name.c_str());
    W->rep->desc << b << what << "\n";
}
Stats& stats() { return W->st; }
Quiet::Quiet() { if (W) ++W->quiet; }
Quiet::~Quiet() { done(); }
void Quiet::done() {
    if (W && on) --W->quiet;
    on = false;
}
}  // namespace fib

using namespace fib;
static inline bool sim() { return W != nullptr; }
static const unsigned long TID = 0x5000;

extern "C" {
void __sanitizer_cov_load1(void*) { onAccess(); }
void __sanitizer_cov_load2(void*) { onAccess(); }
void __sanitizer_cov_load4(void*) { onAccess(); }
void __sanitizer_cov_load8(void*) { onAccess(); }
void __sanitizer_cov_load16(void*) { onAccess(); }
void __sanitizer_cov_store1(void*) { onAccess(); }
void __sanitizer_cov_store2(void*) { onAccess(); }
void __sanitizer_cov_store4(void*) { onAccess(); }
void __sanitizer_cov_store8(void*) { onAccess(); }
void __sanitizer_cov_store16(void*) { onAccess(); }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return sim() ? lockMutex(m, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return sim() ? lockMutex(m, true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!sim()) return __real_pthread_mutex_unlock(m);
    unlockMutex(m);
    syncPoint();
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return sim() ? condWait(c, m, -1) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    return sim() ? condWait(c, m, toNs(t)) : __real_pthread_cond_timedwait(c, m, t);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    return sim() ? condWait(c, m, toNs(t)) : __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!sim()) return __real_pthread_cond_signal(c);
    condWake(c, false);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!sim()) return __real_pthread_cond_broadcast(c);
    condWake(c, true);
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (!sim()) return __real_pthread_cond_destroy(c);
    for (auto& p : W->f)
        if (p->st == ON_COND && p->obj == c) die("cond-destroyed", "condition variable destroyed while " + p->name + " waits on it");
    return 0;
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!sim()) return __real_pthread_create(t, a, fn, arg);
    Fiber& f = newFiber();
    f.fn = fn;
    f.arg = arg;
    f.mask = C().mask;
    *t = TID + static_cast<unsigned long>(f.id);
    syncPoint();
    return 0;
}
pthread_t __wrap_pthread_self() { return sim() ? TID + static_cast<unsigned long>(W->cur) : __real_pthread_self(); }
int __wrap_pthread_join(pthread_t t, void** r) {
    if (!sim()) return __real_pthread_join(t, r);
    syncPoint();
    size_t i = t - TID;
    if (i >= W->f.size()) return ESRCH;
    Fiber* f = W->f[i].get();
    if (f->id == W->cur) return EDEADLK;
    if (f->joined || f->detached) die("bad-join", "thread " + f->name + " joined twice");
    f->joined = true;
    while (f->st != DONE) block(ON_JOIN, f);
    if (r) *r = nullptr;
    return 0;
}
int __wrap_pthread_detach(pthread_t t) {
    if (!sim()) return __real_pthread_detach(t);
    size_t i = t - TID;
    if (i >= W->f.size()) return ESRCH;
    W->f[i]->detached = true;
    return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    if (!sim()) return __real_pthread_sigmask(how, set, old);
    Fiber& f = C();
    if (old) *old = f.mask;
    if (set) {
        if (how == SIG_SETMASK) f.mask = *set;
        else
            for (int s = 1; s < 65; ++s)
                if (sigismember(set, s) == 1) { if (how == SIG_BLOCK) sigaddset(&f.mask, s); else sigdelset(&f.mask, s); }
    }
    return 0;
}
int __wrap_clock_gettime(clockid_t k, timespec* t) {
    if (!sim()) return __real_clock_gettime(k, t);
    t->tv_sec = W->clock / SEC;
    t->tv_nsec = W->clock % SEC;
    return 0;
}
int __wrap_nanosleep(const timespec* t, timespec* r) {
    if (!sim()) return __real_nanosleep(t, r);
    fib::sleep(toNs(t));
    return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* r) {
    if (!sim()) return __real_clock_nanosleep(k, flags, t, r);
    fib::sleep(flags ? toNs(t) - W->clock : toNs(t));
    return 0;
}
int __wrap_sched_yield() {
    if (!sim()) return __real_sched_yield();
    countStep();
    switchTo(pick(true));
    return 0;
}
}

#ifdef FIB_INTERPOSE
// libraries which aren't part of this project: they keep their own locks (never held while fibers switch), but time and waiting
// are simulated
#include <fcntl.h>
#include <poll.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
int clock_gettime(clockid_t k, timespec* t) {
    if (!sim()) return static_cast<int>(syscall(SYS_clock_gettime, k, t));
    return __wrap_clock_gettime(k, t);
}
static int realPoll(pollfd* f, nfds_t n) {
    timespec z = {0, 0};
    return static_cast<int>(syscall(SYS_ppoll, f, n, &z, nullptr, 0));
}
static int simPoll(pollfd* f, nfds_t n, int64_t ns) {
    int r = realPoll(f, n);
    if (r != 0 || ns == 0) return r;
    fib::waitActivity(ns < 0 ? -1 : W->clock + ns);
    return realPoll(f, n);
}
int poll(pollfd* f, nfds_t n, int ms) {
    if (sim()) return simPoll(f, n, ms < 0 ? -1 : ms * fib::MS);
    timespec t = {ms / 1000, ms % 1000 * 1000000};
    return static_cast<int>(syscall(SYS_ppoll, f, n, ms < 0 ? nullptr : &t, nullptr, 0));
}
int ppoll(pollfd* f, nfds_t n, const timespec* t, const sigset_t* s) {
    if (sim()) return simPoll(f, n, t ? toNs(t) : -1);
    timespec c;
    if (t) c = *t;
    return static_cast<int>(syscall(SYS_ppoll, f, n, t ? &c : nullptr, s, 8));
}
static ssize_t simWrite(int fd, const void* p, size_t n) {
    if (sim()) {
        for (;;) {
            pollfd f = {fd, POLLOUT, 0};
            if (realPoll(&f, 1) != 0 || (fcntl(fd, F_GETFL) & O_NONBLOCK)) break;
            if (W->quiet) die("harness", "blocking write inside a quiet section");
            block(ON_POLL, nullptr, -1);
        }
    }
    ssize_t r = syscall(SYS_write, fd, p, n);
    int e = errno;
    fib::activity();
    errno = e;
    return r;
}
// NOTE: no scheduling point for other libraries since they could be holding a lock
ssize_t write(int fd, const void* p, size_t n) { return simWrite(fd, p, n); }
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (!sim()) return simWrite(fd, p, n);
    syncPoint();
    ssize_t r = simWrite(fd, p, n);
    int e = errno;
    syncPoint();
    errno = e;
    return r;
}
ssize_t read(int fd, void* p, size_t n) {
    ssize_t r = syscall(SYS_read, fd, p, n);
    int e = errno;
    fib::activity();
    errno = e;
    return r;
}
}
#endif
