// Arduino dispatcher: single threaded, with a simulated clock and interrupts which hit between any two memory accesses of the library.
#include <sanitizer/allocator_interface.h>

#include <climits>

#include "Arduino.h"
#include "c21.hpp"
#include "hsmcpp/HsmEventDispatcherArduino.hpp"

using namespace hsmcpp;
using pbt::Rep;
using pbt::Src;

namespace {
std::string S(int64_t v) { return std::to_string(v); }

// ------------------------------------------------------------------------------------------------------- the "board"
unsigned long gMillis;
bool gOff;                                // interrupts are disabled
int gIsr;                                 // nesting of interrupt handlers
bool gLibrary;                            // hooks are active
bool gNoAlloc;
struct Pending { int gap; std::function<void()> fn; };
std::deque<Pending> gIrq;                 // interrupts to come: after this many memory accesses
uint64_t gHits, gInside;

void runIrq() {
    while (!gOff && !gIrq.empty() && gIrq.front().gap <= 0) {
        Pending p = gIrq.front();
        gIrq.pop_front();
        gOff = true;
        ++gIsr;
        ++gHits;
        const bool keepNo = gNoAlloc, keepLib = gLibrary;
        gNoAlloc = gLibrary = false;
        p.fn();
        gNoAlloc = keepNo;
        gLibrary = keepLib;
        --gIsr;
        gOff = false;
    }
}
void access() {
    if (!gLibrary || gIrq.empty()) return;
    if (gIrq.front().gap > 0) --gIrq.front().gap;
    if (gIrq.front().gap <= 0 && !gOff) { ++gInside; runIrq(); }
}
struct InLib {  // code of the library runs
    bool keep = gLibrary;
    InLib() { gLibrary = true; }
    ~InLib() { gLibrary = keep; }
};
struct Outside {  // code of the harness runs
    bool keep = gLibrary;
    Outside() { gLibrary = false; }
    ~Outside() { gLibrary = keep; }
};
void boardReset(unsigned long t) {
    gMillis = t;
    gOff = false;
    gIsr = 0;
    gLibrary = gNoAlloc = false;
    gIrq.clear();
    gHits = gInside = 0;
}
void onMalloc(const volatile void*, size_t n) {
    if (gNoAlloc) {
        gNoAlloc = false;
        pbt::dieWithFailure("allocation", "an interrupt-safe call allocated " + S(static_cast<int64_t>(n)) + " bytes");
    }
}
void onFree(const volatile void*) {}

std::string* gLog;
void step(const std::string& s) {
    if (gLog) *gLog += "  " + std::string(static_cast<size_t>(gIsr) * 2, ' ') + s + "\n";
}
[[noreturn]] void fail(const std::string& kind, const std::string& msg) {
    gNoAlloc = gLibrary = false;
    pbt::dieWithFailure(kind, msg);
}
}  // namespace

extern "C" {
unsigned long millis() { return gMillis; }
void noInterrupts() { gOff = true; }
void interrupts() { gOff = false; if (gLibrary) runIrq(); }
#define HOOK(n) \
    void __sanitizer_cov_load##n(void*) { access(); } \
    void __sanitizer_cov_store##n(void*) { access(); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
const char* __asan_default_options() { return "detect_stack_use_after_return=0:detect_leaks=0"; }
}

namespace {
// ------------------------------------------------------------------------------------------ raw dispatcher, all its functions
enum K { EMIT, REG, UNREG, ENQ, IRQ, ACTION, TSTART, TSTOP, TRESTART, TQUERY, TREG, TUNREG, ADVANCE, DISPATCH, STOP, START };
const char* kn[] = {"emit", "register", "unregister", "enqueue", "interrupt", "action", "startTimer", "stopTimer", "restartTimer", "timer?", "registerTimerHandler", "unregisterTimerHandler", "advance", "dispatch", "stop", "start"};
struct Op { K k; int a, b, c; bool f; };
struct Mode { int w[16]; };  // weights of the operations
//                      emit reg unreg enq irq act tst tsp trs tq trg tun adv dis stop start
const Mode MODE_TIMER = {{6, 3, 2, 2, 4, 3, 24, 8, 8, 8, 4, 3, 22, 30, 0, 1}};
const Mode MODE_EVENT = {{26, 8, 6, 8, 10, 12, 3, 1, 1, 1, 2, 1, 5, 26, 1, 2}};
const Mode MODE_IRQ = {{8, 3, 2, 14, 34, 5, 3, 1, 1, 1, 2, 1, 5, 24, 0, 1}};
const Mode MODE_LIFE = {{12, 6, 3, 8, 10, 8, 14, 3, 4, 3, 3, 3, 10, 20, 8, 8}};

struct Sys {
    static constexpr int NE = 4, NT = 3, NQ = 2, NTID = 4;
    const std::string what;
    size_t cap;
    std::shared_ptr<HsmEventDispatcherArduino> d;
    bool stopped = false;
    int stops = 0;
    int now = 0;  // virtual ms
    // event handlers
    struct Handler { HandlerID_t id = 0; bool reg = false; int gen = 0; };
    Handler ev[NE], th[NT], qh[NQ];
    // calls are matched with emissions in order; after a stop() it can't be told which of the earlier ones were cancelled
    struct Emission { HandlerID_t id; int seq; bool maybe, gone; };
    std::vector<Emission> emitted;
    std::set<size_t> pos{0};
    struct Act { int n; int seq; bool maybe; };
    std::deque<Act> actions;
    int seq = 0, actionNo = 0, depth = 0;
    // interrupt-safe events
    struct Enq { int n; HandlerID_t id; EventID_t e; int begin, end; bool maybe; };
    std::vector<Enq> enq;     // accepted, not handled yet
    int enqNo = 0, accepted = 0, rejected = 0, fires = 0, calls = 0;
    struct Timer { HandlerID_t h; int64_t I; bool single; int64_t start; int k; int64_t last; bool expired; int gen; };
    std::map<int, Timer> timers;
    int timerGen = 0;
    bool running = false;     // dispatchEvents() is running
    std::vector<std::pair<int, Op>> inCb;
    std::set<int> falseAt;    // callbacks which return false
    bool exact = true;        // dispatched at each millisecond
    explicit Sys(const std::string& w, size_t c) : what(w), cap(c) {}

    void call(const std::function<void()>& f) { InLib l; f(); }
    bool enter(bool isTimer) {  // -> value to be returned
        ++calls;
        int n = calls;
        (void)isTimer;
        if (depth > 1) fail("nested", "a handler runs inside of another one");
        for (auto& x : inCb)
            if (x.first == n) apply(x.second, true);
        return !falseAt.count(n);
    }
    // removes emissions of a handler
    void forget(HandlerID_t id) {
        for (auto& e : emitted)
            if (e.id == id) e.gone = true;
    }
    void onEvent(int i, HandlerID_t id, int gen) {
        Outside o;
        step("event handler " + S(i));
        if (!running) fail("inline", "event handler is called outside of dispatchEvents()");
        if (!ev[i].reg || ev[i].gen != gen) fail("unregistered", "event handler is called although it isn't registered");
        if (stopped) fail("stopped", "event handler is called although the dispatcher is stopped");
        std::set<size_t> nx;
        bool other = false;
        for (size_t p : pos)
            for (size_t q = p; q < emitted.size(); ++q) {
                if (!emitted[q].gone && emitted[q].id == id) nx.insert(q + 1);
                if (!emitted[q].gone && !emitted[q].maybe) { other = other || emitted[q].id != id; break; }
            }
        if (nx.empty()) {
            if (other) fail("order", "events aren't handled in the order in which they were emitted");
            fail("extra-event", "event handler is called without an event");
        }
        for (auto& a : actions)
            if (!a.maybe)
                for (auto it = nx.begin(); it != nx.end();) it = emitted[*it - 1].seq > a.seq ? nx.erase(it) : std::next(it);
        if (nx.empty()) fail("action-order", "an event is handled although an action was enqueued before it");
        pos = nx;
    }
    void regEvent(int i) {
        if (ev[i].reg) return;
        int gen = ++ev[i].gen;
        auto id = std::make_shared<HandlerID_t>(0);
        call([&]() {
            ev[i].id = d->registerEventHandler([this, i, id, gen]() {
                onEvent(i, *id, gen);
                Outside o;
                ++depth;
                bool r = enter(false);
                --depth;
                if (!r && ev[i].reg && ev[i].gen == gen) { ev[i].reg = false; forget(*id); step("(returns false)"); }
                return r;
            });
        });
        *id = ev[i].id;
        ev[i].reg = true;
    }
    void regTimer(int i) {
        if (th[i].reg) return;
        int gen = ++th[i].gen;
        auto id = std::make_shared<HandlerID_t>(0);
        call([&]() {
            th[i].id = d->registerTimerHandler([this, i, id, gen](const TimerID_t t) {
                Outside o;
                step("timer handler " + S(i) + " timer " + S(t) + " at " + S(now));
                if (!running) fail("inline", "timer handler is called outside of dispatchEvents()");
                if (!th[i].reg || th[i].gen != gen) fail("unregistered", "timer handler is called although it isn't registered");
                if (stopped) fail("stopped", "timer handler is called although the dispatcher is stopped");
                auto it = timers.find(t);
                if (it == timers.end() || it->second.h != *id) fail("extra-timer", "timer " + S(t) + " fires although it isn't started for this handler");
                Timer& x = it->second;
                if (x.expired) fail("extra-timer", "single-shot timer " + S(t) + " fires again");
                if (now < x.start + (x.k + 1) * x.I) fail("early", "timer " + S(t) + " fires " + S(x.start + (x.k + 1) * x.I - now) + " ms too early");
                ++x.k;
                x.last = now;
                ++fires;
                if (x.single) x.expired = true;
                ++depth;
                bool r = enter(true);
                --depth;
                if (!r && th[i].reg && th[i].gen == gen) { dropTimers(*id); th[i].reg = false; step("(returns false)"); }
                return r;
            });
        });
        *id = th[i].id;
        th[i].reg = true;
    }
    void dropTimers(HandlerID_t h) {
        for (auto it = timers.begin(); it != timers.end();) it = it->second.h == h ? timers.erase(it) : std::next(it);
    }
    void regQueue(int i) {
        auto id = std::make_shared<HandlerID_t>(0);
        call([&]() {
            qh[i].id = d->registerEnqueuedEventHandler([this, i, id](const EventID_t e) {
                Outside o;
                step("enqueued event handler " + S(i) + " event " + S(e));
                if (!running) fail("inline", "handler of interrupt-safe events is called outside of dispatchEvents()");
                if (stopped) fail("stopped", "handler of interrupt-safe events is called although the dispatcher is stopped");
                auto it = std::find_if(enq.begin(), enq.end(), [&](const Enq& x) { return x.e == e; });
                if (it == enq.end()) fail("extra-enqueued", "interrupt-safe event " + S(e) + " is handled, but it wasn't accepted or was handled already");
                if (it->id != *id) fail("addressee", "interrupt-safe event is handled by another handler");
                for (auto& y : enq)
                    if (y.end < it->begin && !y.maybe) fail("enqueued-order", "interrupt-safe event " + S(e) + " is handled before " + S(y.e) + " which was enqueued earlier");
                enq.erase(it);
                ++depth;
                (void)enter(false);
                --depth;
                return true;
            });
        });
        *id = qh[i].id;
        qh[i].reg = true;
    }
    void enqueue(int i) {
        int n = ++enqNo;
        int begin = ++seq;
        size_t before = enq.size(), sure = 0;
        for (auto& x : enq) sure += x.end != INT_MAX && !x.maybe;
        int acc0 = accepted;
        bool inside = running;
        enq.push_back({n, qh[i].id, 1000 + n, begin, INT_MAX, false});  // (removed again if it is refused)
        bool ok = false;
        bool keepNo = gNoAlloc;
        {
            InLib l;
            gNoAlloc = true;
            ok = d->enqueueEvent(qh[i].id, 1000 + n);
            gNoAlloc = keepNo;
        }
        step(std::string("enqueue event ") + S(1000 + n) + (ok ? "" : " refused"));
        // other interrupts may have come inside of this call
        int others = accepted - acc0;
        auto it = std::find_if(enq.begin(), enq.end(), [&](const Enq& x) { return x.n == n; });
        if (ok) {
            ++accepted;
            if (it != enq.end()) it->end = ++seq;
            if (!inside && sure + 1 > cap) fail("capacity", "accepted more events than the queue has room for");
        } else {
            ++rejected;
            if (it == enq.end()) fail("extra-enqueued", "a refused event was handled");
            enq.erase(it);
            if (before + static_cast<size_t>(others) < cap) fail("refused", "refused an event although only " + S(static_cast<int64_t>(before)) + " of " + S(static_cast<int64_t>(cap)) + " are waiting");
        }
    }
    void apply(const Op& o, bool cb) {
        if (!cb || o.k != DISPATCH) step(std::string(cb ? "  -> " : "") + kn[o.k] + "(" + S(o.a) + "," + S(o.b) + "," + S(o.c) + ")");
        switch (o.k) {
            case EMIT: {
                int i = o.a % NE;
                HandlerID_t id = ev[i].id;
                if (!id) break;
                if (!stopped && ev[i].reg) emitted.push_back({id, ++seq, false, false});
                call([&]() { d->emitEvent(id); });
                break;
            }
            case REG: regEvent(o.a % NE); break;
            case UNREG: {
                int i = o.a % NE;
                if (!ev[i].reg) break;
                ev[i].reg = false;
                forget(ev[i].id);
                call([&]() { d->unregisterEventHandler(ev[i].id); });
                break;
            }
            case ENQ: enqueue(o.a % NQ); break;
            case IRQ: {
                int q = o.a % NQ;
                gIrq.push_back({o.c, [this, q]() { Outside x; step("interrupt"); enqueue(q); }});
                break;
            }
            case ACTION: {
                int n = ++actionNo;
                actions.push_back({n, ++seq, false});
                call([&]() {
                    d->enqueueAction([this, n]() {
                        Outside x;
                        step("action " + S(n));
                        if (!running) fail("inline", "action runs outside of dispatchEvents()");
                        while (!actions.empty() && actions.front().maybe && actions.front().n != n) actions.pop_front();
                        if (actions.empty()) fail("extra-action", "action runs again");
                        if (actions.front().n != n) fail("action-order", "actions don't run in order");
                        actions.pop_front();
                        ++depth;
                        (void)enter(false);
                        --depth;
                    });
                });
                break;
            }
            case TSTART: {
                int h = o.a % NT, t = o.b % NTID;
                if (!th[h].id) break;
                int I = o.f ? 1 + o.c % 4 : o.c;
                if (I > 0 && th[h].reg) timers[t] = Timer{th[h].id, I, (o.a / NT) % 2 == 0, now, 0, now, false, ++timerGen};
                HandlerID_t id = th[h].id;
                bool single = (o.a / NT) % 2 == 0;
                call([&]() { d->startTimer(id, t, static_cast<unsigned>(I), single); });
                break;
            }
            case TSTOP: timers.erase(o.b % NTID); call([&]() { d->stopTimer(o.b % NTID); }); break;
            case TRESTART: {
                auto it = timers.find(o.b % NTID);
                if (it != timers.end()) {
                    it->second.start = it->second.last = now;
                    it->second.k = 0;
                    it->second.expired = false;
                    it->second.gen = ++timerGen;
                }
                call([&]() { d->restartTimer(o.b % NTID); });
                break;
            }
            case TQUERY: {
                auto it = timers.find(o.b % NTID);
                bool e = it != timers.end() && !it->second.expired, r = false;
                call([&]() { r = d->isTimerRunning(o.b % NTID); });
                if (e != r) fail("isTimerRunning", "isTimerRunning(" + S(o.b % NTID) + ") is " + (r ? "true" : "false"));
                break;
            }
            case TREG: regTimer(o.a % NT); break;
            case TUNREG: {
                int i = o.a % NT;
                if (!th[i].reg) break;
                th[i].reg = false;
                dropTimers(th[i].id);
                call([&]() { d->unregisterTimerHandler(th[i].id); });
                break;
            }
            case ADVANCE: if (!cb) advance(o.c, o.f); else { now += o.c % 5; gMillis += static_cast<unsigned long>(o.c % 5); } break;
            case DISPATCH: if (!cb) dispatch(); break;
            case STOP:
                if (stopped) break;
                stopped = true;
                ++stops;
                for (auto& e : emitted) e.maybe = true;
                for (auto& e : enq) e.maybe = true;
                for (auto& a : actions) a.maybe = true;  // (unspecified)
                call([&]() { d->stop(); });
                break;
            case START: {
                bool r = false;
                stopped = false;
                call([&]() { r = d->start(); });
                if (!r) fail("start", "start() failed");
                break;
            }
        }
    }
    void advance(int ms, bool eachMs) {
        for (int i = 0; i < ms; i += eachMs ? 1 : ms) {
            now += eachMs ? 1 : ms;
            gMillis += static_cast<unsigned long>(eachMs ? 1 : ms);
            if (eachMs) dispatch();
        }
    }
    void dispatch() {
        // timers which must have fired afterwards
        std::vector<std::pair<int, Timer>> due;
        if (!stopped)
            for (auto& t : timers)
                if (!t.second.expired && now >= t.second.last + t.second.I) due.emplace_back(t.first, t.second);
        int before = stops;
        running = true;
        call([&]() { d->dispatchEvents(); });
        running = false;
        if (stopped || stops != before) return;
        for (auto& t : due) {
            auto it = timers.find(t.first);
            if (it != timers.end() && it->second.gen == t.second.gen && it->second.k == t.second.k)
                fail("late", "timer " + S(t.first) + " was due at " + S(t.second.last + t.second.I) + " ms, but doesn't fire at " + S(now) + " ms");
        }
    }
};

void raw(Src& src, Rep& rep, const Mode& mode) {
    std::vector<Op> ops;
    auto genOp = [&](bool cb) {
        Op o;
        std::vector<int> w(mode.w, mode.w + 16);
        if (cb) { w[DISPATCH] = 0; w[ADVANCE] /= 4; w[REG] /= 2; w[STOP] /= 2; }
        o.k = static_cast<K>(src.weighted(w));
        o.a = src.range(0, 5);
        o.b = src.range(0, 3);
        o.c = o.k == IRQ ? (src.coin() ? src.range(0, 12) : src.range(0, 150)) : src.range(0, 30);
        o.f = src.chance(30);
        return o;
    };
    int n = src.range(1, 40);
    for (int i = 0; i < n; ++i) ops.push_back(genOp(false));
    size_t cap = static_cast<size_t>(src.range(1, 6));
    unsigned long t0 = src.chance(30) ? static_cast<unsigned long>(0) - static_cast<unsigned long>(src.range(1, 60)) : static_cast<unsigned long>(src.range(0, 1000));
    std::vector<std::pair<int, Op>> inCb;
    int m = src.range(0, 6);
    for (int i = 0; i < m; ++i) {
        int at = src.range(1, 12);
        inCb.emplace_back(at, genOp(true));
    }
    std::set<int> falseAt;
    for (int i = 0; i < 2; ++i)
        if (src.chance(20)) falseAt.insert(src.range(1, 10));
    bool initially = src.chance(80);
    std::string log;
    boardReset(t0);
    gLog = rep.verbose ? &log : nullptr;
    if (rep.verbose) {
        rep.desc << "clock starts at " << t0 << ", queue of " << cap << (initially ? ", all handlers are registered" : "") << "\n";
        for (auto& o : ops) rep.desc << kn[o.k] << "(" << o.a << "," << o.b << "," << o.c << (o.f ? ",f" : "") << ") ";
        rep.desc << "\n";
        for (auto& x : inCb) rep.desc << "callback " << x.first << ": " << kn[x.second.k] << "(" << x.second.a << "," << x.second.b << "," << x.second.c << ")\n";
        for (int x : falseAt) rep.desc << "callback " << x << " returns false\n";
        rep.desc.flush();
    }
    {
        Sys s("", cap);
        s.inCb = inCb;
        s.falseAt = falseAt;
        s.d = HsmEventDispatcherArduino::create(cap);
        if (!s.d->start()) fail("start", "start() failed");
        for (int i = 0; i < Sys::NQ; ++i) s.regQueue(i);
        if (initially) {
            for (int i = 0; i < Sys::NE; ++i) s.regEvent(i);
            for (int i = 0; i < Sys::NT; ++i) s.regTimer(i);
        }
        for (auto& o : ops) s.apply(o, false);
        // whatever is left
        gIrq.clear();
        s.inCb.clear();
        s.falseAt.clear();
        if (s.stopped) s.apply(Op{START, 0, 0, 0, false}, false);
        s.call([&]() { for (int t = 0; t < Sys::NTID; ++t) s.d->stopTimer(t); });
        s.timers.clear();
        for (int i = 0; i < 4; ++i) s.dispatch();
        bool done = false;
        for (size_t p : s.pos) {
            bool left = false;
            for (size_t q = p; q < s.emitted.size(); ++q) left = left || (!s.emitted[q].gone && !s.emitted[q].maybe);
            done = done || !left;
        }
        if (!done) fail("lost-event", "an event is never handled");
        for (auto& e : s.enq)
            if (!e.maybe) fail("lost-enqueued", "interrupt-safe event " + S(e.e) + " was accepted but is never handled");
        for (auto& a : s.actions)
            if (!a.maybe) fail("lost-action", "an action is never executed");
        rep.label("callbacks", static_cast<uint64_t>(s.calls));
        rep.label("timer expiries", static_cast<uint64_t>(s.fires));
        rep.label("interrupts", gHits);
        rep.label("interrupts inside of library code", gInside);
        rep.label("refused interrupt-safe events", static_cast<uint64_t>(s.rejected));
        rep.nontrivial = s.calls >= 4;
        std::weak_ptr<HsmEventDispatcherArduino> w = s.d;
        int calls = s.calls;
        s.call([&]() { s.d.reset(); });
        if (!w.expired()) fail("leak", "dispatcher still exists");
        if (s.calls != calls) fail("destroy", "handlers are called while the dispatcher is destroyed");
    }
    if (rep.verbose) rep.desc << log;
    uint64_t h = cap * 31 + t0;
    for (auto& o : ops) h = h * 1099511628211ULL + static_cast<uint64_t>(((o.k * 7 + o.a) * 5 + o.b) * 200 + o.c * 2 + o.f);
    for (auto& x : inCb) h = h * 1099511628211ULL + static_cast<uint64_t>(x.first * 100000 + ((x.second.k * 7 + x.second.a) * 5 + x.second.b) * 200 + x.second.c);
    rep.hash = h;
}

void c21ard(Src& src, Rep& rep) {
    c21::Scenario sc(src);
    unsigned long t0 = src.chance(30) ? static_cast<unsigned long>(0) - static_cast<unsigned long>(src.range(1, 300)) : 0;
    if (rep.verbose) rep.desc << sc.show() << "\n";
    c21::Expected ex(sc);
    boardReset(t0);
    auto d = HsmEventDispatcherArduino::create(10);
    if (!d->start()) fail("start", "start() failed");
    c21::Host h;
    h.d = d;
    int64_t now = 0;
    h.sleepUntil = [&](int64_t ms) {
        for (;;) {
            for (int i = 0; i < 2; ++i) d->dispatchEvents();
            if (now >= ms) break;
            ++now;
            ++gMillis;
        }
    };
    // the sketch calls dispatchEvents() all the time: let it finish before time goes on
    c21::Host h2 = h;
    h2.sleepUntil = [&](int64_t ms) {
        for (int i = 0; i < 400; ++i) d->dispatchEvents();
        while (now < ms) {
            ++now;
            ++gMillis;
            for (int i = 0; i < (now == ms ? 1 : 60); ++i) d->dispatchEvents();
        }
    };
    c21::runOn(sc, ex, h2);
    size_t n = 0;
    for (auto& t : ex.traces) n += t.size();
    rep.hash = pbt::hashStr(sc.show());
    rep.nontrivial = ex.expiries > 0 && n >= 8;
    rep.label(ex.expiries ? "timers expire" : "no timer expires");
}
}  // namespace

int main(int argc, char** argv) {
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::map<std::string, pbt::Prop> props;
    const std::string rule = "at least 4 callbacks; distinct programs";
    props["C15/Arduino"] = {[](Src& s, Rep& r) { raw(s, r, MODE_TIMER); }, rule, 300000, 6000000};
    props["C16/Arduino"] = {[](Src& s, Rep& r) { raw(s, r, MODE_EVENT); }, rule, 300000, 6000000};
    props["C17/Arduino"] = {[](Src& s, Rep& r) { raw(s, r, MODE_IRQ); }, rule, 300000, 6000000};
    props["C20/Arduino"] = {[](Src& s, Rep& r) { raw(s, r, MODE_LIFE); }, rule, 200000, 4000000};
    props["C21/Arduino"] = {c21ard, "distinct scenarios in which a timer expires and at least 8 callbacks run", 10000, 150000};
    return pbt::mainImpl(argc, argv, props);
}
