#pragma once
#include "c21.hpp"
namespace {

// a call with its place in the global order of things
struct Span {
    int64_t a = -1, b = -1;  // sequence number at start and end (-1: didn't happen)
    int64_t ta = 0, tb = 0;  // virtual time
};
struct Clock {
    int64_t n = 0;
    int64_t tick() { return ++n; }
};

using Disp = std::shared_ptr<IHsmEventDispatcher>;
const int64_t LONG = 10000 * MS;

// ---------------------------------------------------------------------------------------------------------------- C16
void c16(Src& src, Rep& rep) {
    enum K { EMIT, ACTION, UNREG, SLEEP, REG };
    struct Op { K k; int h = 0; int ms = 0; };
    struct React { int nth; Op op; };
    struct H { int owner; int invalidAt = 0; int slow = 0; std::vector<React> react; };
    int ns = src.range(1, 3);
    std::vector<H> hs;
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns) + 1);  // last: reactions
    for (int s = 0; s <= ns; ++s) {
        int n = src.range(1, 2);
        for (int i = 0; i < n; ++i) {
            H h;
            h.owner = s;
            if (src.chance(15)) h.invalidAt = src.range(1, 3);
            if (src.chance(20)) h.slow = src.range(1, 5);
            hs.push_back(h);
        }
    }
    auto pickOwn = [&](int s) {
        std::vector<int> c;
        for (size_t i = 0; i < hs.size(); ++i)
            if (hs[i].owner == s) c.push_back(static_cast<int>(i));
        return src.pick(c);
    };
    for (auto& h : hs) {
        int n = static_cast<int>(src.weighted({60, 25, 15}));
        for (int i = 0; i < n; ++i) {
            React r;
            r.nth = src.range(1, 3);
            switch (src.weighted({50, 30, 12})) {
                case 0: r.op.k = EMIT; r.op.h = pickOwn(ns); break;
                case 1: r.op.k = ACTION; break;
                default: r.op.k = UNREG; r.op.h = static_cast<int>(src.below(static_cast<uint32_t>(hs.size()))); break;
            }
            h.react.push_back(r);
        }
    }
    std::vector<std::string> text;
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 8);
        std::string line = "sender " + S(s) + ":";
        for (int i = 0; i < n; ++i) {
            Op o;
            switch (src.weighted({60, 20, 6, 10})) {
                case 0: o.k = EMIT; o.h = pickOwn(s); line += " emit(H" + S(o.h) + ")"; break;
                case 1: o.k = ACTION; line += " action"; break;
                case 2: o.k = UNREG; o.h = static_cast<int>(src.below(static_cast<uint32_t>(hs.size()))); line += " unregister(H" + S(o.h) + ")"; break;
                default: o.k = SLEEP; o.ms = src.range(0, 3); line += " sleep(" + S(o.ms) + ")"; break;
            }
            prog[static_cast<size_t>(s)].push_back(o);
        }
        text.push_back(line);
    }
    for (size_t i = 0; i < hs.size(); ++i) {
        std::string line = "handler H" + S(static_cast<int64_t>(i)) + " owner " + S(hs[i].owner) + (hs[i].invalidAt ? " invalid at call " + S(hs[i].invalidAt) : "");
        for (auto& r : hs[i].react)
            line += " on call " + S(r.nth) + (r.op.k == EMIT ? " emit H" + S(r.op.h) : r.op.k == ACTION ? " action" : " unregister H" + S(r.op.h));
        text.push_back(line);
    }
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create();
        if (!d->start()) fail("start", "start() failed");
        struct HS { HandlerID_t id = 0; std::vector<Span> emits, calls; int64_t unregDone = -1; bool unregByDisp = false; bool invalid = false; int64_t unregCalls = 0; };
        std::vector<HS> h(hs.size());
        struct A { Span enq, run; };
        std::vector<A> acts;
        acts.reserve(1000);
        Clock ck;
        int dispFiber = -1;
        bool inCallback = false;
        auto enter = [&](const std::string& what) {
            Quiet q;
            if (inCallback) fail("nested", what + " runs inside another callback");
            inCallback = true;
            if (dispFiber < 0) dispFiber = fib::self();
            if (fib::self() != dispFiber) fail("thread", what + " runs on a foreign thread");
            if (fib::self() == 0) fail("thread", what + " runs inside the call that caused it");
            fib::step(what);
        };
        std::function<void(const Op&, bool)> exec = [&](const Op& o, bool onDisp) {
            switch (o.k) {
                case EMIT: {
                    HS& x = h[static_cast<size_t>(o.h)];
                    size_t i;
                    { Quiet q; x.emits.emplace_back(); i = x.emits.size() - 1; x.emits[i].a = ck.tick(); fib::step("emit H" + S(o.h)); }
                    d->emitEvent(x.id);
                    { Quiet q; x.emits[i].b = ck.tick(); }
                    rep.label("events emitted");
                    break;
                }
                case ACTION: {
                    size_t i;
                    { Quiet q; acts.emplace_back(); i = acts.size() - 1; acts[i].enq.a = ck.tick(); fib::step("enqueue action " + S(static_cast<int64_t>(i))); }
                    d->enqueueAction([&, i]() {
                        enter("action " + S(static_cast<int64_t>(i)));
                        { Quiet q; if (acts[i].run.a >= 0) fail("action-twice", "action " + S(static_cast<int64_t>(i)) + " runs again"); acts[i].run.a = ck.tick(); }
                        fib::point();
                        { Quiet q; acts[i].run.b = ck.tick(); inCallback = false; }
                    });
                    { Quiet q; acts[i].enq.b = ck.tick(); }
                    rep.label("actions");
                    break;
                }
                case UNREG: {
                    HS& x = h[static_cast<size_t>(o.h)];
                    fib::step("unregister H" + S(o.h));
                    d->unregisterEventHandler(x.id);
                    { Quiet q; if (x.unregDone < 0) { x.unregDone = ck.tick(); x.unregByDisp = onDisp; } }
                    rep.label("unregistered");
                    break;
                }
                default: fib::sleep(o.ms * MS); break;
            }
        };
        for (size_t i = 0; i < hs.size(); ++i) {
            h[i].id = d->registerEventHandler([&, i]() {
                HS& x = h[i];
                size_t k;
                enter("call H" + S(static_cast<int64_t>(i)));
                {
                    Quiet q;
                    if (x.invalid) fail("invalid-called", "handler H" + S(static_cast<int64_t>(i)) + " is called although it returned false");
                    if (x.unregDone >= 0 && (x.unregByDisp || ++x.unregCalls > 1)) fail("unregistered-called", "handler H" + S(static_cast<int64_t>(i)) + " is called after it was unregistered");
                    x.calls.emplace_back();
                    k = x.calls.size();
                    x.calls.back().a = ck.tick();
                    if (x.calls.size() > x.emits.size()) fail("too-many", "handler H" + S(static_cast<int64_t>(i)) + " is called more often than events were emitted");
                }
                for (auto& r : hs[i].react)
                    if (static_cast<size_t>(r.nth) == k) exec(r.op, true);
                if (hs[i].slow) fib::sleep(hs[i].slow * MS);
                else fib::point();
                Quiet q;
                inCallback = false;
                if (static_cast<int>(k) == hs[i].invalidAt) { x.invalid = true; rep.label("handler returned false"); return false; }
                return true;
            });
            for (size_t k = 0; k < i; ++k)
                if (h[k].id == h[i].id) fail("id", "two handlers have the same id");
        }
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) exec(o, false);
            });
        fib::joinSpawned();
        fib::settle(500 * MS);
        // exactly once
        for (size_t i = 0; i < h.size(); ++i)
            if (h[i].unregDone < 0 && !h[i].invalid && h[i].calls.size() != h[i].emits.size())
                fail("lost", "handler H" + S(static_cast<int64_t>(i)) + ": " + S(static_cast<int64_t>(h[i].emits.size())) + " events, " + S(static_cast<int64_t>(h[i].calls.size())) + " calls");
        for (size_t i = 0; i < acts.size(); ++i)
            if (acts[i].run.a < 0) fail("lost", "action " + S(static_cast<int64_t>(i)) + " never ran");
        // order
        struct Ev { Span e, c; std::string n; bool exact; };
        std::vector<Ev> evs;
        for (size_t i = 0; i < h.size(); ++i)
            for (size_t k = 0; k < h[i].calls.size(); ++k) evs.push_back({h[i].emits[k], h[i].calls[k], "H" + S(static_cast<int64_t>(i)) + "#" + S(static_cast<int64_t>(k)), h[i].unregDone < 0});
        for (auto& x : evs)
            for (auto& y : evs)
                // NOTE: events which were emitted before a handler got unregistered may be dropped, so that later ones follow
                if (x.exact && x.e.b < y.e.a && x.c.a > y.c.a) fail("order", "event " + x.n + " was emitted before " + y.n + ", but handled after it");
        for (size_t i = 0; i < acts.size(); ++i) {
            for (size_t k = 0; k < acts.size(); ++k)
                if (acts[i].enq.b < acts[k].enq.a && acts[i].run.a > acts[k].run.a) fail("order", "action " + S(static_cast<int64_t>(i)) + " was enqueued before action " + S(static_cast<int64_t>(k)) + ", but runs after it");
            for (auto& y : evs)
                if (acts[i].enq.b < y.e.a && acts[i].run.a > y.c.a) fail("order", "action " + S(static_cast<int64_t>(i)) + " was enqueued before event " + y.n + " was emitted, but runs after it");
        }
        back.finish(d);
    });
    note(rep, st);
}

// many events at once, sent while the dispatcher can't handle them
void c16burst(Src& src, Rep& rep) {
    static const int bounds[] = {0, 256, 1024, 4096, 8192, 16384, 65536};
    struct B { int kind; int n; bool inside; };
    std::vector<B> bs;
    int nb = src.range(1, 3);
    std::vector<std::string> text;
    bool huge = src.chance(12);
    for (int i = 0; i < nb; ++i) {
        B b{static_cast<int>(src.below(3)), 0, src.chance(60)};
        b.n = bounds[src.below(huge ? 7 : 5)] + src.range(0, 40);
        static const char* nm[] = {"events", "actions", "interrupt-safe events"};
        text.push_back(std::string(b.inside ? "callback" : "thread") + ": " + S(b.n) + " " + nm[b.kind]);
        bs.push_back(b);
    }
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    tune.preemptMem = false;
    tune.stepLimit = 6000000;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create(70000);
        if (!d->start()) fail("start", "start() failed");
        int64_t want[3] = {}, got[3] = {};
        bool blocked = false, release = false;
        HandlerID_t eh = d->registerEventHandler([&]() { ++got[0]; return true; });
        HandlerID_t qh = d->registerEnqueuedEventHandler([&](const EventID_t e) { if (e != got[2]) fail("order", "interrupt-safe event " + S(e) + " is handled instead of " + S(got[2])); ++got[2]; return true; });
        auto go = [&](const B& b) {
            fib::step("burst");
            for (int i = 0; i < b.n; ++i) {
                if (b.kind == 0) d->emitEvent(eh);
                else if (b.kind == 1) {
                    int64_t n = want[1];
                    d->enqueueAction([&got, n]() { if (got[1] != n) fail("order", "action " + S(n) + " runs instead of " + S(got[1])); ++got[1]; });
                } else if (!d->enqueueEvent(qh, static_cast<int>(want[2]))) fail("capacity", "event " + S(want[2]) + " was refused");
                ++want[b.kind];
            }
            rep.label("bursts");
        };
        for (auto& b : bs) {
            if (b.inside) {
                bool done = false;
                d->enqueueAction([&]() { go(b); done = true; });
                while (!done) fib::sleep(1 * MS);
            } else {
                blocked = release = false;
                d->enqueueAction([&]() { blocked = true; while (!release) fib::sleep(1 * MS); });
                while (!blocked) fib::sleep(1 * MS);
                go(b);
                release = true;
            }
            // enqueued by this case itself
            fib::settle(3000 * MS);
            for (int k = 0; k < 3; ++k)
                if (want[k] != got[k]) fail("lost", S(want[k]) + " sent, " + S(got[k]) + " handled (kind " + S(k) + ")");
        }
        back.finish(d);
    });
    note(rep, st);
    rep.nontrivial = true;
    for (auto& b : bs) rep.hash = pbt::hashStr(S(b.n * 10 + b.kind), rep.hash);
}

// ---------------------------------------------------------------------------------------------------------------- machines
// A machine whose every event is distinct and always accepted: A <-> B, four callbacks each.
struct Toggle : HierarchicalStateMachine {
    std::function<void(bool)> onStartup;         // startup callbacks (true: last one)
    std::function<void(EventID_t)> onEventDone;  // last callback of an event
    bool inside = false;
    EventID_t cur = -1;
    bool onDisp = false;
    int startup = 0;
    int callbackPoints = 1;
    int slowMs = 0;
    Toggle() : HierarchicalStateMachine(1) {}
    void cb(const std::string& w, EventID_t e) {
        {
            Quiet q;
            if (inside) fail("overlap", "callback " + w + " of event " + S(e) + " runs while another callback of the machine is running");
            inside = true;
            onDisp = fib::self() != 0;  // startup happens in initialize()
            fib::step(w + " " + (e >= 0 ? "event " + S(e) : ""));
        }
        for (int i = 0; i < callbackPoints; ++i) fib::point();
        if (slowMs && w == "transition") fib::sleep(slowMs * MS);
        if (w[0] == 'c' && e >= 0 && onEventDone) onEventDone(e);
        if (startup < 2 && onStartup) { ++startup; onStartup(w[0] == 'c'); }
        Quiet q;
        inside = false;
    }
    void build(const std::vector<EventID_t>& events) {
        for (int s : {1, 2}) {
            registerState(s, [this, s](const VariantVector_t&) {
                    cb("changed " + S(s), cur);
                },
                [this, s](const VariantVector_t&) { cb("enter " + S(s), cur); return true; },
                [this, s]() { cb("exit " + S(s), cur); return true; });
        }
        for (EventID_t e : events) {
            for (int s : {1, 2})
                registerTransition(s, 3 - s, e, [this, e](const VariantVector_t&) { cb("transition", e); Quiet q; cur = e; });
        }
    }
};

// ---------------------------------------------------------------------------------------------------------------- C19
void c19(Src& src, Rep& rep) {
    enum K { SEND, SYNC, ISR, ACTION, TSTART, TSTOP, SLEEP, SIGNAL, TQUERY };
    struct Op { K k; int m; EventID_t ev; int ms; int where; };  // where: 0 callback, 1 action, 2/3 startup callbacks
    int nm = src.range(1, 2), ns = src.range(1, 4);
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    std::vector<std::vector<EventID_t>> events(static_cast<size_t>(nm));
    std::vector<std::string> text;
    int slow = src.chance(20) ? src.range(1, 10) : 0;
    std::vector<Op> reactions;  // performed by the machine on its nth handled event
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 7);
        std::string line = "sender " + S(s) + ":";
        int timers = 0;
        for (int i = 0; i < n; ++i) {
            Op o{};
            o.k = static_cast<K>(src.weighted({30, 10, 16, 10, 12, 4, 10, 8, 4}));
            o.m = static_cast<int>(src.below(static_cast<uint32_t>(nm)));
            o.ev = 1000 * (s + 1) + i;
            o.ms = o.k == TSTART ? src.range(1, 30) : src.range(0, 5);
            static const char* nmx[] = {"send", "sendSync", "isr", "action", "timer", "stopTimer", "sleep", "signal", "isTimerRunning"};
            if (o.k == TSTOP || o.k == TQUERY) {
                if (!timers) o.k = SLEEP;
                else o.ev = timers;
            }
            if (o.k == TSTART) timers = o.ev;
            line += std::string(" ") + nmx[o.k] + "(m" + S(o.m) + "," + S(o.ev) + "," + S(o.ms) + ")";
            if (o.k <= ISR || o.k == TSTART || o.k == SIGNAL) events[static_cast<size_t>(o.m)].push_back(o.ev);
            prog[static_cast<size_t>(s)].push_back(o);
        }
        text.push_back(line);
    }
    int nr = static_cast<int>(src.weighted({50, 30, 20}));
    for (int i = 0; i < nr; ++i) {
        Op o{};
        static const K ks[] = {SEND, ISR, ACTION, TSTART};
        o.k = ks[src.below(4)];
        o.m = static_cast<int>(src.below(static_cast<uint32_t>(nm)));
        o.ev = 9000 + i;
        o.ms = o.k == TSTART ? src.range(1, 20) : src.range(1, 4);
        o.where = static_cast<int>(src.weighted({40, 20, 20, 20}));
        if (o.k != ACTION) events[static_cast<size_t>(o.m)].push_back(o.ev);
        text.push_back("reaction " + S(i) + " kind " + S(o.k) + " m" + S(o.m) + " event " + S(o.ev) + " where " + S(o.where));
        reactions.push_back(o);
    }
    int cache = src.range(1, 6);
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create(static_cast<size_t>(cache));
        std::vector<std::unique_ptr<Toggle>> ms;
        struct EvS { int sent = 0; int handled = 0; bool accepted = false; bool maybe = false; bool timer = false; int64_t order = 0; int sender = -1; bool isr = false; int m = 0; int64_t start = -1; bool stopped = false; };
        std::map<EventID_t, EvS> ev;
        struct A { Span enq, run; int sender; };
        std::map<int, A> acts;
        Clock ck;
        int handledTotal = 0;
        std::function<void(const Op&, int)> exec;
        for (int m = 0; m < nm; ++m) {
            ms.emplace_back(new Toggle);
            Toggle& t = *ms.back();
            t.slowMs = slow;
            t.build(events[static_cast<size_t>(m)]);
            t.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t&) { fail("refused", "event " + S(e) + " was refused"); });
            for (EventID_t e : events[static_cast<size_t>(m)]) t.registerTimer(e, e);
            t.onEventDone = [&, m](EventID_t e) {
                {
                    Quiet q;
                    EvS& x = ev[e];
                    if (x.m != m) fail("wrong-machine", "event " + S(e) + " is handled by machine " + S(m));
                    if (++x.handled > 1) fail("duplicate", "event " + S(e) + " is handled twice");
                    x.order = ck.tick();
                    ++handledTotal;
                }
                // reactions inside callbacks: on the first events handled
                size_t n = static_cast<size_t>(handledTotal);
                if (n <= reactions.size() && reactions[n - 1].where == 0) exec(reactions[n - 1], 100);
            };
            t.onStartup = [&, m](bool last) {
                if (m == 0)
                    for (auto& r : reactions)
                        if (r.where == (last ? 3 : 2) && (r.k == ACTION || r.m == 0)) exec(r, 102);
            };
        }
        exec = [&](const Op& o, int sender) {
            Toggle& t = *ms[static_cast<size_t>(o.m)];
            EvS* x = nullptr;
            if (o.k != ACTION && t.startup == 0) return;  // not initialized yet
            if (o.k == SEND || o.k == SYNC || o.k == ISR || o.k == SIGNAL || o.k == TSTART) {
                Quiet q;
                x = &ev[o.ev];
                x->m = o.m;
                x->sender = sender;
                x->start = ck.tick();
                x->sent = 1;
            }
            switch (o.k) {
                case SEND:
                    fib::step("send " + S(o.ev));
                    { Quiet q; x->accepted = true; }
                    t.transition(o.ev);
                    rep.label("events");
                    break;
                case SYNC: {
                    fib::step("send sync " + S(o.ev));
                    { Quiet q; x->accepted = true; }
                    bool ok = t.transitionSync(o.ev, HSM_WAIT_INDEFINITELY);
                    Quiet q;
                    if (!ok) fail("sync", "transitionSync(" + S(o.ev) + ") returned false");
                    if (!x->handled) fail("sync", "transitionSync(" + S(o.ev) + ") returned before the event was handled");
                    rep.label("sync events");
                    break;
                }
                case ISR: {
                    fib::step("interrupt-safe " + S(o.ev));
                    { Quiet q; x->maybe = true; x->isr = true; }
                    bool ok;
                    { NoAlloc na; ok = t.transitionInterruptSafe(o.ev); }
                    Quiet q;
                    x->maybe = false;
                    x->accepted = ok;
                    rep.label(ok ? "interrupt-safe events accepted" : "interrupt-safe events refused");
                    break;
                }
                case SIGNAL: {
                    fib::step("signal " + S(o.ev));
                    { Quiet q; x->isr = true; x->sender = -1; }
                    EventID_t id = o.ev;
                    Toggle* pt = &t;
                    auto handler = [&ev, id, pt]() {
                        bool ok;
                        { NoAlloc na; ok = pt->transitionInterruptSafe(id); }
                        Quiet q;
                        ev[id].accepted = ok;
                    };
                    if (bk::SIGNALS) fib::raise(handler);
                    else handler();
                    rep.label("signals");
                    break;
                }
                case ACTION: {
                    int id = static_cast<int>(o.ev);
                    { Quiet q; acts[id].sender = sender; acts[id].enq.a = ck.tick(); fib::step("enqueue action " + S(id)); }
                    d->enqueueAction([&, id]() {
                        Quiet q;
                        fib::step("action " + S(id));
                        for (auto& mm : ms)
                            if (mm->inside && mm->onDisp) fail("overlap", "action runs while a callback of a machine is running");
                        if (acts[id].run.a >= 0) fail("duplicate", "action runs twice");
                        acts[id].run.a = ck.tick();
                    });
                    { Quiet q; acts[id].enq.b = ck.tick(); }
                    rep.label("actions");
                    break;
                }
                case TSTART:
                    fib::step("start timer " + S(o.ev) + " " + S(o.ms) + " ms");
                    { Quiet q; x->timer = true; x->accepted = true; }
                    t.startTimer(o.ev, static_cast<unsigned>(o.ms), true);
                    rep.label("timers");
                    break;
                case TSTOP:
                    fib::step("stop timer " + S(o.ev));
                    { Quiet q; ev[o.ev].stopped = true; }
                    t.stopTimer(o.ev);
                    break;
                case TQUERY: (void)t.isTimerRunning(o.ev); break;
                default: fib::sleep(o.ms * MS / 2); break;
            }
        };
        for (auto& pm : ms)
            if (!pm->initialize(d)) fail("init", "initialize() failed");
        // the others run in actions
        for (auto& r : reactions)
            if (r.where == 1) d->enqueueAction([&]() { exec(r, 101); });
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) exec(o, s);
                fib::flushSignals();
            });
        fib::joinSpawned();
        fib::settle(LONG);
        for (auto& kv : ev) {
            EvS& x = kv.second;
            if (x.accepted && !x.handled && !x.stopped) fail("lost", std::string(x.timer ? "timer " : "") + "event " + S(kv.first) + " was accepted, but never handled");
            if (!x.accepted && x.handled) fail("phantom", "event " + S(kv.first) + " was refused, but handled");
        }
        for (auto& kv : acts)
            if (kv.second.run.a < 0) fail("lost", "action " + S(kv.first) + " never ran");
        for (auto& a : ev)
            for (auto& b : ev) {
                EvS &x = a.second, &y = b.second;
                if (x.m != y.m || x.sender < 0 || x.sender != y.sender || x.isr != y.isr || x.timer || y.timer || !x.handled || !y.handled) continue;
                if (x.start < y.start && x.order > y.order) fail("order", "events " + S(a.first) + " and " + S(b.first) + " of one sender are handled in the wrong order");
            }
        for (auto& a : acts)
            for (auto& b : acts)
                if (a.second.enq.b < b.second.enq.a && a.second.run.a > b.second.run.a) fail("order", "actions run in the wrong order");
        for (auto& pm : ms) pm->release();
        ms.clear();
        back.finish(d);
    });
    note(rep, st);
}


// ---------------------------------------------------------------------------------------------------------------- C15
// timers of raw handlers, several threads; each timer is used by one thread only, so that its schedule is known
void c15Raw(Src& src, Rep& rep) {
    enum K { START, RESTART, STOP, QUERY, SLEEP, UNREG };
    struct Op { K k; int t = 0, h = 0; unsigned ms = 0; bool single = false; };
    int ns = src.range(1, 3);
    bool strict = src.chance(50);
    bool repeatsEnd = true;
    struct H { int owner; int invalidAt = 0; int slow = 0; };
    std::vector<H> hs;
    std::vector<int> owner;  // of timers
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 2);
        for (int i = 0; i < n; ++i) {
            H h{s};
            if (src.chance(10)) h.invalidAt = src.range(1, 3);
            if (!strict && src.chance(30)) h.slow = src.range(1, 12);
            hs.push_back(h);
        }
        n = src.range(1, 3);
        for (int i = 0; i < n; ++i) owner.push_back(s);
    }
    const int nt = static_cast<int>(owner.size());
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    std::vector<std::string> text;
    auto own = [&](const std::vector<int>& o, int s) {
        std::vector<int> c;
        for (size_t i = 0; i < o.size(); ++i)
            if (o[i] == s) c.push_back(static_cast<int>(i));
        return src.pick(c);
    };
    std::vector<int> hOwner;
    for (auto& h : hs) hOwner.push_back(h.owner);
    static const char* names[] = {"start", "restart", "stop", "running?", "sleep", "unregister"};
    bool big = false;
    for (int s = 0; s < ns; ++s) {
        std::string line = "thread " + S(s) + ":";
        int n = src.range(1, 10);
        for (int i = 0; i < n; ++i) {
            Op o{};
            o.k = static_cast<K>(src.weighted({35, 12, 10, 12, 28, 3}));
            o.t = own(owner, s);
            o.h = own(hOwner, s);
            if (o.k == START) {
                o.single = src.chance(50);
                o.ms = static_cast<unsigned>(src.weighted({60, 30, 4, 3, 2}) == 0 ? src.range(1, 20) : 0);
                if (!o.ms) {
                    switch (src.weighted({60, 10, 15, 15})) {
                        case 0: o.ms = static_cast<unsigned>(src.range(20, 300)); break;
                        case 1: o.ms = 0; break;
                        case 2: o.ms = 2147483000u + static_cast<unsigned>(src.below(1300)); o.single = true; break;
                        default: o.ms = src.chance(50) ? 4294967295u : 2600000000u + src.below(100000); o.single = true; break;
                    }
                }
                if (o.ms > bk::MAX_INTERVAL) o.ms = static_cast<unsigned>(bk::MAX_INTERVAL);  // known finding
                if (o.ms > 1000000) big = true;
            }
            if (o.k == SLEEP) o.ms = static_cast<unsigned>(src.chance(70) ? src.range(0, 30) : src.range(30, 400));
            line += std::string(" ") + names[o.k];
            if (o.k == START) line += "(t" + S(o.t) + ",h" + S(o.h) + "," + S(o.ms) + (o.single ? ",once)" : ",repeat)");
            else if (o.k == UNREG) line += "(h" + S(o.h) + ")";
            else if (o.k == SLEEP) line += "(" + S(o.ms) + ")";
            else line += "(t" + S(o.t) + ")";
            prog[static_cast<size_t>(s)].push_back(o);
        }
        text.push_back(line);
    }
    for (size_t i = 0; i < hs.size(); ++i) text.push_back("handler h" + S(static_cast<int64_t>(i)) + (hs[i].invalidAt ? " invalid at call " + S(hs[i].invalidAt) : "") + (hs[i].slow ? " slow " + S(hs[i].slow) : ""));
    if (rep.verbose) rep.desc << describe(text);
    (void)repeatsEnd;
    fib::Tune tune;
    tune.stepLimit = 60000;
    if (strict) tune.maxCost = 0;
    else tune.timeJumps = true;
    auto st = fib::run(src, rep, tune, [&]() {
        struct Rec { K k; Span sp; int h; int64_t I; bool single; };
        struct Fire { int64_t seq, t; int h; };
        struct Query { int64_t a, b, ta, tb; bool r; };
        struct T { std::vector<Rec> ops; std::vector<Fire> fires; std::vector<Query> q; };
        std::vector<T> ts(static_cast<size_t>(nt));
        Clock ck;
        std::vector<HandlerID_t> hid(hs.size());
        std::vector<int> calls(hs.size(), 0);
        std::vector<int64_t> dead(hs.size(), -1);  // unregistered or invalid since
        std::vector<int64_t> deadFrom(hs.size(), -1);  // ... or is being unregistered since
        bool inHandler = false, destroyed = false;
        bk::Backend back;
        Disp d = back.create();
        for (size_t h = 0; h < hs.size(); ++h)
            hid[h] = d->registerTimerHandler([&, h](const TimerID_t id) {
                int n;
                {
                    Quiet q;
                    if (inHandler) fail("nested", "two timer handlers at the same time");
                    if (destroyed) fail("destroyed", "timer handler after destruction");
                    inHandler = true;
                    fib::step("fire t" + S(id - 1) + " h" + S(static_cast<int64_t>(h)));
                    if (id < 1 || id > nt) fail("id", "unknown timer " + S(id));
                    if (dead[h] >= 0) fail("unregistered-called", "handler h" + S(static_cast<int64_t>(h)) + " is called although it was unregistered or returned false");
                    ts[static_cast<size_t>(id - 1)].fires.push_back({ck.tick(), fib::now(), static_cast<int>(h)});
                    n = ++calls[h];
                }
                if (hs[h].slow) fib::sleep(hs[h].slow * MS);
                else fib::point();
                Quiet q;
                inHandler = false;
                rep.label("timer events");
                if (n == hs[h].invalidAt) { dead[h] = ck.tick(); if (deadFrom[h] < 0) deadFrom[h] = dead[h]; rep.label("handler returned false"); return false; }
                return true;
            });
        if (!d->start()) fail("start", "start() failed");
        auto exec = [&](const Op& o) {
            T& t = ts[static_cast<size_t>(o.t)];
            Span sp;
            { Quiet q; sp.a = ck.tick(); sp.ta = fib::now(); }
            TimerID_t id = o.t + 1;
            switch (o.k) {
                case START:
                    fib::step("start t" + S(o.t) + " " + S(o.ms));
                    d->startTimer(hid[static_cast<size_t>(o.h)], id, o.ms, o.single);
                    rep.label(o.ms > 1000000 ? "long timers" : "timers started");
                    break;
                case RESTART: fib::step("restart t" + S(o.t)); d->restartTimer(id); rep.label("restarts"); break;
                case STOP: fib::step("stop t" + S(o.t)); d->stopTimer(id); rep.label("stops"); break;
                case UNREG: {
                    fib::step("unregister h" + S(o.h));
                    if (deadFrom[static_cast<size_t>(o.h)] < 0) deadFrom[static_cast<size_t>(o.h)] = ck.tick();
                    d->unregisterTimerHandler(hid[static_cast<size_t>(o.h)]);
                    Quiet q;
                    if (dead[static_cast<size_t>(o.h)] < 0) dead[static_cast<size_t>(o.h)] = ck.tick();
                    break;
                }
                case QUERY: {
                    bool r = d->isTimerRunning(id);
                    Quiet q;
                    fib::step("isTimerRunning t" + S(o.t) + " -> " + S(r));
                    t.q.push_back({sp.a, ck.tick(), sp.ta, fib::now(), r});
                    rep.label("queries");
                    return;
                }
                default: fib::sleep(static_cast<int64_t>(o.ms) * MS); return;
            }
            Quiet q;
            sp.b = ck.tick();
            sp.tb = fib::now();
            if (o.k == UNREG) {
                for (int i = 0; i < nt; ++i)
                    if (owner[static_cast<size_t>(i)] == hs[static_cast<size_t>(o.h)].owner) ts[static_cast<size_t>(i)].ops.push_back({UNREG, sp, o.h, 0, false});
            } else {
                t.ops.push_back({o.k, sp, o.h, static_cast<int64_t>(o.ms) * MS, o.single});
            }
        };
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) exec(o);
            });
        fib::joinSpawned();
        fib::settle(700 * MS);
        if (big) {  // let the long ones expire; the repeating ones would fire billions of times
            for (int i = 0; i < nt; ++i) {
                auto& ops = ts[static_cast<size_t>(i)].ops;
                bool isBig = true;
                for (auto& o : ops) isBig = isBig && (o.k != START || o.single);
                if (isBig) continue;
                Op o{STOP};
                o.t = i;
                exec(o);
            }
            fib::settle(static_cast<int64_t>(4294967296LL + 1000) * MS);
            for (int i = 0; i < nt; ++i) { Op o{QUERY}; o.t = i; exec(o); }
        }
        int64_t endT = fib::now(), endSeq = ck.tick();
        back.finish(d);
        destroyed = true;
        fib::settle(500 * MS);
        Quiet quiet;
        const int64_t SLACK = 2 * MS;
        // every behaviour of a timer must be explained by some order of its operations and expiries
        struct M { bool active = false, known = false; int h = -1; int64_t I = 0; bool single = false; int64_t ta = 0, tb = 0, k = 0;
            bool operator==(const M& o) const { return active == o.active && known == o.known && h == o.h && I == o.I && single == o.single && ta == o.ta && k == o.k; }
        };
        for (int i = 0; i < nt; ++i) {
            T& t = ts[static_cast<size_t>(i)];
            std::string nm = "timer t" + S(i);
            std::string why;
            auto fire = [&](M& m, const Fire& f) {
                if (!m.active) { why = "fires although it isn't running"; return false; }
                if (f.h != m.h) { why = "calls a wrong handler"; return false; }
                ++m.k;
                if (f.t < m.ta + m.k * m.I) { why = "fires " + S((m.ta + m.k * m.I - f.t) / US) + " us too early"; return false; }
                if (strict && f.t > m.tb + m.k * (m.I + bk::DRIFT) + SLACK) { why = "fires " + S((f.t - m.tb - m.k * m.I) / US) + " us late"; return false; }
                if (m.single) m.active = false;
                if (hs[static_cast<size_t>(m.h)].invalidAt && dead[static_cast<size_t>(m.h)] == f.seq) m.active = m.known = false;
                return true;
            };
            auto due = [&](const M& m, int64_t now, int64_t seq) {  // nothing overdue?
                if (m.active && dead[static_cast<size_t>(m.h)] >= 0 && dead[static_cast<size_t>(m.h)] < seq) return true;
                if (strict && m.active && m.tb + (m.k + 1) * (m.I + bk::DRIFT) + SLACK < now) { why = "didn't fire, overdue since " + S((now - m.tb - (m.k + 1) * m.I) / US) + " us"; return false; }
                return true;
            };
            auto apply = [&](M m, const Rec& o, bool ok) {
                if (m.h >= 0 && dead[static_cast<size_t>(m.h)] >= 0 && dead[static_cast<size_t>(m.h)] < o.sp.a) m.active = m.known = false;
                switch (o.k) {
                    case START:
                        if (o.I == 0 || !ok) break;
                        m = M{true, true, o.h, o.I, o.single, o.sp.ta, o.sp.tb, 0};
                        break;
                    case RESTART:
                        if (!m.known) break;
                        m.active = true;
                        m.ta = o.sp.ta;
                        m.tb = o.sp.tb;
                        m.k = 0;
                        break;
                    case STOP: m.active = m.known = false; break;
                    default:
                        if (m.known && m.h == o.h) m.active = m.known = false;
                        break;
                }
                return m;
            };
            std::vector<M> states{M()};
            size_t fi = 0, qi = 0;
            auto run = [&](int64_t until, std::vector<M>& sts) {  // fires and queries before 'until'
                for (;;) {
                    bool f = fi < t.fires.size() && t.fires[fi].seq < until;
                    bool q = qi < t.q.size() && t.q[qi].b < until;
                    if (!f && !q) return;
                    std::vector<M> nx;
                    std::string at;
                    if (f && (!q || t.fires[fi].seq < t.q[qi].a)) {
                        at = " at " + S((t.fires[fi].t - 1000 * fib::SEC) / US) + " us";
                        for (M m : sts)
                            if (fire(m, t.fires[fi])) nx.push_back(m);
                        ++fi;
                    } else {
                        auto& Q = t.q[qi];
                        at = " (query at " + S((Q.ta - 1000 * fib::SEC) / US) + " us)";
                        for (M m : sts) {
                            bool gone = m.h >= 0 && dead[static_cast<size_t>(m.h)] >= 0 && dead[static_cast<size_t>(m.h)] < Q.b;
                            bool canTrue = m.active && (!gone || dead[static_cast<size_t>(m.h)] > Q.a), canFalse = !m.active || gone;
                            if (fi < t.fires.size() && t.fires[fi].seq < Q.b && m.active && m.single) canFalse = true;  // expires meanwhile
                            if (m.active && m.single && m.ta + m.I <= Q.tb) canFalse = canFalse || (fi < t.fires.size() && t.fires[fi].t <= Q.tb);
                            if (Q.r ? canTrue : canFalse) nx.push_back(m);
                            else why = Q.r ? "is reported as running, but isn't" : "is reported as not running, but is";
                        }
                        ++qi;
                    }
                    if (nx.empty()) fail("timer", nm + " " + why + at);
                    sts = nx;
                }
            };
            for (auto& o : t.ops) {
                run(o.sp.a, states);
                std::vector<M> out;
                // expiries during the operation: before or after it takes effect
                size_t f0 = fi;
                while (fi < t.fires.size() && t.fires[fi].seq < o.sp.b) ++fi;
                for (M m : states) {
                    if (!due(m, o.sp.ta, o.sp.a)) continue;
                    for (size_t cut = f0; cut <= fi; ++cut) {
                        if (cut > f0 && !fire(m, t.fires[cut - 1])) break;
                        const int64_t dd = dead[static_cast<size_t>(o.h)], df = deadFrom[static_cast<size_t>(o.h)];
                        for (int registered = 0; registered < 2; ++registered) {  // was the handler still registered?
                            if (registered ? dd >= 0 && dd < o.sp.a : df < 0 || df > o.sp.b) continue;
                            M x = apply(m, o, registered);
                            bool ok = true;
                            for (size_t k = cut; ok && k < fi; ++k) ok = fire(x, t.fires[k]);
                            bool known = false;
                            for (auto& y : out) known = known || y == x;
                            if (ok && !known) out.push_back(x);
                        }
                    }
                }
                if (out.empty()) fail("timer", nm + " " + why + " (operation " + names[o.k] + " at " + S((o.sp.ta - 1000 * fib::SEC) / US) + " us)");
                states = out;
            }
            run(endSeq, states);
            if (qi < t.q.size() || fi < t.fires.size()) {
                if (fi < t.fires.size()) { M m = states[0]; for (; fi < t.fires.size(); ++fi) if (!fire(m, t.fires[fi])) fail("timer", nm + " " + why); }
            }
            bool ok = false;
            for (M m : states) {
                bool gone = m.active && dead[static_cast<size_t>(m.h)] >= 0;
                if (!due(m, endT, endSeq)) continue;
                if (m.active && !gone && m.I <= 300 * MS && m.k == 0) { why = "never fired"; continue; }
                if (m.active && !gone && m.single && big) { why = "never fired"; continue; }
                ok = true;
            }
            if (!ok) fail("timer", nm + " " + why);
        }
    });
    note(rep, st);
    if (strict) rep.label("exact schedules");
}
// timers of machines: the exact sequence of events, operations never coincide with expiries
void c15Hsm(Src& src, Rep& rep) {
    int nm = src.range(1, 2);
    struct Op { int k, m, t; unsigned ms; bool single; int gap; };
    std::vector<Op> ops;
    int n = src.range(2, 14);
    std::vector<std::string> text;
    for (int i = 0; i < n; ++i) {
        Op o{static_cast<int>(src.weighted({50, 15, 12, 15, 8})), static_cast<int>(src.below(static_cast<uint32_t>(nm))), src.range(0, 2), static_cast<unsigned>(src.range(1, 12) * 10), src.chance(50), src.range(0, 9) * 10};
        static const char* nmx[] = {"start", "restart", "stop", "running?", "start from callback"};
        text.push_back(std::string(nmx[o.k]) + " m" + S(o.m) + " timer " + S(o.t) + " " + S(o.ms) + (o.single ? " once" : " repeat") + ", then wait " + S(o.gap));
        ops.push_back(o);
    }
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    tune.maxCost = 0;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create();
        std::vector<std::unique_ptr<Toggle>> ms;
        struct Seen { int64_t t; int m; EventID_t e; };
        std::vector<Seen> seen;
        std::function<void()> inCallback;
        for (int m = 0; m < nm; ++m) {
            ms.emplace_back(new Toggle);
            std::vector<EventID_t> evs;
            for (int t = 0; t < 3; ++t) evs.push_back(100 * (m + 1) + t);
            evs.push_back(7);
            ms.back()->build(evs);
            for (int t = 0; t < 3; ++t) ms.back()->registerTimer(10 * (m + 1) + t, 100 * (m + 1) + t);
            ms.back()->onEventDone = [&, m](EventID_t e) {
                if (e == 7) { auto f = inCallback; f(); return; }
                Quiet q;
                seen.push_back({fib::now(), m, e});
            };
            if (!ms.back()->initialize(d)) fail("init", "initialize() failed");
        }
        struct M { bool active = false, known = false; int64_t I = 0, next = 0; bool single = false; };
        M mod[2][3];
        fib::sleep(3 * MS);
        int64_t base = fib::now();
        std::vector<Seen> want;
        auto advance = [&](int64_t to) {
            for (;;) {
                int bm = -1, bt = -1;
                for (int m = 0; m < nm; ++m)
                    for (int t = 0; t < 3; ++t)
                        if (mod[m][t].active && mod[m][t].next <= to && (bm < 0 || mod[m][t].next < mod[bm][bt].next)) { bm = m; bt = t; }
                if (bm < 0) return;
                M& x = mod[bm][bt];
                want.push_back({x.next, bm, 100 * (bm + 1) + bt});
                if (x.single) x.active = false;
                else x.next += x.I;
            }
        };
        for (auto& o : ops) {
            fib::settle(o.gap * MS + 10 * US);
            int64_t t0 = fib::now();
            advance(t0);
            TimerID_t id = 10 * (o.m + 1) + o.t;
            M& x = mod[o.m][o.t];
            Toggle& t = *ms[static_cast<size_t>(o.m)];
            switch (o.k) {
                case 0: t.startTimer(id, o.ms, o.single); x = M{true, true, o.ms * MS, t0 + o.ms * MS, o.single}; break;
                case 1: t.restartTimer(id); if (x.known) { x.active = true; x.next = t0 + x.I; } break;
                case 2: t.stopTimer(id); x = M(); break;
                case 3: {
                    bool r = t.isTimerRunning(id);
                    if (r != x.active) fail("running", "isTimerRunning() is " + S(r) + " for timer " + S(id));
                    break;
                }
                default:
                    inCallback = [&]() { t.startTimer(id, o.ms, o.single); };
                    if (!t.transitionSync(7, HSM_WAIT_INDEFINITELY)) fail("sync", "transitionSync() failed");
                    x = M{true, true, o.ms * MS, t0 + o.ms * MS, o.single};
                    break;
            }
            if (fib::now() - t0 > US) fail("harness", "time passed");
            rep.label("timer operations");
        }
        fib::settle(400 * MS + 5 * US);
        advance(fib::now());
        for (int m = 0; m < nm; ++m)
            for (int t = 0; t < 3; ++t) ms[static_cast<size_t>(m)]->stopTimer(10 * (m + 1) + t);
        {
        Quiet quiet;
        auto ord = [](const Seen& a, const Seen& b) { return std::make_tuple(a.t, a.m, a.e) < std::make_tuple(b.t, b.m, b.e); };
        // per timer the schedule is exact; up to 1 ms of rounding
        std::stable_sort(want.begin(), want.end(), ord);
        for (int m = 0; m < nm; ++m)
            for (int t = 0; t < 3; ++t) {
                EventID_t e = 100 * (m + 1) + t;
                std::vector<int64_t> a, b;
                for (auto& s : seen) if (s.e == e && s.m == m) a.push_back(s.t);
                for (auto& s : want) if (s.e == e) b.push_back(s.t);
                for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
                    if (i >= a.size()) {
                        if (b[i] + 2 * MS >= fib::now()) continue;
                        fail("timer", "event " + S(e) + " expected at " + S((b[i] - base) / US) + " us is missing");
                    }
                    if (i >= b.size()) fail("timer", "unexpected event " + S(e) + " at " + S((a[i] - base) / US) + " us");
                    if (a[i] < b[i] || a[i] > b[i] + 2 * MS) fail("timer", "event " + S(e) + " at " + S((a[i] - base) / US) + " us, expected at " + S((b[i] - base) / US) + " us");
                }
                rep.label("timer events", static_cast<int64_t>(a.size()));
            }
        }
        for (auto& m : ms) m->release();
        ms.clear();
        back.finish(d);
    });
    note(rep, st);
    rep.nontrivial = n >= 5 && st.switches >= 10;
    for (auto& o : ops) rep.hash = pbt::hashStr(S(((o.k * 10 + o.m) * 10 + o.t) * 1000 + o.ms), rep.hash);
}
void c15(Src& src, Rep& rep) {
    if (bk::DRIFT || src.chance(65)) c15Raw(src, rep);  // NOTE: the second one needs exact expiry times
    else c15Hsm(src, rep);
}


// ---------------------------------------------------------------------------------------------------------------- C17
void c17(Src& src, Rep& rep) {
    enum K { ENQ, SIG, SLEEP, UNREG, EMIT, ACTION, TIMER, FREE };
    struct Op { K k; int h; int id; int ms; };
    int cap = src.range(1, 6), nh = src.range(1, 3), ns = src.range(1, 4);
    bool machine = src.chance(35);  // the last handler is a machine
    bool blocked = src.chance(50);  // the dispatcher is busy while the events are sent
    std::vector<int> invalidAt(static_cast<size_t>(nh), 0), slow(static_cast<size_t>(nh), 0);
    for (int h = 0; h < nh; ++h) {
        if (!machine || h < nh - 1)
            if (src.chance(12)) invalidAt[static_cast<size_t>(h)] = src.range(1, 3);
        if (src.chance(20)) slow[static_cast<size_t>(h)] = src.range(1, 4);
    }
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    std::vector<std::string> text;
    text.push_back("queue size " + S(cap) + (blocked ? ", dispatcher is blocked at first" : "") + (machine ? ", last handler is a machine" : ""));
    int next = 1;
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 10);
        std::string line = "sender " + S(s) + ":";
        for (int i = 0; i < n; ++i) {
            Op o{};
            o.k = static_cast<K>(src.weighted({45, 18, 8, blocked ? 0 : 4, 8, 6, 6, 5}));
            o.h = static_cast<int>(src.below(static_cast<uint32_t>(nh)));
            if (o.k == UNREG && machine && o.h == nh - 1) o.k = ENQ;
            o.id = next++;
            o.ms = src.range(0, 3);
            static const char* nmx[] = {"enqueue", "signal", "sleep", "unregister", "emit", "action", "timer", "register/unregister"};
            line += std::string(" ") + nmx[o.k] + "(h" + S(o.h) + "," + S(o.id) + ")";
            prog[static_cast<size_t>(s)].push_back(o);
        }
        text.push_back(line);
    }
    for (int h = 0; h < nh; ++h)
        if (invalidAt[static_cast<size_t>(h)] || slow[static_cast<size_t>(h)]) text.push_back("handler h" + S(h) + " invalid at call " + S(invalidAt[static_cast<size_t>(h)]) + " slow " + S(slow[static_cast<size_t>(h)]));
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create(static_cast<size_t>(cap));
        struct Ev { Span send; int h = 0; bool ok = false, done = false, sig = false; int sender = 0; int64_t run = -1; };
        std::vector<Ev> ev(static_cast<size_t>(next));
        std::vector<HandlerID_t> hid(static_cast<size_t>(nh));
        std::vector<int64_t> dead(static_cast<size_t>(nh), -1);
        std::vector<int> calls(static_cast<size_t>(nh), 0), afterDead(static_cast<size_t>(nh), 0);
        Clock ck;
        std::unique_ptr<Toggle> m;
        auto handled = [&](int h, int id) {
            Quiet q;
            fib::step("h" + S(h) + " gets " + S(id));
            if (id <= 0 || id >= next) fail("phantom", "handler h" + S(h) + " gets unknown event " + S(id));
            Ev& e = ev[static_cast<size_t>(id)];
            if (e.send.a < 0) fail("phantom", "event " + S(id) + " was never sent");
            if (e.h != h) fail("wrong-handler", "event " + S(id) + " for h" + S(e.h) + " is delivered to h" + S(h));
            if (e.done && !e.ok) fail("phantom", "event " + S(id) + " was refused, but is delivered");
            if (e.run >= 0) fail("duplicate", "event " + S(id) + " is delivered twice");
            if (dead[static_cast<size_t>(h)] >= 0 && ++afterDead[static_cast<size_t>(h)] > 1) fail("unregistered-called", "handler h" + S(h) + " is called after it was unregistered");
            e.run = ck.tick();
        };
        int64_t emitted = 0, emittedRun = 0;
        for (int h = 0; h < nh; ++h) {
            if (machine && h == nh - 1) {
                m.reset(new Toggle);
                std::vector<EventID_t> all;
                for (int i = 1; i < next; ++i) all.push_back(i);
                m->build(all);
                m->slowMs = slow[static_cast<size_t>(h)];
                if (m->transitionInterruptSafe(1)) fail("accepted", "a machine without dispatcher accepted an event");
                m->onEventDone = [&, h](EventID_t e) { handled(h, e); };
            } else {
                hid[static_cast<size_t>(h)] = d->registerEnqueuedEventHandler([&, h](const EventID_t e) {
                    handled(h, e);
                    if (slow[static_cast<size_t>(h)]) fib::sleep(slow[static_cast<size_t>(h)] * MS);
                    else fib::point();
                    Quiet q;
                    if (++calls[static_cast<size_t>(h)] == invalidAt[static_cast<size_t>(h)]) { dead[static_cast<size_t>(h)] = ck.tick(); afterDead[static_cast<size_t>(h)] = 1; return false; }
                    return true;
                });
            }
        }
        HandlerID_t eh = d->registerEventHandler([&]() { Quiet q; ++emittedRun; return true; });
        int timerFires = 0;
        HandlerID_t th = d->registerTimerHandler([&](const TimerID_t) { ++timerFires; return true; });
        if (!d->start()) fail("start", "start() failed");
        if (m && !m->initialize(d)) fail("init", "initialize() failed");
        bool gate = !blocked, entered = false;
        Mutex gm;
        ConditionVariable gc;
        if (blocked) {
            d->enqueueAction([&]() {
                UniqueLock l(gm);
                { Quiet q; entered = true; }
                gc.wait(l, [&]() { return gate; });
            });
            fib::settle(1 * MS);
            if (!entered) fail("lost", "action doesn't run");
        }
        auto send = [&](int id, int h) {  // in a thread or in a signal handler
            Ev& e = ev[static_cast<size_t>(id)];
            { Quiet q; e.send.a = ck.tick(); e.h = h; }
            bool ok;
            {
                NoAlloc na;
                if (m && h == nh - 1) ok = m->transitionInterruptSafe(id);
                else ok = d->enqueueEvent(hid[static_cast<size_t>(h)], id);
            }
            Quiet q;
            e.send.b = ck.tick();
            e.ok = ok;
            e.done = true;
            if (!ok && e.run >= 0) fail("phantom", "event " + S(id) + " was delivered, but the call returned false");
            rep.label(ok ? "accepted" : "refused");
        };
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) {
                    switch (o.k) {
                        case ENQ:
                            { Quiet q; ev[static_cast<size_t>(o.id)].sender = s; fib::step("enqueue " + S(o.id)); }
                            send(o.id, o.h);
                            break;
                        case SIG: {
                            { Quiet q; ev[static_cast<size_t>(o.id)].sig = true; fib::step("signal " + S(o.id)); }
                            int id = o.id, h = o.h;
                            if (bk::SIGNALS) fib::raise([&, id, h]() { send(id, h); });
                            else send(id, h);
                            break;
                        }
                        case UNREG: {
                            fib::step("unregister h" + S(o.h));
                            d->unregisterEnqueuedEventHandler(hid[static_cast<size_t>(o.h)]);
                            Quiet q;
                            if (dead[static_cast<size_t>(o.h)] < 0) dead[static_cast<size_t>(o.h)] = ck.tick();
                            break;
                        }
                        case EMIT: { { Quiet q; ++emitted; } d->emitEvent(eh); break; }
                        case ACTION: d->enqueueAction([]() { fib::point(); }); break;
                        case TIMER: d->startTimer(th, o.id, static_cast<unsigned>(1 + o.ms), true); break;
                        case FREE: {
                            HandlerID_t x = d->registerEnqueuedEventHandler([](const EventID_t) { fail("wrong-handler", "a handler without events is called"); return true; });
                            fib::point();
                            d->unregisterEnqueuedEventHandler(x);
                            break;
                        }
                        default: fib::sleep(o.ms * MS); break;
                    }
                }
                fib::flushSignals();
            });
        fib::joinSpawned();
        fib::flushSignals();
        for (bool busy = true; busy;) {  // signal handlers may run in any thread
            busy = false;
            for (auto& e : ev) busy = busy || (e.send.a >= 0 && !e.done);
            if (busy) fib::sleep(1 * MS);
        }
        if (blocked) {
            // nothing was taken from the queue meanwhile
            Quiet q;
            int64_t sent = 0, acc = 0;
            for (auto& e : ev)
                if (e.send.a >= 0) { ++sent; acc += e.ok; if (e.run >= 0) fail("nested", "an event was handled although the dispatcher is busy"); }
            if (acc != std::min<int64_t>(sent, cap)) fail("capacity", S(acc) + " of " + S(sent) + " events were accepted by a queue for " + S(cap));
            for (auto& e : ev) {
                if (e.send.a < 0 || e.ok) continue;
                int64_t before = 0;
                for (auto& x : ev)
                    if (x.send.a >= 0 && x.ok && x.send.a < e.send.b) ++before;
                if (before < cap) fail("capacity", "an event was refused although the queue wasn't full");
            }
            rep.label("exact capacity checks");
        }
        if (blocked) {
            UniqueLock l(gm);
            gate = true;
            gc.notify();
        }
        fib::settle(LONG);
        Quiet quiet;
        for (int id = 1; id < next; ++id) {
            Ev& e = ev[static_cast<size_t>(id)];
            if (e.send.a < 0) continue;
            if (e.ok && e.run < 0 && dead[static_cast<size_t>(e.h)] < 0) fail("lost", "event " + S(id) + " was accepted, but never delivered");
            if (!e.ok) {
                int64_t waiting = 0;
                for (auto& x : ev)
                    if (x.send.a >= 0 && x.ok && x.send.a < e.send.b && (x.run < 0 || x.run > e.send.a)) ++waiting;
                bool someDead = false;
                for (auto v : dead) someDead = someDead || v >= 0;
                if (waiting < cap && !someDead) fail("capacity", "event " + S(id) + " was refused although only " + S(waiting) + " of " + S(cap) + " were waiting");
            }
            for (int k = 1; k < next; ++k) {
                Ev& x = ev[static_cast<size_t>(k)];
                bool isM = m && e.h == nh - 1;
                if (x.send.a < 0 || x.h != e.h || e.run < 0 || x.run < 0) continue;
                (void)isM;
                if (e.send.b < x.send.a && e.run > x.run) fail("order", "event " + S(id) + " was sent before " + S(k) + ", but is delivered after it");
            }
        }
        if (emitted != emittedRun) fail("lost", S(emitted) + " events emitted, " + S(emittedRun) + " handled");
        quiet.done();
        if (m) m->release();
        if (m && m->transitionInterruptSafe(1)) fail("accepted", "a released machine accepted an event");
        m.reset();
        back.finish(d);
    });
    note(rep, st);
}

// ---------------------------------------------------------------------------------------------------------------- C18
void c18(Src& src, Rep& rep) {
    enum T { OK, COMPOSITE, HISTORY, INTERNAL, UNKNOWN, COND, VETO_ENTER, VETO_EXIT, NTYPES };
    static const char* tn[] = {"ok", "composite", "history", "internal", "unknown", "condition", "veto-enter", "veto-exit"};
    struct Op { T t; EventID_t ev; int timeout; bool sync, clear; int pause; bool slow; };
    int ns = src.range(1, 4);
    bool anyClear = src.chance(30), release = src.chance(20), slowCase = src.chance(40);
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    std::vector<std::pair<EventID_t, Op>> all;
    std::vector<std::string> text;
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 6);
        std::string line = "sender " + S(s) + ":";
        for (int i = 0; i < n; ++i) {
            Op o{};
            o.t = static_cast<T>(src.weighted({30, 14, 12, 8, 8, 8, 8, 8}));
            o.ev = 100 * (s + 1) + i;
            o.sync = src.chance(75);
            o.timeout = o.sync && src.chance(55) ? src.range(1, 30) : HSM_WAIT_INDEFINITELY;
            o.clear = anyClear && src.chance(25);
            o.pause = src.chance(30) ? src.range(1, 10) : 0;
            o.slow = slowCase && src.chance(40);
            line += std::string(" ") + tn[o.t] + "(" + S(o.ev) + (o.sync ? ",sync" : "") + (o.timeout > 0 ? "," + S(o.timeout) + "ms" : "") + (o.clear ? ",clear" : "") + (o.slow ? ",slow" : "") + ")" + (o.pause ? " pause " + S(o.pause) : "");
            prog[static_cast<size_t>(s)].push_back(o);
            all.emplace_back(o.ev, o);
        }
        text.push_back(line);
    }
    int slowMs = src.range(1, 25), releaseAt = src.range(0, 40);
    if (release) text.push_back("release after " + S(releaseAt) + " ms");
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    bool exact = src.chance(50);
    if (exact) tune.maxCost = 0;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        Disp d = back.create();
        // A, B: simple; P{P1,P2}: entry point P1; R{R1,R2} with history H (default R1); V vetoes entering
        enum { A = 1, B, P, P1, P2, R, R1, R2, H, V };
        struct E { Op op; int64_t sentA = -1, started = -1, done = -1, failed = -1, ret = -1; bool result = false; };
        std::map<EventID_t, E> ev;
        for (auto& x : all) ev[x.first].op = x.second;
        Clock ck;
        HierarchicalStateMachine m(A);
        EventID_t cur = -1;
        bool inside = false, released = false;
        bool vetoExit = false;
        auto cb = [&](const std::string& w) {
            Quiet q;
            if (inside) fail("overlap", "callback " + w + " runs while another one is running");
            if (released) fail("released", "callback " + w + " after release() returned");
            inside = true;
            fib::step(w);
        };
        auto out = [&]() { fib::point(); Quiet q; inside = false; };
        auto finishLeaf = [&]() {  // the last callback of an event
            Quiet q;
            if (cur >= 0 && ev[cur].done < 0 && ev[cur].op.t <= INTERNAL) ev[cur].done = ck.tick();
        };
        auto state = [&](StateID_t s, bool leaf) {
            m.registerState(s, [&, s, leaf](const VariantVector_t&) {
                    cb("changed " + S(s));
                    if (cur >= 0 && ev[cur].op.slow && leaf) fib::sleep(slowMs * MS);
                    if (leaf) finishLeaf();
                    out();
                },
                [&, s](const VariantVector_t&) { cb("enter " + S(s)); out(); return s != V; },
                [&, s]() { bool veto = vetoExit; vetoExit = false; cb("exit " + S(s)); out(); return !veto; });
        };
        state(A, true); state(B, true); state(P, false); state(P1, true); state(P2, true); state(R, false); state(R1, true); state(R2, true); state(V, true);
        m.registerSubstateEntryPoint(P, P1);
        m.registerSubstate(P, P2);
        m.registerSubstateEntryPoint(R, R1);
        m.registerSubstate(R, R2);
        m.registerHistory(R, H, HistoryType::SHALLOW, R1);
        auto begin = [&](EventID_t e) {  // first callback of an event (transition condition)
            Quiet q;
            cur = e;
            if (ev[e].started < 0) ev[e].started = ck.tick();
            else if (ev[e].done >= 0) fail("duplicate", "event " + S(e) + " is handled twice");
            else if (ev[e].ret >= 0 && !ev[e].result && ev[e].op.timeout <= 0) fail("phantom", "event " + S(e) + " is handled although transitionSync() returned false");
        };
        for (auto& x : all) {
            EventID_t e = x.first;
            auto cond = [&, e](const VariantVector_t&) { begin(e); return true; };
            auto tcb = [&, e](const VariantVector_t&) { cb("transition " + S(e)); out(); };
            for (StateID_t from : {A, B, P, R}) {
                switch (x.second.t) {
                    case OK: m.registerTransition(from, from == A ? B : A, e, tcb, cond); break;
                    case COMPOSITE: if (from != P) m.registerTransition(from, P, e, tcb, cond); else m.registerTransition(from, A, e, tcb, cond); break;
                    case HISTORY: if (from != R) m.registerTransition(from, H, e, tcb, cond); else m.registerTransition(from, B, e, tcb, cond); break;
                    case INTERNAL:
                        m.registerSelfTransition(from, e, TransitionType::INTERNAL_TRANSITION, [&, e](const VariantVector_t&) { cb("internal " + S(e)); finishLeaf(); out(); }, cond);
                        break;
                    case COND: m.registerTransition(from, A, e, tcb, [&, e](const VariantVector_t&) { begin(e); return false; }); break;
                    case VETO_ENTER: m.registerTransition(from, V, e, tcb, cond); break;
                    case VETO_EXIT: m.registerTransition(from, from == A ? B : A, e, tcb, [&, e](const VariantVector_t&) { begin(e); vetoExit = true; return true; }); break;
                    default: break;
                }
            }
        }
        // moves inside of the composite states
        m.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t&) {
            cb("failed " + S(e));
            { Quiet q; if (ev[e].failed >= 0) fail("duplicate", "event " + S(e) + " is refused twice"); ev[e].failed = ck.tick(); vetoExit = false; cur = -1; }
            out();
        });
        if (!m.initialize(d)) fail("init", "initialize() failed");
        int64_t relStart = -1;
        std::vector<std::pair<int64_t, int64_t>> clears;
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) {
                    if (o.pause) fib::sleep(o.pause * MS);
                    E& e = ev[o.ev];
                    int64_t t0 = fib::now();
                    size_t ci = 0;
                    {
                        Quiet q;
                        e.sentA = ck.tick();
                        fib::step(std::string("send ") + tn[o.t] + " " + S(o.ev));
                        if (o.clear) { clears.emplace_back(e.sentA, INT64_MAX); ci = clears.size() - 1; }
                    }
                    bool r = m.transitionEx(o.ev, o.clear, o.sync, o.timeout);
                    Quiet q;
                    int64_t el = fib::now() - t0;
                    e.ret = ck.tick();
                    e.result = r;
                    if (o.clear) clears[ci].second = e.ret;
                    fib::step("event " + S(o.ev) + " -> " + S(r));
                    bool good = o.t <= INTERNAL;
                    if (!o.sync) {
                        if (!r && relStart < 0) fail("async", "transitionEx() without waiting returned false");
                        continue;
                    }
                    rep.label(r ? "sync: true" : "sync: false");
                    if (r && !good) fail("result", std::string("event ") + S(o.ev) + " (" + tn[o.t] + ") was refused, but transitionEx() returned true");
                    if (r && e.done < 0) fail("result", "transitionEx() returned true before the callbacks of event " + S(o.ev) + " have run");
                    if (r && o.clear) rep.label("sync with clearing");
                    if (o.timeout > 0 && exact && el > o.timeout * MS + 1 * MS) fail("timeout", "transitionEx(" + S(o.timeout) + " ms) took " + S(el / US) + " us");
                    if (!r) {
                        bool timedOut = o.timeout > 0 && el >= o.timeout * MS;
                        bool refused = !good && e.failed >= 0;
                        bool cleared = false;
                        for (auto& c : clears)
                            if (c.first < e.ret && c.second > e.sentA && &e != &ev[-1]) cleared = cleared || c.first != e.sentA;
                        bool rel = relStart >= 0;
                        if (timedOut) rep.label("timeouts");
                        if (!timedOut && !refused && !cleared && !rel) fail("result", "transitionEx() returned false for event " + S(o.ev) + " (" + tn[o.t] + ") without a reason");
                        if (cleared && !timedOut && !refused && !rel) rep.label("discarded");
                        if (good && e.done >= 0 && !timedOut && !rel && !cleared) fail("result", "transitionEx() returned false although event " + S(o.ev) + " was completed");
                    }
                }
            });
        bool didRelease = release;
        if (release) {
            fib::sleep(releaseAt * MS);
            { Quiet q; relStart = ck.tick(); fib::step("release"); }
            m.release();
            Quiet q;
            released = true;
            if (inside) fail("released", "release() returned while a callback is running");
        }
        fib::joinSpawned();
        fib::settle(3000 * MS);
        {
            Quiet q;
            for (auto& x : ev) {
                E& e = x.second;
                bool good = e.op.t <= INTERNAL;
                if (!good && e.done >= 0) fail("model", "event of type " + std::string(tn[e.op.t]) + " completed");
                bool cleared = false;
                for (auto& c : clears) cleared = cleared || (c.first != e.sentA && c.second > e.sentA);
                if (e.sentA >= 0 && !cleared && !didRelease) {
                    if (good && e.done < 0) fail("lost", "event " + S(x.first) + " was never handled");
                    if (!good && e.failed < 0) fail("lost", "refused event " + S(x.first) + " wasn't reported");
                }
                if (good && e.failed >= 0 && !didRelease) fail("refused", "event " + S(x.first) + " was refused");
            }
        }
        if (!didRelease) m.release();
        if (m.transitionSync(all[0].first, HSM_WAIT_INDEFINITELY)) fail("result", "transitionSync() on a released machine returned true");
        back.finish(d);
    });
    note(rep, st);
    if (exact) rep.label("exact timeouts");
}

// ---------------------------------------------------------------------------------------------------------------- C20
#ifdef BK_STD
void c20(Src& src, Rep& rep) {
    enum K { SEND, SYNC, ISR, ACTION, EMIT, TSTART, TSTOP, SLEEP, START, STOP, DROP, QUERY, RELEASE, NK };
    static const char* kn[] = {"send", "sync", "isr", "action", "emit", "timer", "stopTimer", "sleep", "start", "stop", "drop", "query", "release"};
    struct Op { K k; int ms; bool rep; };
    int ns = src.range(1, 3), nm = src.range(0, 2);
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    std::vector<std::string> text;
    bool wantStop = src.chance(60);
    auto genOp = [&](bool inCallback) {
        Op o{};
        o.k = static_cast<K>(src.weighted({14, inCallback ? 0 : 8, 10, 10, 12, 12, 4, inCallback ? 3 : 14, 4, wantStop ? 4 : 0, 6, 3, inCallback ? 0 : 4}));
        o.ms = src.range(0, 12);
        o.rep = src.chance(50);
        return o;
    };
    for (int s = 0; s < ns; ++s) {
        int n = src.range(1, 8);
        std::string line = "thread " + S(s) + ":";
        for (int i = 0; i < n; ++i) {
            Op o = genOp(false);
            prog[static_cast<size_t>(s)].push_back(o);
            line += std::string(" ") + kn[o.k] + "(" + S(o.ms) + ")";
        }
        text.push_back(line);
    }
    std::vector<std::pair<int, Op>> inCb;  // performed by the nth callback on the dispatcher thread
    int n = static_cast<int>(src.weighted({50, 30, 20}));
    for (int i = 0; i < n; ++i) {
        int at = src.range(1, 4);
        inCb.emplace_back(at, genOp(true));
        text.push_back("callback " + S(at) + ": " + kn[inCb.back().second.k]);
    }
    int slow = src.chance(40) ? src.range(1, 8) : 0;
    int mainWait = src.range(0, 25);
    int cycles = static_cast<int>(src.weighted({70, 30}));
    text.push_back("main: waits " + S(mainWait) + " ms, " + (cycles ? "stop, join, start, stop, " : "") + "drops its reference");
    bool dropFirst = src.chance(30);
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    auto st = fib::run(src, rep, tune, [&]() {
        struct Shared {
            std::mutex dummy;
        };
        std::shared_ptr<bk::DispT> owner = HsmEventDispatcherSTD::create(4);
        std::weak_ptr<HsmEventDispatcherSTD> weak = owner;
        // tracks the moment at which the object is gone
        bool joined = false, dead = false;
        int inHandlers = 0, cbCount = 0, slowTimers = 0;
        std::vector<std::unique_ptr<Toggle>> ms;
        std::vector<std::shared_ptr<void>> rel;
        std::vector<bool> released(static_cast<size_t>(nm), false), releasing(static_cast<size_t>(nm), false);
        std::function<void(const Op&, bool)> exec;
        auto handler = [&](const std::string& what) {
            {
                Quiet q;
                fib::step(what);
                if (dead) fail("after-destruction", what + " after the dispatcher was destroyed");
                if (joined) fail("after-join", what + " although the dispatcher is stopped and joined");
                ++inHandlers;
            }
            // NOTE: timers which always need more time than their interval would starve other users of the dispatcher
            if (slow && (what != "timer handler" || ++slowTimers < 3)) fib::sleep(slow * MS);
            else fib::point();
        };
        auto leave = [&]() { Quiet q; --inHandlers; };
        auto onDisp = [&]() {
            int c = ++cbCount;
            for (auto& x : inCb)
                if (x.first == c) exec(x.second, true);
        };
        HandlerID_t eh = owner->registerEventHandler([&]() { handler("event handler"); onDisp(); leave(); return true; });
        HandlerID_t th = owner->registerTimerHandler([&](const TimerID_t) { handler("timer handler"); { std::shared_ptr<bk::DispT> keep = weak.lock(); fib::point(); } leave(); return true; });
        HandlerID_t qh = owner->registerEnqueuedEventHandler([&](const EventID_t) { handler("enqueued event handler"); onDisp(); leave(); return true; });
        for (int i = 0; i < nm; ++i) {
            ms.emplace_back(new Toggle);
            Toggle& t = *ms.back();
            t.build({1, 2, 3});
            t.registerTimer(50 + i, 2);
            t.slowMs = slow;
            t.onEventDone = [&, i](EventID_t) {
                { Quiet q; if (released[static_cast<size_t>(i)]) fail("after-release", "callback after release() returned"); }
                onDisp();
            };
            if (!t.initialize(owner)) fail("init", "initialize() failed");
        }
        if (!owner->start()) fail("start", "start() failed");
        bool stopped = false;
        exec = [&](const Op& o, bool cb) {
            std::shared_ptr<bk::DispT> d = weak.lock();
            if (!d) return;
            if (cb && o.k == DROP) { fib::step("the callback drops the last reference, perhaps"); }
            int mi = nm ? o.ms % nm : -1;
            fib::step(kn[o.k]);
            rep.label(std::string("op ") + kn[o.k]);
            switch (o.k) {
                case SEND: if (mi >= 0) ms[static_cast<size_t>(mi)]->transition(1); break;
                case SYNC: if (mi >= 0) ms[static_cast<size_t>(mi)]->transitionSync(3, 1 + o.ms); break;
                case ISR: if (mi >= 0) ms[static_cast<size_t>(mi)]->transitionInterruptSafe(2); else d->enqueueEvent(qh, 1); break;
                case ACTION: d->enqueueAction([&]() { handler("action"); onDisp(); leave(); }); break;
                case EMIT: d->emitEvent(eh); break;
                case TSTART: if (mi >= 0 && o.rep) ms[static_cast<size_t>(mi)]->startTimer(50 + mi, static_cast<unsigned>(1 + o.ms), o.rep); else d->startTimer(th, 1 + o.ms % 3, static_cast<unsigned>(1 + o.ms), o.rep); break;
                case TSTOP: d->stopTimer(1 + o.ms % 3); break;
                case QUERY: (void)d->isTimerRunning(1 + o.ms % 3); break;
                case SLEEP: fib::sleep(o.ms * MS); break;
                case START: if (!stopped) { int before = fib::alive(); if (!d->start()) fail("start", "start() of a running dispatcher returned false"); (void)before; } break;
                case STOP: { Quiet q; stopped = true; } d->stop(); break;
                case RELEASE:
                    if (mi >= 0 && !releasing[static_cast<size_t>(mi)]) {
                        releasing[static_cast<size_t>(mi)] = true;
                        ms[static_cast<size_t>(mi)]->release();
                        Quiet q;
                        released[static_cast<size_t>(mi)] = true;
                        if (ms[static_cast<size_t>(mi)]->inside) fail("release", "release() returned while a callback is running");
                    }
                    break;
                default: fib::sleep(o.ms * MS); break;  // keeps the dispatcher alive a bit longer
            }
        };
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) exec(o, false);
            });
        fib::sleep(mainWait * MS);
        if (!dropFirst) fib::joinSpawned();
        if (cycles && !dropFirst) {
            owner->stop();
            owner->join();
            { Quiet q; if (inHandlers) fail("join", "join() returned while a handler is running"); joined = true; fib::step("joined"); }
            if (fib::alive()) fail("thread-leak", "threads are alive after stop() and join()");
            fib::settle(30 * MS);
            joined = false;
            inCb.clear();
            if (!owner->start()) fail("restart", "start() after stop() and join() failed");
            int got = 0;
            HandlerID_t nh = owner->registerEventHandler([&]() { Quiet q; ++got; return true; });
            owner->emitEvent(nh);
            fib::settle(200 * MS);
            if (!got) fail("restart", "a restarted dispatcher doesn't deliver events");
            rep.label("restarts");
        }
        fib::step("drop the reference");
        owner.reset();
        if (weak.expired() && !dropFirst) {
            // destroyed by this thread, or handed over to another one
            for (int i = 0; i < 200 && fib::alive(); ++i) fib::sleep(5 * MS);
            Quiet q;
            dead = true;
            if (inHandlers) fail("destroy", "destruction returned while a handler is running");
        }
        if (dropFirst) fib::joinSpawned();
        fib::settle(300 * MS);
        if (fib::alive()) fail("thread-leak", "threads are alive although the dispatcher is destroyed");
        { Quiet q; dead = true; }
        if (!weak.expired()) fail("leak", "dispatcher is still referenced");
        for (auto& m : ms) m->release();
        ms.clear();
        fib::settle(10 * MS);
    });
    note(rep, st);
}
#endif

#ifndef BK_STD
// Dispatchers which live inside of an event loop: they are started, stopped and destroyed by the loop's thread while other threads
// use them.
void c20loop(Src& src, Rep& rep) {
    enum K { SEND, SYNC, ISR, ACTION, EMIT, TSTART, TSTOP, TRESTART, SLEEP, QUERY, RELEASE, REG, START, STOP, RESTART };
    static const char* kn[] = {"send", "sync", "isr", "action", "emit", "timer", "stopTimer", "restartTimer", "sleep", "query", "release", "register", "start", "stop", "restart"};
    struct Op { K k; int ms; bool rep; };
    const int ns = src.range(1, 3), nm = src.range(0, 2);
    std::vector<std::string> text;
    bool wantStop = src.chance(70);
    auto genOp = [&](int where) {  // 0: thread, 1: callback, 2: task inside of the loop
        Op o{};
        int stop = wantStop ? (where == 2 ? 30 : where == 1 ? 8 : 0) : 0;
        o.k = static_cast<K>(src.weighted({14, where ? 0 : 8, 10, 10, 14, 14, 5, 4, where ? 0 : 16, 3, where == 2 ? 0 : 3, 5, where ? 6 : 0, stop, stop}));
        o.ms = src.range(0, 12);
        o.rep = src.chance(50);
        return o;
    };
    std::vector<std::vector<Op>> prog(static_cast<size_t>(ns));
    auto genList = [&](std::vector<Op>& ops, int n, int where) {
        std::string line;
        for (int i = 0; i < n; ++i) {
            ops.push_back(genOp(where));
            line += std::string(" ") + kn[ops.back().k] + "(" + S(ops.back().ms) + ")";
        }
        return line;
    };
    for (int s = 0; s < ns; ++s) text.push_back("thread " + S(s) + ":" + genList(prog[static_cast<size_t>(s)], src.range(1, 8), 0));
    struct Task { int wait; std::vector<Op> ops; };
    std::vector<Task> tasks;
    int nt = src.range(0, 4);
    for (int i = 0; i < nt; ++i) {
        Task t;
        t.wait = src.range(0, 12);
        std::string line = genList(t.ops, src.range(1, 3), 2);
        text.push_back("loop, after " + S(t.wait) + " ms:" + line);
        tasks.push_back(t);
    }
    std::vector<std::pair<int, Op>> inCb;  // performed by the nth callback on the loop's thread
    int n = static_cast<int>(src.weighted({40, 30, 30}));
    for (int i = 0; i < n; ++i) {
        int at = src.range(1, 5);
        inCb.emplace_back(at, genOp(1));
        text.push_back("callback " + S(at) + ": " + kn[inCb.back().second.k] + "(" + S(inCb.back().second.ms) + ")");
    }
    bool check = src.chance(50);      // restart at the end
    int dropHow = static_cast<int>(src.weighted({30, 25, 15, 15, 15}));  // loop ended, task, event handler, action, enqueued event handler
    int slow = src.chance(30) ? src.range(1, 6) : 0;
    int lastWait = src.range(0, 20);
    static const char* dn[] = {"after the loop has ended", "inside of the loop", "in an event handler", "in an action", "in an enqueued event handler"};
    text.push_back(std::string(check ? "restarted at the end; " : "") + "last reference dropped " + dn[dropHow] + (slow ? ", handlers need " + S(slow) + " ms" : ""));
    if (rep.verbose) rep.desc << describe(text);
    fib::Tune tune;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        std::shared_ptr<bk::DispT> owner = back.create(4);
        std::shared_ptr<IHsmEventDispatcher> base = owner;
        IHsmEventDispatcher* const disp = base.get();
        auto token = std::make_shared<int>(0);  // held by the dispatcher's handlers
        std::weak_ptr<int> alive = token;
        bool stopped = false, dropped = false, stoppedInCallback = false;
        int inHandlers = 0, cbCount = 0, slowTimers = 0;
        // number of startTimer() and restartTimer() calls for each timer, and how many of them had returned when the dispatcher was stopped
        struct T { int begun = 0, done = 0; bool dead = false; } timers[4];
        std::vector<std::unique_ptr<Toggle>> ms;
        std::vector<bool> released(static_cast<size_t>(nm), false), releasing(static_cast<size_t>(nm), false);
        std::function<void(const Op&, bool)> exec;
        auto handler = [&](const std::string& what, bool action) {
            {
                Quiet q;
                fib::step(what);
                if (fib::self() != bk::gLoopFiber) fail("thread", what + " runs outside of the event loop");
                if (dropped && !(action && stoppedInCallback)) fail("after-destruction", what + " although the last reference was dropped");
                if (stopped && !(action && stoppedInCallback)) fail("after-stop", what + " although the dispatcher is stopped");
                ++inHandlers;
            }
            if (slow && (what[0] != 't' || ++slowTimers < 3)) fib::sleep(slow * MS);
            else fib::point();
        };
        auto leave = [&]() { Quiet q; --inHandlers; };
        auto onDisp = [&]() {
            int c = ++cbCount;
            for (auto& x : inCb)
                if (x.first == c) exec(x.second, true);
        };
        HandlerID_t th = owner->registerTimerHandler([&, token](const TimerID_t id) {
            {
                Quiet q;
                T& t = timers[id];
                // NOTE: timers which are started while the dispatcher is stopped are not covered
                if ((stopped || dropped) && !t.dead) { fib::step("(timer which was started meanwhile)"); return true; }
                if (t.dead && t.begun) fail("timer-after-stop", "timer " + S(id) + " fires although the dispatcher was stopped after it was started");
            }
            handler("timer handler", false);
            leave();
            return true;
        });
        HandlerID_t eh = owner->registerEventHandler([&, token]() { handler("event handler", false); onDisp(); leave(); return true; });
        HandlerID_t qh = owner->registerEnqueuedEventHandler([&, token](const EventID_t) { handler("enqueued event handler", false); onDisp(); leave(); return true; });
        token.reset();
        for (int i = 0; i < nm; ++i) {
            ms.emplace_back(new Toggle);
            Toggle& t = *ms.back();
            t.build({1, 2, 3});
            t.registerTimer(50 + i, 2);
            t.slowMs = slow;
            t.onEventDone = [&, i](EventID_t) {
                { Quiet q; if (released[static_cast<size_t>(i)]) fail("after-release", "callback after release() returned"); }
                onDisp();
            };
            if (!t.initialize(base)) fail("init", "initialize() failed");
        }
        base.reset();
        auto doStop = [&](bool cb) {
            int before[4];
            { Quiet q; for (int i = 0; i < 4; ++i) before[i] = timers[i].begun == timers[i].done ? timers[i].begun : 0; }
            owner->stop();
            Quiet q;
            stopped = true;
            stoppedInCallback = cb;
            for (int i = 0; i < 4; ++i)
                if (before[i] && timers[i].begun == before[i]) timers[i].dead = true;
            rep.label("stopped");
        };
        auto doStart = [&]() {
            { Quiet q; stopped = false; }
            if (!owner->start()) fail("start", "start() failed");
        };
        auto startTimer = [&](int id, int t, bool r, bool again) {
            { Quiet q; ++timers[id].begun; timers[id].dead = false; }
            if (again) disp->restartTimer(id);
            else disp->startTimer(th, id, static_cast<unsigned>(t), !r);
            Quiet q;
            ++timers[id].done;
        };
        exec = [&](const Op& o, bool cb) {
            if (dropped) return;
            IHsmEventDispatcher* d = disp;
            int mi = nm ? o.ms % nm : -1;
            fib::step(kn[o.k]);
            rep.label(std::string("op ") + kn[o.k]);
            switch (o.k) {
                case SEND: if (mi >= 0) ms[static_cast<size_t>(mi)]->transition(1); else d->emitEvent(eh); break;
                case SYNC: if (mi >= 0) ms[static_cast<size_t>(mi)]->transitionSync(3, 1 + o.ms); break;
                case ISR: if (mi >= 0) ms[static_cast<size_t>(mi)]->transitionInterruptSafe(2); else d->enqueueEvent(qh, 1); break;
                case ACTION: d->enqueueAction([&]() { handler("action", true); onDisp(); leave(); }); break;
                case EMIT: d->emitEvent(eh); break;
                case TSTART: startTimer(1 + o.ms % 3, 1 + o.ms, o.rep, false); break;
                case TSTOP: d->stopTimer(1 + o.ms % 3); break;
                case TRESTART: startTimer(1 + o.ms % 3, 0, false, true); break;
                case QUERY: (void)d->isTimerRunning(1 + o.ms % 3); break;
                case SLEEP: fib::sleep(o.ms * MS); break;
                case REG: {
                    HandlerID_t h = d->registerEventHandler([&, alive]() { auto keep = alive.lock(); handler("other event handler", false); leave(); return true; });
                    d->emitEvent(h);
                    if (o.rep) d->unregisterEventHandler(h);
                    break;
                }
                case RELEASE:
                    if (mi >= 0 && !releasing[static_cast<size_t>(mi)]) {
                        if (cb) break;
                        releasing[static_cast<size_t>(mi)] = true;
                        ms[static_cast<size_t>(mi)]->release();
                        Quiet q;
                        released[static_cast<size_t>(mi)] = true;
                        if (ms[static_cast<size_t>(mi)]->inside) fail("release", "release() returned while a callback is running");
                    }
                    break;
                case START: if (!stopped && !d->start()) fail("start", "start() of a running dispatcher returned false"); break;
                case STOP: if (!stopped) doStop(cb); break;
                case RESTART: if (!stopped) doStop(cb); doStart(); rep.label("restarted"); break;
            }
        };
        for (int s = 0; s < ns; ++s)
            fib::spawn("S" + S(s), [&, s]() {
                for (auto& o : prog[static_cast<size_t>(s)]) exec(o, false);
            });
        for (auto& t : tasks) {
            fib::sleep(t.wait * MS);
            back.invoke([&]() { for (auto& o : t.ops) exec(o, true); });
        }
        fib::joinSpawned();
        auto wait = [&](const bool& flag, int64_t ns) {
            for (int64_t end = fib::now() + ns; !flag && fib::now() < end;) fib::sleep(MS);
            return flag;
        };
        back.invoke([&]() { inCb.clear(); });
        if (check || stopped) {
            back.invoke([&]() { if (!stopped) doStop(false); doStart(); });
            bool ev = false, q1 = false, ac = false, ti = false;
            HandlerID_t h1 = owner->registerEventHandler([&]() { Quiet q; ev = true; return true; });
            HandlerID_t h2 = owner->registerTimerHandler([&](const TimerID_t) { Quiet q; ti = true; return true; });
            HandlerID_t h3 = owner->registerEnqueuedEventHandler([&](const EventID_t) { Quiet q; q1 = true; return true; });
            owner->emitEvent(h1);
            if (!wait(ev, 300 * MS)) fail("restart", "restarted dispatcher doesn't deliver events");
            if (!owner->enqueueEvent(h3, 5)) fail("restart", "restarted dispatcher refuses interrupt-safe events");
            owner->enqueueAction([&]() { Quiet q; ac = true; });
            disp->startTimer(h2, 9, 5, true);
            if (!wait(q1, 300 * MS)) fail("restart", "restarted dispatcher doesn't deliver interrupt-safe events");
            if (!wait(ac, 300 * MS)) fail("restart", "restarted dispatcher doesn't execute actions");
            if (!wait(ti, 300 * MS)) fail("restart", "timer of a restarted dispatcher doesn't fire");
            owner->unregisterEventHandler(h1);
            owner->unregisterTimerHandler(h2);
            owner->unregisterEnqueuedEventHandler(h3);
            rep.label("restart is checked");
        }
        // more work, which is pending when the dispatcher goes away
        Quiet q;
        auto drop = [&](bool cb) {
            { Quiet z; fib::step("drop the last reference"); dropped = true; stoppedInCallback = cb; for (auto& t : timers) t.dead = true; }
            std::shared_ptr<bk::DispT> last = std::move(owner);
            last.reset();
        };
        q.done();
        bool done = false;
        auto work = [&]() {
            startTimer(1, 1, true, false);
            owner->emitEvent(eh);
            owner->enqueueEvent(qh, 1);
            for (auto& m : ms) m->transition(1);
        };
        rep.label(std::string("dropped ") + dn[dropHow]);
        if (dropHow >= 2) {
            if (dropHow == 2) {
                HandlerID_t h = owner->registerEventHandler([&]() { if (!done) { drop(true); Quiet z; done = true; } return true; });
                back.invoke([&]() { owner->emitEvent(h); });
            } else if (dropHow == 3) {
                back.invoke([&]() { owner->enqueueAction([&]() { drop(true); Quiet z; done = true; }); });
            } else {
                HandlerID_t h = owner->registerEnqueuedEventHandler([&](const EventID_t) { if (!done) { drop(true); Quiet z; done = true; } return true; });
                bool ok = false;
                while (back.invoke([&]() { ok = owner->enqueueEvent(h, 1); }), !ok) fib::sleep(MS);
            }
            if (!wait(done, 300 * MS)) fail("delivery", "handler isn't called");
        } else if (dropHow == 1) {
            back.invoke([&]() { work(); drop(false); });
        } else {
            work();
            back.stopLoop();
            drop(false);
        }
        if (dropHow >= 1) fib::sleep(lastWait * MS);
        back.close();
        if (!alive.expired()) fail("leak", "the dispatcher isn't destroyed (its handlers still exist)");
        if (inHandlers) fail("destroy", "destroyed while a handler is running");
        for (auto& m : ms) m->release();
        ms.clear();
    });
    note(rep, st);
}
#endif

// ---------------------------------------------------------------------------------------------------------------- C21
void c21run(Src& src, Rep& rep) {
    c21::Scenario sc(src);
    if (rep.verbose) rep.desc << sc.show() << "\n";
    c21::Expected ex(sc);
    fib::Tune tune;
    tune.preemptMem = false;
    tune.maxCost = 0;
    auto st = fib::run(src, rep, tune, [&]() {
        bk::Backend back;
        c21::Host h;
        h.d = back.create();
        if (!h.d->start()) fail("start", "start() failed");
        const int64_t t0 = fib::now();
        h.sleepUntil = [t0](int64_t ms) { fib::sleep(t0 + ms * MS - fib::now()); };
        c21::runOn(sc, ex, h);
        back.finish(h.d);
    });
    note(rep, st);
    size_t n = 0;
    for (auto& t : ex.traces) n += t.size();
    rep.hash = pbt::hashStr(sc.show());
    rep.nontrivial = ex.expiries > 0 && n >= 8;
    rep.label(ex.expiries ? "timers expire" : "no timer expires");
}

std::string NM(const std::string& prop) { return std::string(bk::NAME) == "STD" ? prop : prop + "/" + bk::NAME; }
void addProps(std::map<std::string, pbt::Prop>& props, const std::string& rule) {
#ifdef BK_STD
    const uint64_t q = 1;
#else
    const uint64_t q = 4;  // the check has several parts
#endif
    props[NM("C21")] = {c21run, "distinct scenarios in which a timer expires and at least 8 callbacks run", 120000 / q, 2000000};
    props[NM("C16")] = {c16, rule, 400000 / q, 3000000};
    props[NM("C16/burst")] = {c16burst, "distinct bursts", 1200 / q, 8000};
    props[NM("C15")] = {c15, rule, 120000 / q, 3000000};
    props[NM("C17")] = {c17, rule, 250000 / q, 3000000};
    props[NM("C18")] = {c18, rule, 150000 / q, 3000000};
#ifdef BK_STD
    props[NM("C20")] = {c20, rule, 300000, 3000000};
#else
    props[NM("C20")] = {c20loop, rule, 300000 / q, 3000000};
#endif
    props[NM("C19")] = {c19, rule, 200000 / q, 3000000};
}
}  // namespace
