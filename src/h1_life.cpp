// C14: life cycle of machines sharing a dispatcher: initialize / use / release / destroy in any order.
#include <sanitizer/allocator_interface.h>

#include "hsmgen.hpp"

using namespace hg;
using pbt::Rep;
using pbt::Src;

namespace {

long gLive = 0;
void onMalloc(const volatile void*, size_t) { ++gLive; }
void onFree(const volatile void* p) { if (p) --gLive; }

// Shared dispatcher with queued actions, failure injection and "late" calls of handlers that were unregistered meanwhile.
class LifeDispatcher : public IHsmEventDispatcher {
public:
    std::map<HandlerID_t, EventHandlerFunc_t> ev, evOld;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm, tmOld;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> en, enOld;
    std::deque<HandlerID_t> pend;
    std::deque<std::pair<HandlerID_t, EventID_t>> enq;
    std::deque<ActionHandlerFunc_t> act;
    std::map<TimerID_t, std::pair<HandlerID_t, bool>> running;
    std::function<std::vector<std::string>*(TimerID_t)> traceOf;
    std::function<void(HandlerID_t)> dispatched;
    HandlerID_t next = 1;
    bool failStart = false;
    int failRegister = 0;
    int strange = 0;
    bool start() override { return !failStart; }
    void stop() override {}
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override {
        if (failRegister == 1) return INVALID_HSM_DISPATCHER_HANDLER_ID;
        ev[next] = h;
        return next++;
    }
    void unregisterEventHandler(const HandlerID_t id) override {
        auto it = ev.find(id);
        if (it != ev.end()) { if (!failRegister) evOld[id] = it->second; ev.erase(it); }
    }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { en[next] = h; return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override {
        auto it = en.find(id);
        if (it != en.end()) { if (!failRegister) enOld[id] = it->second; en.erase(it); }
    }
    void emitEvent(const HandlerID_t id) override { pend.push_back(id); }
    bool enqueueEvent(const HandlerID_t id, const EventID_t e) override { enq.emplace_back(id, e); return true; }
    void enqueueAction(ActionHandlerFunc_t a) override { act.push_back(a); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override {
        if (failRegister == 2) return INVALID_HSM_DISPATCHER_HANDLER_ID;
        tm[next] = h;
        return next++;
    }
    void unregisterTimerHandler(const HandlerID_t id) override {
        auto it = tm.find(id);
        if (it != tm.end()) { if (!failRegister) tmOld[id] = it->second; tm.erase(it); }
        for (auto k = running.begin(); k != running.end();) k = k->second.first == id ? running.erase(k) : std::next(k);
    }
    void rec(TimerID_t t, const std::string& s) { if (auto* v = traceOf(t)) v->push_back(s); }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int ms, const bool single) override {
        rec(t, "START " + std::to_string(t) + " " + std::to_string(ms) + (single ? " once" : ""));
        if (!tm.count(h)) ++strange;
        running[t] = {h, single};
    }
    void restartTimer(const TimerID_t t) override { rec(t, "RESTART " + std::to_string(t)); }
    void stopTimer(const TimerID_t t) override { rec(t, "STOP " + std::to_string(t)); running.erase(t); }
    bool isTimerRunning(const TimerID_t t) override { return running.count(t) != 0; }
    bool stepOne() {
        if (!act.empty()) {
            auto a = act.front();
            act.pop_front();
            a();
            return true;
        }
        if (!enq.empty()) {
            auto e = enq.front();
            enq.pop_front();
            auto it = en.find(e.first);
            if (it != en.end()) { auto f = it->second; f(e.second); }
            return true;
        }
        if (pend.empty()) return false;
        HandlerID_t id = pend.front();
        pend.pop_front();
        auto it = ev.find(id);
        if (it != ev.end()) {
            auto f = it->second;
            bool valid = f();
            if (dispatched) dispatched(id);
            if (!valid) ev.erase(id);
        }
        return true;
    }
};

enum LKind { L_INIT, L_INIT_NULL, L_INIT_EXPIRED, L_INIT_FAILSTART, L_INIT_FAILREG1, L_INIT_FAILREG2, L_SEND, L_SENDAPI, L_TIMER, L_FIRE, L_STEP, L_PUMP,
             L_RELEASE, L_DESTROY, L_ACT_RELEASE, L_ACT_DESTROY, L_ACT_SEND, L_LATE, L_KILLDISP, L_ISR, L_QUERY };
struct LOp {
    LKind k;
    int m = 0;
    int n = 0, x = 0;
    Op op;
    std::string show() const {
        static const char* names[] = {"initialize", "initialize(null)", "initialize(expired)", "initialize(start fails)", "initialize(event handler refused)",
                                      "initialize(timer handler refused)", "send", "send", "timer", "expire", "step", "pump", "release", "destroy", "action:release",
                                      "action:destroy", "action:send", "late handler calls", "destroy dispatcher", "interrupt-safe", "query"};
        std::string r = "m" + std::to_string(m) + " " + names[k];
        if (k == L_SEND || k == L_SENDAPI || k == L_ACT_SEND) r += " E" + std::to_string(op.ev) + showArgs(op.args) + " api" + std::to_string(n);
        if (k == L_TIMER || k == L_FIRE || k == L_STEP || k == L_ISR) r += " " + std::to_string(n) + "/" + std::to_string(x);
        return r;
    }
};
enum LState { NEW, RUNNING, RELEASED, DESTROYED };

struct Scenario {
    std::vector<std::unique_ptr<Program>> progs;
    std::vector<LOp> ops;
};

struct Slot {
    std::unique_ptr<Real> r;
    std::unique_ptr<Model> m;
    LState s = NEW;
    HandlerID_t handler = 0;
};

void runScenario(const Scenario& sc, Rep& rep, bool first, bool& interesting) {
    auto disp = std::make_shared<LifeDispatcher>();
    std::vector<Slot> ms(sc.progs.size());
    disp->traceOf = [&](TimerID_t t) -> std::vector<std::string>* {
        for (size_t i = 0; i < ms.size(); ++i)
            for (auto& x : sc.progs[i]->timers)
                if (x.id == t) return &ms[i].r->trace;
        return nullptr;
    };
    disp->dispatched = [&](HandlerID_t id) {
        for (auto& x : ms)
            if (x.s == RUNNING && x.handler == id && !x.m->q.empty()) x.m->step();
    };
    for (size_t i = 0; i < ms.size(); ++i) {
        ms[i].r.reset(new Real(*sc.progs[i]));
        ms[i].m.reset(new Model(*sc.progs[i]));
        std::string e = ms[i].r->build();
        if (!e.empty()) rep.fail("registration", e);
    }
    int opNo = 0;
    int releasedBusy = 0, lateCalls = 0, refusedInit = 0;
    auto where = [&]() { return "op " + std::to_string(opNo) + ": "; };
    auto attached = [&](const Slot& x) { return x.s == RUNNING && disp != nullptr; };
    auto discardIfScope = [&](Slot& x) {
        if (x.m->outOfScope) throw pbt::Discard{};
    };
    // model of machine i follows what the machine did so far; full: machine is expected to be idle
    auto catchUp = [&](Slot& x, bool full) {
        int n = 0;
        while (!x.m->q.empty() && (full || x.m->trace.size() < x.r->trace.size())) {
            if (++n > 150) throw pbt::Discard{};
            x.m->step();
        }
        discardIfScope(x);
        std::string d = diffTraces(x.m->trace, x.r->trace);
        if (!d.empty()) rep.fail("trace", where() + "machine m" + std::to_string(&x - &ms[0]) + ": " + d);
    };
    auto checkHandlers = [&]() {
        if (!disp) return;
        size_t run = 0;
        for (auto& x : ms) run += x.s == RUNNING;
        if (disp->ev.size() != run || disp->tm.size() != run || disp->en.size() != run)
            rep.fail("handlers", where() + std::to_string(run) + " machines are initialized but the dispatcher has " + std::to_string(disp->ev.size()) + "/" +
                                     std::to_string(disp->tm.size()) + "/" + std::to_string(disp->en.size()) + " event/timer/enqueued handlers registered");
        if (disp->strange) rep.fail("timer-handler", where() + "startTimer() called with a handler that is not registered");
    };
    auto expectFrozen = [&](size_t i, size_t before, const char* what) {
        if (ms[i].r->trace.size() != before)
            rep.fail("callback", where() + what + " caused: " + joinTail(ms[i].r->trace, before, 4));
    };
    for (const LOp& o : sc.ops) {
        ++opNo;
        Slot& x = ms[static_cast<size_t>(o.m)];
        size_t i = static_cast<size_t>(o.m);
        NamedHsm* h = x.r->hsm.get();
        size_t before = x.r->trace.size();
        switch (o.k) {
            case L_INIT: case L_INIT_NULL: case L_INIT_EXPIRED: case L_INIT_FAILSTART: case L_INIT_FAILREG1: case L_INIT_FAILREG2: {
                if (!h) break;
                if (x.s == RELEASED) break;  // initializing a released machine again is not specified
                if (o.k == L_INIT && !disp) break;
                std::weak_ptr<IHsmEventDispatcher> w;
                if (o.k == L_INIT_EXPIRED) { auto tmp = std::make_shared<LifeDispatcher>(); w = tmp; }
                else if (o.k != L_INIT_NULL) {
                    if (!disp) break;
                    w = disp;
                    disp->failStart = o.k == L_INIT_FAILSTART;
                    disp->failRegister = o.k == L_INIT_FAILREG1 ? 1 : o.k == L_INIT_FAILREG2 ? 2 : 0;
                }
                bool again = attached(x);
                bool exp = o.k == L_INIT && !again;
                bool wasRun = x.s == RUNNING;
                if (wasRun && !again) { if (disp) {} break; }  // its dispatcher is gone: not specified
                std::set<HandlerID_t> had;
                if (disp) for (auto& k : disp->ev) had.insert(k.first);
                bool got = h->initialize(w);
                if (disp) for (auto& k : disp->ev) if (!had.count(k.first)) x.handler = k.first;
                if (disp) { disp->failStart = false; disp->failRegister = 0; }
                if (got != exp) rep.fail("initialize", where() + o.show() + " returned " + (got ? "true" : "false"));
                if (exp) {
                    x.s = RUNNING;
                    x.m->start();
                    discardIfScope(x);
                    std::string d = diffTraces(x.m->trace, x.r->trace);
                    if (!d.empty()) rep.fail("initialize-trace", where() + d);
                } else {
                    expectFrozen(i, before, "a refused initialize()");
                    ++refusedInit;
                }
                if (h->isInitialized() != attached(x)) rep.fail("isInitialized", where() + "isInitialized() is wrong after " + o.show());
                if (attached(x) && h->dispatcher().lock() != disp) rep.fail("dispatcher", where() + "dispatcher() does not return the dispatcher in use");
                checkHandlers();
                break;
            }
            case L_SEND: case L_SENDAPI: case L_ACT_SEND: {
                if (!h) break;
                int e = x.r->p.events[static_cast<size_t>(o.op.ev)];
                if (attached(x)) {
                    if (o.k == L_ACT_SEND) {
                        Slot* px = &x;
                        Op op = o.op;
                        disp->enqueueAction([px, op]() {
                            if (px->s != RUNNING) return;
                            px->m->apply(op);
                            px->r->apply(op);
                        });
                    } else {
                        x.m->apply(o.op);
                        x.r->apply(o.op);
                    }
                    break;
                }
                bool bad = false;
                auto v = toVariants(o.op.args);
                switch (o.n % 7) {
                    case 0: h->transition(e, 1); break;
                    case 1: bad = h->transitionEx(e, o.x & 1, false, 0, 1); break;
                    case 2: bad = h->transitionEx(e, o.x & 1, true, o.x & 2 ? HSM_WAIT_INDEFINITELY : 50); break;
                    case 3: bad = h->transitionSync(e, o.x & 2 ? HSM_WAIT_INDEFINITELY : 50, 2); break;
                    case 4: h->transitionWithArgsArray(e, std::move(v)); break;
                    case 5: h->transitionWithQueueClear(e, 3); break;
                    default: bad = h->transitionInterruptSafe(e); break;
                }
                if (bad) rep.fail("send-uninitialized", where() + "sending (api " + std::to_string(o.n % 7) + ") succeeded although the machine is not initialized");
                expectFrozen(i, before, "sending to an uninitialized machine");
                break;
            }
            case L_ISR:
                if (!h) break;
                if (attached(x)) {
                    // taken by the dispatcher right before events: make it deterministic by pumping around it
                    for (int n = 0; disp->stepOne();)
                        if (++n > 900) throw pbt::Discard{};
                    if (!attached(x)) break;
                    for (auto& y : ms) if (attached(y)) catchUp(y, true);
                    if (x.s != RUNNING || !x.r->hsm) break;
                    Op op;
                    op.kind = O_SEND;
                    op.ev = o.op.ev;
                    if (!h->transitionInterruptSafe(x.r->p.events[static_cast<size_t>(op.ev)])) rep.fail("interrupt-safe", where() + "transitionInterruptSafe() returned false although the dispatcher accepted it");
                    x.m->apply(op);
                    disp->stepOne();  // hands it to the machine
                } else {
                    if (h->transitionInterruptSafe(x.r->p.events[0])) rep.fail("send-uninitialized", where() + "transitionInterruptSafe() succeeded although the machine is not initialized");
                    expectFrozen(i, before, "sending to an uninitialized machine");
                }
                break;
            case L_TIMER: {
                if (!h) break;
                int t = x.r->p.timers[static_cast<size_t>(o.n) % x.r->p.timers.size()].id;
                int ti = o.n % static_cast<int>(x.r->p.timers.size());
                if (attached(x)) {
                    catchUp(x, false);
                    // the machine may lag behind the model's trace only inside one step, so timers can be recorded directly
                    switch (o.x % 4) {
                        case 0: x.m->timerCall("START " + std::to_string(t) + " 70 once"); h->startTimer(t, 70, true); break;
                        case 1: x.m->timerCall("START " + std::to_string(t) + " 30"); h->startTimer(t, 30, false); break;
                        case 2: x.m->timerCall("STOP " + std::to_string(t)); h->stopTimer(t); break;
                        default: x.m->timerCall("RESTART " + std::to_string(t)); h->restartTimer(t); break;
                    }
                    (void)ti;
                    if (h->isTimerRunning(t) != disp->isTimerRunning(t)) rep.fail("isTimerRunning", where() + "wrong");
                } else {
                    std::vector<std::pair<TimerID_t, std::pair<HandlerID_t, bool>>> was;
                    if (disp) was.assign(disp->running.begin(), disp->running.end());
                    switch (o.x % 4) {
                        case 0: h->startTimer(t, 70, true); break;
                        case 1: h->startTimer(t, 30, false); break;
                        case 2: h->stopTimer(t); break;
                        default: h->restartTimer(t); break;
                    }
                    if (h->isTimerRunning(t)) rep.fail("isTimerRunning", where() + "a machine that is not initialized has a running timer");
                    expectFrozen(i, before, "a timer call on an uninitialized machine");
                }
                break;
            }
            case L_FIRE: {
                if (!disp) break;
                int t = x.r->p.timers[static_cast<size_t>(o.n) % x.r->p.timers.size()].id;
                auto it = disp->running.find(t);
                if (it == disp->running.end()) break;
                if (!attached(x)) rep.fail("timer-left", where() + "timer of a machine that is not running is still registered");
                auto f = disp->tm[it->second.first];
                if (it->second.second) disp->running.erase(it);
                Op op;
                op.kind = O_SEND;
                op.ev = x.r->p.timers[static_cast<size_t>(o.n) % x.r->p.timers.size()].ev;
                x.m->apply(op);
                f(t);
                break;
            }
            case L_STEP:
                if (disp) for (int n = 0; n < o.n; ++n) disp->stepOne();
                break;
            case L_PUMP: {
                if (!disp) break;
                int n = 0;
                while (disp->stepOne())
                    if (++n > 900) throw pbt::Discard{};
                for (auto& y : ms) {
                    if (!attached(y)) continue;
                    catchUp(y, true);
                    std::vector<int> ma, ra(y.r->hsm->getActiveStates().begin(), y.r->hsm->getActiveStates().end());
                    for (int q : y.m->active) ma.push_back(y.m->idOf(q));
                    if (ma != ra) rep.fail("active-states", where() + "machine m" + std::to_string(&y - &ms[0]) + " is in the wrong states");
                }
                break;
            }
            case L_RELEASE: case L_DESTROY: case L_ACT_RELEASE: case L_ACT_DESTROY: {
                bool destroy = o.k == L_DESTROY || o.k == L_ACT_DESTROY;
                auto doIt = [&, destroy, i]() {
                    Slot& y = ms[i];
                    if (!y.r->hsm) return;
                    if (attached(y)) {
                        catchUp(y, false);
                        if (!y.m->q.empty() || !disp->running.empty()) ++releasedBusy;
                    }
                    size_t b = y.r->trace.size();
                    if (destroy) y.r->hsm.reset();
                    else y.r->hsm->release();
                    expectFrozen(i, b, destroy ? "destruction" : "release()");
                    y.s = destroy ? DESTROYED : (y.s == RUNNING || y.s == RELEASED ? RELEASED : y.s == NEW ? RELEASED : y.s);
                    if (y.r->hsm && y.r->hsm->isInitialized()) rep.fail("isInitialized", where() + "released machine reports to be initialized");
                    checkHandlers();
                };
                if (o.k == L_ACT_RELEASE || o.k == L_ACT_DESTROY) {
                    if (disp) disp->enqueueAction(doIt);
                } else doIt();
                break;
            }
            case L_LATE: {
                if (!disp) break;
                std::vector<size_t> sz;
                for (auto& y : ms) sz.push_back(y.r->trace.size());
                size_t q = disp->pend.size();
                for (auto& k : disp->evOld) if (k.second()) rep.fail("late-handler", where() + "event handler of a released machine reports to be valid");
                for (auto& k : disp->tmOld)
                    for (auto& y : ms)
                        for (auto& t : y.r->p.timers) if (k.second(t.id)) rep.fail("late-handler", where() + "timer handler of a released machine reports to be valid");
                for (auto& k : disp->enOld) if (k.second(1)) rep.fail("late-handler", where() + "enqueued-event handler of a released machine reports to be valid");
                lateCalls += static_cast<int>(disp->evOld.size());
                for (size_t k = 0; k < ms.size(); ++k) expectFrozen(k, sz[k], "a late call of an unregistered handler");
                if (disp->pend.size() != q) rep.fail("late-handler", where() + "late call of an unregistered handler emitted events");
                break;
            }
            case L_KILLDISP: {
                if (!disp) break;
                for (auto& y : ms) if (attached(y)) catchUp(y, false);
                disp.reset();
                for (auto& y : ms) {
                    if (y.r->hsm && y.r->hsm->isInitialized()) rep.fail("isInitialized", where() + "machine reports to be initialized after its dispatcher was destroyed");
                }
                break;
            }
            case L_QUERY:
                if (!h) break;
                if (h->isInitialized() != attached(x)) rep.fail("isInitialized", where() + "isInitialized() is wrong");
                if (x.s == NEW) {
                    if (!h->getActiveStates().empty()) rep.fail("active-early", where() + "states are active before initialize()");
                    if (h->getLastActiveState() != INVALID_HSM_STATE_ID) rep.fail("active-early", where() + "getLastActiveState() before initialize()");
                    if (h->isTransitionPossible(x.r->p.events[0])) rep.fail("possible-early", where() + "a transition is possible before initialize()");
                    for (auto& st : x.r->p.st) if (h->isStateActive(st.id)) rep.fail("active-early", where() + "a state is active before initialize()");
                } else if (!attached(x)) {
                    (void)h->isTransitionPossible(x.r->p.events[0]);
                    (void)h->getActiveStates();
                }
                expectFrozen(i, before, "a query");
                break;
        }
    }
    for (auto& y : ms)
        for (auto& t : y.r->trace)
            if (!t.empty() && t[0] == '!' ) rep.fail("observation", t);
    interesting = releasedBusy > 0;
    if (first) {
        if (releasedBusy) rep.label("released/destroyed with work pending", static_cast<uint64_t>(releasedBusy));
        if (lateCalls) rep.label("late handler calls", static_cast<uint64_t>(lateCalls));
        if (refusedInit) rep.label("refused initializations", static_cast<uint64_t>(refusedInit));
    }
    if (disp) {
        disp->traceOf = [](TimerID_t) -> std::vector<std::string>* { return nullptr; };
        disp->dispatched = nullptr;
    }
}

void life(Src& s, Rep& rep) {
    Profile pf;
    pf.maxStates = 6; pf.maxTop = 3; pf.maxDepth = 2; pf.timers = 10; pf.actions = 15; pf.reactions = 25; pf.maxEvents = 3; pf.maxOps = 1; pf.history = 12;
    Scenario sc;
    int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Gen g(s, pf);
        g.gen();
        for (auto& t : g.p.timers) t.id += 10000 * (i + 1);
        g.p.failCb = true;
        sc.progs.emplace_back(new Program(g.p));
    }
    int cnt = 0;
    do {
        ++cnt;
        LOp o;
        o.m = static_cast<int>(s.below(static_cast<uint32_t>(n)));
        o.k = static_cast<LKind>(s.weighted({14, 1, 1, 2, 2, 2, 20, 6, 8, 5, 14, 10, 5, 5, 3, 3, 4, 4, 1, 3, 4}));
        const Program& p = *sc.progs[static_cast<size_t>(o.m)];
        o.n = s.range(0, 6);
        o.x = s.range(0, 3);
        o.op.kind = O_SEND;
        o.op.ev = static_cast<int>(s.below(static_cast<uint32_t>(p.events.size())));
        o.op.args = genArgs(s);
        o.op.n = static_cast<int>(s.below(4));
        sc.ops.push_back(o);
    } while (cnt < 40 && s.more(93));
    LOp end;
    end.k = L_PUMP;
    sc.ops.push_back(end);
    end.k = L_LATE;
    sc.ops.push_back(end);
    std::string key;
    for (auto& p : sc.progs) key += p->show() + "\n";
    for (auto& o : sc.ops) key += o.show() + "; ";
    if (rep.verbose) rep.desc << key << "\n";
    bool interesting = false;
    runScenario(sc, rep, true, interesting);
    // everything allocated by machines is freed again (measured on a repetition, so that one-time allocations do not count)
    long live = gLive;
    bool dummy = false;
    {
        std::map<std::string, uint64_t> keep;
        runScenario(sc, rep, false, dummy);
    }
    if (gLive != live) {
        long l2 = gLive;
        runScenario(sc, rep, false, dummy);
        if (gLive > l2) rep.fail("leak", std::to_string(gLive - l2) + " memory blocks are still allocated after all machines and the dispatcher were destroyed");
    }
    rep.nontrivial = interesting;
    rep.hash = pbt::hashStr(key);
}

}  // namespace

int main(int argc, char** argv) {
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::map<std::string, pbt::Prop> props;
    pbt::Prop p;
    p.rule = "1-3 random machines on one dispatcher; random sequences of initialize (valid, null, expired, failing), sends through every API, timers, partial dispatching, "
             "release/destroy (directly or from an action), late handler calls, dispatcher destruction; traces against the reference model, allocation balance; "
             "non-trivial: a machine was released or destroyed with events or timers pending";
    p.quick = 120000;
    p.thorough = 3000000;
    p.fn = life;
    props["C14"] = p;
    return pbt::mainImpl(argc, argv, props);
}
