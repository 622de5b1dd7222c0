// C21: the same generated scenario is run on a reference dispatcher (virtual time, single threaded) and on a bundled one.
#pragma once
#include "hsmgen.hpp"

namespace c21 {
using namespace hg;
using pbt::Rep;
using pbt::Src;

// What a dispatcher is documented to do, in the simplest way.
class RefDispatcher : public IHsmEventDispatcher {
public:
    struct Timer { HandlerID_t h; int64_t interval; bool single; int64_t due; int drift; bool expired; };
    std::map<HandlerID_t, EventHandlerFunc_t> ev;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> en;
    std::map<TimerID_t, Timer> timers;
    std::deque<HandlerID_t> pend;
    std::deque<std::pair<HandlerID_t, EventID_t>> enq;
    std::deque<ActionHandlerFunc_t> act;
    HandlerID_t next = 1;
    int64_t now = 0;
    int drift = 0;         // how much later (ms) the current stimulus may come on a dispatcher which rounds up timeouts
    int expiries = 0;
    int64_t busyUntil = -100;
    bool start() override { return true; }
    void stop() override {}
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { ev[next] = h; return next++; }
    void unregisterEventHandler(const HandlerID_t id) override { ev.erase(id); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { en[next] = h; return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { en.erase(id); }
    void emitEvent(const HandlerID_t id) override { pend.push_back(id); }
    bool enqueueEvent(const HandlerID_t id, const EventID_t e) override { enq.emplace_back(id, e); return true; }
    void enqueueAction(ActionHandlerFunc_t a) override { act.push_back(a); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { tm[next] = h; return next++; }
    void unregisterTimerHandler(const HandlerID_t id) override {
        tm.erase(id);
        for (auto it = timers.begin(); it != timers.end();) it = it->second.h == id ? timers.erase(it) : std::next(it);
    }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int ms, const bool single) override {
        timers[t] = Timer{h, ms, single, now + ms, drift + 1, false};
    }
    void restartTimer(const TimerID_t t) override {
        auto it = timers.find(t);
        if (it == timers.end()) return;
        it->second.due = now + it->second.interval;
        it->second.drift = drift + 1;
        it->second.expired = false;
    }
    void stopTimer(const TimerID_t t) override { timers.erase(t); }
    bool isTimerRunning(const TimerID_t t) override { return timers.count(t) && !timers[t].expired; }
    // something happens at this time: it mustn't be close to anything else, otherwise the order isn't defined
    void stimulus(int64_t t, int d, const Timer* source = nullptr) {
        if (t <= busyUntil + 3) throw pbt::Discard{};
        for (auto& x : timers)
            if (&x.second != source && !x.second.expired && x.second.due <= t + d + 3) throw pbt::Discard{};
        now = t;
        drift = d;
        busyUntil = t + d;
    }
    void run() {
        for (int n = 0; !pend.empty() || !enq.empty() || !act.empty(); ++n) {
            if (n > 150) throw pbt::Discard{};  // endless
            if (!act.empty()) { auto a = act.front(); act.pop_front(); a(); continue; }
            if (!enq.empty()) {
                auto e = enq.front();
                enq.pop_front();
                auto it = en.find(e.first);
                if (it != en.end()) it->second(e.second);
                continue;
            }
            HandlerID_t id = pend.front();
            pend.pop_front();
            auto it = ev.find(id);
            if (it != ev.end() && !it->second()) ev.erase(id);
        }
    }
    void advance(int64_t to) {
        for (;;) {
            Timer* b = nullptr;
            TimerID_t id = 0;
            for (auto& t : timers)
                if (!t.second.expired && t.second.due < to && (!b || t.second.due < b->due)) { b = &t.second; id = t.first; }
            if (!b) break;
            if (++expiries > 40) throw pbt::Discard{};
            stimulus(b->due, b->drift, b);
            if (b->single) b->expired = true;
            else { b->due += b->interval; b->drift++; }
            auto f = tm[b->h];
            if (f) f(id);
            run();
        }
    }
};

struct Step {
    int64_t at = 0;
    int machine = 0;
    bool direct = false;  // one event, sent by another thread
    bool isr = false;     // interrupt-safe
    std::vector<Op> ops;
};

// how to use the dispatcher under test
struct Host {
    std::shared_ptr<IHsmEventDispatcher> d;
    std::function<void(int64_t ms)> sleepUntil;
};

struct Scenario {
    std::vector<Program> progs;
    std::vector<Step> steps;
    int64_t end = 0;

    explicit Scenario(Src& s) {
        Profile pf;
        pf.timers = 10; pf.actions = 35; pf.reactions = 45; pf.history = 20; pf.clear = 5; pf.maxOps = 1; pf.maxStates = 9; pf.entryEvent = 10;
        int n = s.chance(25) ? 2 : 1;
        for (int i = 0; i < n; ++i) {
            Gen g(s, pf);
            g.gen();
            Program p = g.p;
            p.ops.clear();
            for (auto& t : p.timers) t.id += i * 10000;
            for (auto& a : p.acts) a.interval = s.range(15, 150);
            // callbacks also use timers
            while (p.reactions.size() < 8 && s.chance(35)) {
                Reaction r;
                r.cb = s.coin() ? CB_ENTER : CB_CHANGED;
                r.idx = static_cast<int>(s.below(static_cast<uint32_t>(p.st.size())));
                r.nth = s.range(1, 3);
                r.op = timerOp(s, p);
                p.reactions.push_back(r);
            }
            progs.push_back(p);
        }
        int64_t t = 0;
        int cnt = s.range(1, 10);
        for (int i = 0; i < cnt; ++i) {
            Step st;
            t += s.range(5, 90);
            st.at = t;
            st.machine = n == 2 && s.coin() ? 1 : 0;
            const Program& p = progs[static_cast<size_t>(st.machine)];
            int nev = static_cast<int>(p.events.size());
            st.isr = s.chance(25);
            st.direct = s.chance(40);
            int k = st.direct ? 1 : s.range(1, 3);
            for (int j = 0; j < k; ++j) {
                Op o;
                int w = static_cast<int>(s.weighted({60, st.direct ? 0 : 50, st.isr || st.direct || p.condInit.empty() ? 0 : 10, st.isr || st.direct ? 0 : 8}));
                if (w == 1 && !st.isr) o = timerOp(s, p);
                else if (w == 2) { o.kind = O_COND; o.k = static_cast<int>(s.below(static_cast<uint32_t>(p.condInit.size()))); o.b = s.coin(); }
                else if (w == 3) { o.kind = O_VETO; o.k = static_cast<int>(s.below(static_cast<uint32_t>(p.st.size()))); o.b = s.coin(); o.n = s.range(1, 2); }
                else {
                    o.kind = !st.isr && s.chance(5) ? O_SEND_CLEAR : O_SEND;
                    o.ev = static_cast<int>(s.below(static_cast<uint32_t>(nev)));
                    if (!st.isr) o.args = genArgs(s);
                    o.n = static_cast<int>(s.below(4));
                }
                st.ops.push_back(o);
            }
            steps.push_back(st);
        }
        end = t + s.range(5, 400);
    }
    static Op timerOp(Src& s, const Program& p) {
        Op o;
        o.kind = static_cast<OpKind>(O_TSTART + static_cast<int>(s.weighted({5, 1, 2, 2})));
        o.k = static_cast<int>(s.below(static_cast<uint32_t>(p.timers.size())));
        o.n = s.range(15, 150);
        o.b = s.coin();
        return o;
    }
    std::string show() const {
        std::ostringstream o;
        for (auto& p : progs) o << "machine:\n" << p.show() << "\n";
        for (auto& st : steps) {
            o << "at " << st.at << " ms, machine " << st.machine << (st.direct ? ", other thread" : ", action") << (st.isr ? ", interrupt-safe" : "") << ":";
            for (auto& x : st.ops) o << " " << Program::showOp(x) << ";";
            o << "\n";
        }
        o << "end at " << end << " ms\n";
        return o.str();
    }
};

struct Machines {
    const Scenario& sc;
    std::vector<std::unique_ptr<Real>> m;
    explicit Machines(const Scenario& s, const std::shared_ptr<IHsmEventDispatcher>& d) : sc(s) {
        for (auto& p : s.progs) {
            m.emplace_back(new Real(p));
            m.back()->disp = d;
            std::string err = m.back()->build();
            if (!err.empty()) pbt::dieWithFailure("registration", err);
        }
    }
    void init() {
        for (auto& r : m)
            if (!r->hsm->initialize(r->disp)) r->trace.push_back("!initialize() failed");
    }
    void perform(const Step& st) {
        Real& r = *m[static_cast<size_t>(st.machine)];
        for (auto& o : st.ops) {
            if (st.isr) {
                if (!r.hsm->transitionInterruptSafe(r.p.events[static_cast<size_t>(o.ev)])) r.trace.push_back("!transitionInterruptSafe() failed");
            } else if (o.kind == O_COND) r.w.cond[static_cast<size_t>(o.k)] = o.b;
            else if (o.kind == O_VETO) r.w.veto[{o.b, o.k}] = o.n;
            else r.apply(o);
        }
    }
    std::vector<std::string> states() const {
        std::vector<std::string> v;
        for (auto& r : m) {
            std::string t;
            for (auto x : r->hsm->getActiveStates()) t += " " + std::to_string(x);
            t += ", last " + std::to_string(r->hsm->getLastActiveState());
            for (auto& ti : r->p.timers) t += r->hsm->isTimerRunning(ti.id) ? " timer" + std::to_string(ti.id) : "";
            v.push_back(t);
        }
        return v;
    }
};

// expected traces and final states; throws Discard if the scenario isn't deterministic
struct Expected {
    std::vector<std::vector<std::string>> traces;
    std::vector<std::string> states;
    int expiries = 0;
    explicit Expected(const Scenario& sc) {
        auto ref = std::make_shared<RefDispatcher>();
        Machines ms(sc, ref);
        ref->stimulus(0, 0);
        ms.init();
        ref->run();
        for (auto& st : sc.steps) {
            ref->advance(st.at);
            ref->stimulus(st.at, 0);
            if (st.direct) ms.perform(st);
            else ref->enqueueAction([&]() { ms.perform(st); });
            ref->run();
        }
        ref->advance(sc.end);
        ref->stimulus(sc.end, 0);
        for (auto& r : ms.m) traces.push_back(r->trace);
        states = ms.states();
        expiries = ref->expiries;
        for (auto& r : ms.m) r->hsm->release();
    }
};

inline void runOn(const Scenario& sc, const Expected& ex, Host& h) {
    Machines ms(sc, h.d);
    bool up = false;
    h.d->enqueueAction([&]() { ms.init(); up = true; });
    for (auto& st : sc.steps) {
        h.sleepUntil(st.at);
        if (st.direct) ms.perform(st);
        else h.d->enqueueAction([&]() { ms.perform(st); });
    }
    h.sleepUntil(sc.end);
    if (!up) pbt::dieWithFailure("action", "an action isn't executed");
    auto s = ms.states();
    for (size_t i = 0; i < ms.m.size(); ++i) {
        std::string d = diffTraces(ex.traces[i], ms.m[i]->trace);
        if (!d.empty()) pbt::dieWithFailure("trace", "machine " + std::to_string(i) + ": " + d);
        if (s[i] != ex.states[i]) pbt::dieWithFailure("states", "machine " + std::to_string(i) + ": active states and running timers expected" + ex.states[i] + " observed" + s[i]);
        if (ms.m[i]->overlaps) pbt::dieWithFailure("nested-callback", "a callback ran inside another callback");
    }
    for (auto& r : ms.m) r->hsm->release();
}
}  // namespace c21
