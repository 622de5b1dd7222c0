// Random machines and histories on the real HierarchicalStateMachine against the reference model (hsmgen.hpp).
#include <sanitizer/lsan_interface.h>

#include "hsmgen.hpp"

using namespace hg;
using pbt::Rep;
using pbt::Src;

namespace {

constexpr int PUMP_CAP = 150;

struct Opts {
    bool invariants = true;
};

void checkInvariants(const Program& p, const Real& r, Rep& rep) {
    std::vector<int> act(r.hsm->getActiveStates().begin(), r.hsm->getActiveStates().end());
    std::map<int, int> idx;
    for (size_t i = 0; i < p.st.size(); ++i) idx[p.st[i].id] = static_cast<int>(i);
    std::set<int> seen;
    std::string list;
    for (int a : act) list += " " + std::to_string(a);
    for (int a : act) {
        if (!seen.insert(a).second) rep.fail("duplicate-active", "state " + std::to_string(a) + " is listed twice as active:" + list);
        if (!idx.count(a)) rep.fail("history-active", "history or unknown state " + std::to_string(a) + " is active between events:" + list);
        int par = p.st[idx[a]].parent;
        if (par != NONE && !r.hsm->isStateActive(p.st[par].id))
            rep.fail("parent-inactive", "state " + std::to_string(a) + " is active but its parent " + std::to_string(p.st[par].id) + " is not:" + list);
    }
    if (act.empty()) rep.fail("no-active-state", "no state is active");
    // entry/exit pairing from the observed callbacks
    std::map<int, int> in;      // 0 outside, 1 inside, 2 re-entered although the callback refused (rollback)
    for (auto& t : r.trace) {
        bool refused = t.size() > 8 && t.compare(t.size() - 8, 8, " refused") == 0;
        if (t.compare(0, 6, "ENTER ") == 0) {
            int id = std::stoi(t.substr(6));
            if (in[id] == 1 && p.st[idx[id]].cbExit) rep.fail("enter-twice", "entry callback of " + std::to_string(id) + " ran while the state was already entered");
            in[id] = refused ? 2 : 1;
        } else if (t.compare(0, 5, "EXIT ") == 0) {
            int id = std::stoi(t.substr(5));
            int s = idx[id];
            if (p.st[s].cbEnter && in[id] == 0) rep.fail("exit-without-enter", "exit callback of " + std::to_string(id) + " ran but the state was not entered");
            if (!refused) in[id] = 0;
        }
    }
    for (auto& st : p.st)
        if (st.cbEnter && st.cbExit) {
            bool a = r.hsm->isStateActive(st.id);
            if (a && in[st.id] == 0) rep.fail("active-not-entered", "state " + std::to_string(st.id) + " is active but its last notification was an exit");
            if (!a && in[st.id] == 1) rep.fail("inactive-not-exited", "state " + std::to_string(st.id) + " is not active but its last notification was an entry");
        }
}

std::string stateList(const std::vector<int>& v) {
    std::string s;
    for (int x : v) s += " " + std::to_string(x);
    return s;
}

struct Stats {
    int checksTrue = 0, checksFalse = 0, actionsRun = 0, clears = 0, vetoes = 0;
};

// Runs one generated program on model and implementation in lock step.
void lockstep(Src& s, Rep& rep, const Profile& pf, const std::function<bool(const Model&, const Program&)>& interesting,
              const std::function<void(Gen&)>& tweak = nullptr) {
    Profile q = pf;
    if (!pf.flat && s.chance(35)) {  // mix in other features
        auto bump = [&](int& x, int hi) { if (s.chance(30)) x = std::max(x, s.range(5, hi)); };
        bump(q.composite, 60); bump(q.parallelEntry, 70); bump(q.entryCond, 35); bump(q.entryEvent, 35); bump(q.history, 60);
        bump(q.final_, 40); bump(q.selfT, 50); bump(q.transCond, 40); bump(q.sameEvent, 60); bump(q.veto, 40); bump(q.reactions, 60);
        bump(q.clear, 20); bump(q.actions, 40); bump(q.check, 30); bump(q.timers, 20); bump(q.batch, 60); bump(q.unregistered, 30);
        bump(q.noEntry, 15); bump(q.maxOps, 30); bump(q.maxDepth, 5); bump(q.maxStates, 20); bump(q.cbAll, 100);
    }
    Gen g(s, q);
    if (pf.attempts) g.genByAttempts();
    else g.gen();
    if (tweak) tweak(g);
    const Program& p = g.p;
    if (rep.verbose) rep.desc << p.show() << "\n";
    Model m(p);
    Real r(p);
    auto mock = std::make_shared<MockDispatcher>();
    mock->trace = &r.trace;
    r.disp = mock;
    std::string err = r.build();
    if (!err.empty()) rep.fail("registration", err);
    m.start();
    if (!m.outOfScope && !r.hsm->initialize(r.disp)) rep.fail("initialize", "initialize() returned false");
    Stats stt;
    int opNo = 0;
    auto inScope = [&]() {
        if (m.outOfScope) {
            rep.label("out of scope: " + m.scopeWhy);
            throw pbt::Discard{};
        }
    };
    inScope();
    auto compare = [&](const char* when) {
        std::string d = diffTraces(m.trace, r.trace);
        if (!d.empty()) rep.fail("trace", std::string(when) + " op " + std::to_string(opNo) + ": " + d);
        std::vector<int> ma, ra(r.hsm->getActiveStates().begin(), r.hsm->getActiveStates().end());
        for (int x : m.active) ma.push_back(m.idOf(x));
        if (ma != ra) rep.fail("active-states", std::string(when) + " op " + std::to_string(opNo) + ": active states expected" + stateList(ma) + " observed" + stateList(ra));
        if (!ma.empty() && r.hsm->getLastActiveState() != ma.back()) rep.fail("last-active", "getLastActiveState() is not the last activated state");
        for (size_t i = 0; i < p.st.size(); ++i)
            if (r.hsm->isStateActive(p.st[i].id) != m.isActive(static_cast<int>(i))) rep.fail("is-active", "isStateActive(" + std::to_string(p.st[i].id) + ") is wrong");
        if (r.overlaps) rep.fail("nested-callback", "a callback ran inside another callback");
    };
    auto pump = [&]() {
        if (!m.pump(PUMP_CAP)) {
            rep.label("livelock (discarded)");
            throw pbt::Discard{};
        }
        inScope();
        int n = 0;
        while (mock->stepOne())
            if (++n > PUMP_CAP * 8) rep.fail("livelock", "machine keeps dispatching although the model is quiescent");
        compare("after");
        checkInvariants(p, r, rep);
    };
    if (m.trace != r.trace) rep.fail("trace", "during initialize: " + diffTraces(m.trace, r.trace));
    for (const Op& o : p.ops) {
        ++opNo;
        switch (o.kind) {
            case O_PUMP: pump(); break;
            case O_SEND:
            case O_SEND_CLEAR:
                if (o.kind == O_SEND_CLEAR && !m.q.empty()) ++stt.clears;
                m.apply(o);
                r.apply(o);
                if (m.trace.size() != r.trace.size()) compare("inside send at");
                break;
            case O_COND:
                m.w.cond[o.k] = o.b;
                r.w.cond[o.k] = o.b;
                break;
            case O_VETO:
                m.w.veto[{o.b, o.k}] = o.n;
                r.w.veto[{o.b, o.k}] = o.n;
                break;
            case O_CHECK: {
                bool e, a;
                if (!m.q.empty()) {
                    // pending events are handled first: predict what follows them (defined here for flat machines
                    // without conditions, when all pending events will be accepted)
                    Model c = m;
                    int f = c.failed;
                    c.pump(PUMP_CAP);
                    e = c.possible(o.ev, o.args);
                    a = r.possible(o);
                    if (c.failed != f) a = e;
                    else rep.label("checked with pending events");
                } else {
                    e = m.possible(o.ev, o.args);
                    a = r.possible(o);
                }
                (e ? stt.checksTrue : stt.checksFalse)++;
                if (e != a) {
                    compare("before check");
                    rep.fail("possible", "op " + std::to_string(opNo) + ": isTransitionPossible(E" + std::to_string(o.ev) + showArgs(o.args) + ") returned " + (a ? "true" : "false") + ", expected " + (e ? "true" : "false"));
                }
                compare("after check");
                break;
            }
            case O_FIRE: {
                auto it = m.timerRunning.find(o.k);
                if (it != m.timerRunning.end()) {
                    Model::Item i;
                    i.ev = p.timers[o.k].ev;
                    if (it->second) m.timerRunning.erase(it);
                    m.q.push_back(i);
                }
                mock->fire(p.timers[o.k].id);
                break;
            }
            case O_TSTART:
                m.timerCall("START " + std::to_string(p.timers[o.k].id) + " " + std::to_string(o.n) + (o.b ? " once" : ""));
                m.timerRunning[o.k] = o.b;
                r.hsm->startTimer(p.timers[o.k].id, static_cast<unsigned>(o.n), o.b);
                break;
            case O_TSTOP:
                m.timerCall("STOP " + std::to_string(p.timers[o.k].id));
                m.timerRunning.erase(o.k);
                r.hsm->stopTimer(p.timers[o.k].id);
                break;
            case O_TRESTART:
                m.timerCall("RESTART " + std::to_string(p.timers[o.k].id));
                r.hsm->restartTimer(p.timers[o.k].id);
                break;
            case O_TRUNNING:
                if (r.hsm->isTimerRunning(p.timers[o.k].id) != (m.timerRunning.count(o.k) != 0)) rep.fail("timer-running", "isTimerRunning() does not report the dispatcher's answer");
                break;
        }
    }
    for (auto& t : r.trace)
        if (!t.empty() && t[0] == '!') rep.fail("observation", t);
    size_t before = r.trace.size();
    r.hsm->release();
    r.hsm.reset();
    while (mock->stepOne()) {}
    if (r.trace.size() != before) rep.fail("after-release", "callbacks ran after release");
    if (rep.verbose) {
        rep.desc << "\ntrace:";
        for (auto& t : r.trace) rep.desc << " [" << t << "]";
        rep.desc << "\n";
    }
    rep.nontrivial = interesting(m, p);
    std::string key = p.show();
    rep.hash = pbt::hashStr(key);
    if (m.forks) rep.label("with forks");
    if (m.multiRegion) rep.label("several regions accept one event");
    if (m.restored) rep.label("history restored");
    if (m.vetoed) rep.label("with vetoes");
    if (m.rollbackDeep) rep.label("rollback of several states");
    if (m.finals) rep.label("exit event raised");
    if (m.entrySteps) rep.label("entry points taken");
    if (m.failed) rep.label("failed events");
    if (m.maxActive >= 4) rep.label("4+ active states");
    if (stt.checksTrue) rep.label("checks true", stt.checksTrue);
    if (stt.checksFalse) rep.label("checks false", stt.checksFalse);
    if (stt.clears) rep.label("queue cleared while non-empty");
    if (!p.reactions.empty()) rep.label("callbacks that send");
    rep.label("events handled", m.handled);
}

Profile base() { return Profile(); }

// registerStateAction(): which argument lists are accepted, and what an accepted one does
void actionArgs(Src& s, Rep& rep) {
    struct V { Variant v; bool num, isBool; long long n; std::string show; };
    auto gen = [&]() {
        V r{Variant(), false, false, 0, ""};
        int k = static_cast<int>(s.below(12));
        long long n = s.range(0, 100);
        r.n = n;
        r.num = true;
        switch (k) {
            case 0: r.v = Variant(static_cast<int32_t>(n)); r.show = "int"; break;
            case 1: r.v = Variant(static_cast<uint8_t>(n)); r.show = "u8"; break;
            case 2: r.v = Variant(static_cast<int64_t>(n)); r.show = "i64"; break;
            case 3: r.v = Variant(static_cast<uint16_t>(n)); r.show = "u16"; break;
            case 4: r.v = Variant(static_cast<double>(n)); r.show = "double"; break;
            case 5: r.v = Variant(static_cast<uint32_t>(n)); r.show = "u32"; break;
            case 6: r.v = Variant(static_cast<int16_t>(n)); r.show = "i16"; break;
            case 7: r.v = Variant((n & 1) != 0); r.isBool = true; r.num = false; r.n = n & 1; r.show = "bool"; break;
            case 8: r.v = Variant(std::to_string(n)); r.num = false; r.show = "string"; break;
            case 9: r.v = Variant(); r.num = false; r.show = "empty"; break;
            case 10: r.v = Variant(VariantVector_t{Variant(1)}); r.num = false; r.show = "vector"; break;
            default: r.v = Variant(static_cast<int8_t>(n)); r.show = "i8"; break;
        }
        r.show += ":" + std::to_string(r.n);
        return r;
    };
    struct A { ActKind k; bool entry; std::vector<V> a; bool valid; };
    std::vector<A> list;
    do {
        A a;
        a.k = static_cast<ActKind>(s.below(4));
        a.entry = s.coin();
        bool aim = s.chance(60);  // aim at a valid list
        size_t n = aim ? (a.k == A_START ? 3 : a.k == A_TRANS ? 1 + s.below(4) : 1) : s.below(5);
        for (size_t i = 0; i < n; ++i) {
            V v = gen();
            for (int t = 0; aim && t < 30; ++t) {
                bool wantBool = a.k == A_START && i == 2, any = a.k == A_TRANS && i > 0;
                if (any || (wantBool ? v.isBool : v.num)) break;
                v = gen();
            }
            a.a.push_back(v);
        }
        auto num = [&](size_t i) { return a.a[i].num; };
        a.valid = a.k == A_START ? (n == 3 && num(0) && num(1) && a.a[2].isBool) : a.k == A_TRANS ? (n >= 1 && num(0)) : (n == 1 && num(0));
        list.push_back(a);
    } while (list.size() < 6 && s.more(65));
    static const char* names[] = {"START_TIMER", "STOP_TIMER", "RESTART_TIMER", "TRANSITION"};
    std::string key;
    for (auto& a : list) {
        key += std::string(names[a.k]) + (a.entry ? " entry(" : " exit(");
        for (auto& v : a.a) key += v.show + " ";
        key += a.valid ? ") valid; " : ") invalid; ";
    }
    if (rep.verbose) rep.desc << key << "\n";
    std::vector<std::string> trace, exp;
    auto mock = std::make_shared<MockDispatcher>();
    mock->trace = &trace;
    HierarchicalStateMachine h(1);
    h.registerState(1);
    h.registerState(2);
    h.registerTransition(1, 2, 1000);
    h.registerTransition(2, 1, 1001);
    h.registerFailedTransitionCallback([&](const std::list<StateID_t>&, const EventID_t e, const VariantVector_t& a) {
        std::string r = "EVENT " + std::to_string(e);
        for (auto& v : a) r += " " + std::to_string(static_cast<int>(v.getType())) + ":" + v.toString();
        trace.push_back(r);
    });
    bool anyValid = false, anyInvalid = false;
    for (auto& a : list) {
        StateAction act = a.k == A_START ? StateAction::START_TIMER : a.k == A_STOP ? StateAction::STOP_TIMER : a.k == A_RESTART ? StateAction::RESTART_TIMER : StateAction::TRANSITION;
        auto trg = a.entry ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
        bool ok = false;
        switch (a.a.size()) {
            case 0: ok = h.registerStateAction(2, trg, act); break;
            case 1: ok = h.registerStateAction(2, trg, act, a.a[0].v); break;
            case 2: ok = h.registerStateAction(2, trg, act, a.a[0].v, a.a[1].v); break;
            case 3: ok = h.registerStateAction(2, trg, act, a.a[0].v, a.a[1].v, a.a[2].v); break;
            default: ok = h.registerStateAction(2, trg, act, a.a[0].v, a.a[1].v, a.a[2].v, a.a[3].v); break;
        }
        if (ok != a.valid) rep.fail("action-registration", key + ": registerStateAction() returned " + (ok ? "true" : "false"));
        (a.valid ? anyValid : anyInvalid) = true;
    }
    if (!h.initialize(mock)) rep.fail("initialize", "failed");
    auto expect = [&](bool entry) {
        std::vector<std::string> ev;
        for (auto& a : list) {
            if (!a.valid || a.entry != entry) continue;
            std::string id = std::to_string(a.a[0].n);
            if (a.k == A_START) exp.push_back("START " + id + " " + std::to_string(a.a[1].n) + (a.a[2].n ? " once" : ""));
            else if (a.k == A_STOP) exp.push_back("STOP " + id);
            else if (a.k == A_RESTART) exp.push_back("RESTART " + id);
            else {
                std::string r = "EVENT " + id;
                for (size_t i = 1; i < a.a.size(); ++i) r += " " + std::to_string(static_cast<int>(a.a[i].v.getType())) + ":" + a.a[i].v.toString();
                ev.push_back(r);
            }
        }
        exp.insert(exp.end(), ev.begin(), ev.end());
    };
    for (int round = 0; round < 2; ++round) {
        h.transition(1000);
        while (mock->stepOne()) {}
        expect(true);
        h.transition(1001);
        while (mock->stepOne()) {}
        expect(false);
    }
    std::string d = diffTraces(exp, trace);
    if (!d.empty()) rep.fail("trace", key + d);
    h.release();
    rep.nontrivial = anyValid && anyInvalid;
    rep.hash = pbt::hashStr(key);
}

}  // namespace

int main(int argc, char** argv) {
    std::map<std::string, pbt::Prop> props;
    auto add = [&](const std::string& id, const std::string& rule, uint64_t quick, uint64_t thorough, Profile pf,
                   std::function<bool(const Model&, const Program&)> interesting, std::function<void(Gen&)> tweak = nullptr) {
        pbt::Prop p;
        p.rule = rule;
        p.quick = quick;
        p.thorough = thorough;
        p.fn = [=](Src& s, Rep& rep) { lockstep(s, rep, pf, interesting, tweak); };
        props[id] = p;
    };
    const std::string gen = "random machine (2-12 states, up to 4 levels) and random history, run on the real HSM and on the reference model with exact trace comparison; non-trivial: ";
    {
        Profile f = base();
        f.reactions = 20; f.check = 6; f.veto = 6; f.actions = 4; f.clear = 5;
        add("C01", gen + "at least 2 accepted events", 400000, 12000000, f, [](const Model& m, const Program&) { return m.accepted >= 2; });
    }
    {
        Profile f = base();
        f.veto = 15; f.parallelEntry = 45; f.history = 20; f.final_ = 15; f.sameEvent = 45; f.cbAll = 95; f.reactions = 10;
        add("C02", gen + "4 or more states active at once, or a veto, or a restored history", 400000, 12000000, f, [](const Model& m, const Program&) { return m.maxActive >= 4 || m.vetoed || m.restored; });
    }
    {
        Profile f = base();
        f.veto = 70; f.composite = 50; f.maxOps = 22; f.cbAll = 95; f.history = 6; f.sameEvent = 25; f.parallelEntry = 35;
        add("C03", gen + "at least one refused exit or entry", 400000, 12000000, f, [](const Model& m, const Program&) { return m.vetoed > 0; });
    }
    {
        Profile f = base();
        f.composite = 65; f.entryCond = 35; f.entryEvent = 35; f.parallelEntry = 40; f.noEntry = 8; f.maxDepth = 4; f.maxStates = 14; f.maxTop = 3; f.maxEvents = 3; f.veto = 4;
        add("C04", gen + "at least 2 entry-point activations", 400000, 12000000, f, [](const Model& m, const Program&) { return m.entrySteps >= 2; });
    }
    {
        Profile f = base();
        f.composite = 55; f.parallelEntry = 75; f.sameEvent = 60; f.maxEvents = 3; f.transPerState = 70; f.maxStates = 14; f.veto = 5;
        add("C05", gen + "several regions accepted one event, or a fork", 400000, 12000000, f, [](const Model& m, const Program&) { return m.multiRegion || m.forks; });
    }
    {
        Profile f = base();
        f.selfT = 65; f.composite = 45; f.parallelEntry = 40; f.sameEvent = 50; f.veto = 6; f.maxEvents = 3; f.transPerState = 70;
        add("C06", gen + "has self-transitions and at least 2 accepted events", 400000, 12000000, f, [](const Model& m, const Program& p) {
            bool self = false;
            for (auto& t : p.tr) self |= t.kind != EXTERNAL;
            return self && m.accepted >= 2;
        });
    }
    {
        Profile f = base();
        f.composite = 60; f.history = 75; f.parallelEntry = 40; f.final_ = 4; f.maxOps = 20; f.maxEvents = 3; f.transPerState = 72; f.maxTop = 3; f.maxStates = 13; f.reactions = 6;
        add("C07", gen + "a history state was entered", 400000, 12000000, f, [](const Model& m, const Program&) { return m.restored > 0; });
    }
    {
        Profile f = base();
        f.composite = 60; f.final_ = 50; f.parallelEntry = 50; f.maxEvents = 4; f.transPerState = 72; f.batch = 40;
        add("C08", gen + "an exit event was raised", 400000, 12000000, f, [](const Model& m, const Program&) { return m.finals > 0; });
    }
    {
        Profile f = base();
        f.reactions = 80; f.clear = 20; f.batch = 65; f.maxOps = 25; f.maxEvents = 4; f.actions = 6; f.timers = 6;
        add("C09", gen + "at least 4 items handled", 400000, 12000000, f, [](const Model& m, const Program&) { return m.handled >= 4; });
    }
    {
        Profile f = base();
        f.veto = 25; f.transCond = 40; f.entryCond = 30; f.entryEvent = 20; f.parallelEntry = 50; f.batch = 30; f.maxOps = 20; f.transPerState = 50; f.composite = 50;
        add("C10", gen + "has both failed and accepted events", 400000, 12000000, f, [](const Model& m, const Program& p) { return p.failCb && m.failed && m.accepted; });
    }
    {
        Profile f = base();
        f.check = 130; f.transCond = 45; f.entryCond = 35; f.entryEvent = 35; f.composite = 50; f.noEntry = 8; f.maxOps = 24; f.parallelEntry = 35; f.maxEvents = 3;
        add("C11", gen + "machine with conditions and at least one accepted event", 400000, 12000000, f, [](const Model& m, const Program& p) { return m.accepted && !p.condInit.empty(); });
    }
    {
        Profile f = base();
        f.actions = 55; f.veto = 20; f.timers = 25; f.composite = 45; f.maxOps = 16; f.batch = 15; f.history = 15;
        add("C12", gen + "has actions and at least one accepted event", 400000, 12000000, f, [](const Model& m, const Program& p) { return m.accepted && !p.acts.empty(); });
    }
    {
        Profile f = base();
        f.flat = 1; f.checkPending = 1; f.check = 60; f.composite = 0; f.transCond = 0; f.history = 0; f.final_ = 0; f.selfT = 15; f.sameEvent = 0;
        f.maxEvents = 3; f.maxTop = 5; f.transPerState = 80; f.batch = 70; f.maxOps = 20;
        add("C11/pending", "flat machines asked with events pending, compared with a model that handles the pending events first; non-trivial: at least one accepted event", 100000, 2000000, f,
            [](const Model& m, const Program&) { return m.accepted > 0; }, [](Gen& g) {
                std::set<std::pair<int, int>> seen;
                std::vector<TransDef> keep;
                for (auto& t : g.p.tr)
                    if (seen.insert({t.from, t.ev}).second) keep.push_back(t);
                g.p.tr = keep;
            });
    }
    {
        Profile f = base();
        f.attempts = 1; f.maxStates = 10; f.entryCond = 15; f.entryEvent = 10; f.transPerState = 65; f.history = 0; f.maxEvents = 4; f.cbAll = 95; f.veto = 3;
        add("C13", "random registration attempts (cycles, second parents, self nesting) against a model forest, then a lockstep run of the resulting machine; non-trivial: at least one refused attempt and a nested state", 300000, 6000000, f,
            [](const Model&, const Program& p) {
                bool refused = false;
                for (auto& a : p.attempts) refused |= !a.ok;
                return refused && !p.subs.empty();
            });
    }
    {
        pbt::Prop p;
        p.rule = "random argument lists for registerStateAction(), then two entries and exits of the state; non-trivial: has an accepted and a refused registration";
        p.quick = 100000;
        p.thorough = 1000000;
        p.fn = actionArgs;
        props["C12/args"] = p;
    }
    return pbt::mainImpl(argc, argv, props);
}
