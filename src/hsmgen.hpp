// Random hierarchical state machines, random histories, an independent reference model, and a runner that drives the
// real hsmcpp::HierarchicalStateMachine. Used by h1 (semantics) and by the cross-dispatcher harness.
#pragma once
#include <deque>
#include <list>
#include <memory>

#include "pbt.hpp"
#include <hsmcpp/IHsmEventDispatcher.hpp>
#include <hsmcpp/hsm.hpp>

namespace hg {
using namespace hsmcpp;

constexpr int NONE = -1;  // index meaning "no state/condition/callback"

struct Arg {
    bool isStr = false;
    int num = 0;
    std::string str;
    std::string show() const { return isStr ? "\"" + str + "\"" : std::to_string(num); }
};
using Args = std::vector<Arg>;
inline std::string showArgs(const Args& a) {
    std::string r = "(";
    for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + a[i].show();
    return r + ")";
}
inline VariantVector_t toVariants(const Args& a) {
    VariantVector_t v;
    for (auto& x : a) {
        if (x.isStr) v.emplace_back(x.str);
        else v.emplace_back(x.num);
    }
    return v;
}
inline std::string showVariants(const VariantVector_t& v) {
    std::string r = "(";
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) r += ",";
        if (v[i].isString()) r += "\"" + v[i].toString() + "\"";
        else if (v[i].isNumeric() && v[i].getType() == Variant::Type::BYTE_4) r += std::to_string(v[i].toInt64());
        else r += "?type" + std::to_string(static_cast<int>(v[i].getType())) + ":" + v[i].toString();
    }
    return r + ")";
}

// ---------------------------------------------------------------------------------------------------------- program
struct StateDef {
    int id = 0;
    int parent = NONE;
    bool registered = true;
    bool cbChanged = false, cbEnter = false, cbExit = false;
    bool isFinal = false;
    int finalEvent = NONE;  // event index, NONE: forward the triggering event
    bool viaMembers = false;
    std::vector<int> children;
};
struct EntryDef {
    int parent, sub;
    int onEvent = NONE;
    int cond = NONE;
    bool expected = true;
    bool viaMembers = false;
};
struct SubDef {  // registration order of substates / entry points
    int parent, sub;
    int entry = NONE;  // index into entries when this is an entry point
};
struct Attempt {  // a registerSubstate*/EntryPoint call that may be refused
    int parent = 0, sub = 0;
    bool entry = false, ok = false;
    EntryDef def{};
};
struct HistDef {
    int id = 0;
    int parent = NONE;
    bool deep = false;
    int defTarget = NONE;
    bool cb = false;
    bool viaMembers = false;
};
enum TransKind { EXTERNAL, SELF_EXTERNAL, SELF_INTERNAL };
struct TransDef {
    int from = 0;
    int to = 0;         // state index, or NONE when the target is a history state
    int toHist = NONE;  // history index
    int ev = 0;
    TransKind kind = EXTERNAL;
    bool cb = false;
    int cond = NONE;
    bool expected = true;
    bool viaMembers = false;
};
enum ActKind { A_START, A_STOP, A_RESTART, A_TRANS };
struct ActDef {
    int state;
    bool onEntry;
    ActKind kind;
    int timer = 0;
    int interval = 0;
    bool single = false;
    int ev = 0;
    Args args;
};
struct TimerDef {
    int id;
    int ev;
};

enum CbKind { CB_ENTER, CB_EXIT, CB_CHANGED, CB_TRANS, CB_HIST, CB_FAIL };
enum OpKind { O_SEND, O_SEND_CLEAR, O_PUMP, O_COND, O_VETO, O_CHECK, O_FIRE, O_TSTART, O_TSTOP, O_TRESTART, O_TRUNNING };
struct Op {
    OpKind kind = O_PUMP;
    int ev = 0;
    Args args;
    int k = 0;        // condition index / state index / timer index
    bool b = false;   // condition value / veto entry (true) or exit (false)
    int n = 0;        // veto: number of coming calls to refuse; send: API variant; interval
};
struct Reaction {  // performed by a callback on its nth call
    CbKind cb;
    int idx;  // state / transition / history index
    int nth;
    Op op;
};

struct Program {
    std::vector<StateDef> st;
    std::vector<EntryDef> entries;
    std::vector<SubDef> subs;
    std::vector<Attempt> attempts;  // when not empty: registered instead of subs
    std::vector<HistDef> hist;
    std::vector<TransDef> tr;
    std::vector<ActDef> acts;
    std::vector<TimerDef> timers;
    std::vector<int> events;        // event ids
    int initial = 0;
    bool failCb = true;
    std::vector<bool> condUsesArg;  // per condition: value is flipped by an odd first integer argument
    std::vector<bool> condInit;
    std::vector<Reaction> reactions;
    std::vector<int> regOrder;      // order of registerState calls
    std::vector<Op> ops;
    bool regInterleaved = false;    // registerState after substates

    bool isComposite(int s) const { return !st[s].children.empty(); }
    bool isDesc(int anc, int s) const {  // s strictly below anc
        for (int p = st[s].parent; p != NONE; p = st[p].parent)
            if (p == anc) return true;
        return false;
    }
    int evIndex(int id) const {
        for (size_t i = 0; i < events.size(); ++i)
            if (events[i] == id) return static_cast<int>(i);
        return NONE;
    }
    std::string sname(int s) const { return "S" + std::to_string(s) + "#" + std::to_string(st[s].id); }

    static std::string showOp(const Op& o) {
        switch (o.kind) {
            case O_SEND: return "send E" + std::to_string(o.ev) + showArgs(o.args) + (o.n ? " api" + std::to_string(o.n) : "");
            case O_SEND_CLEAR: return "send+clear E" + std::to_string(o.ev) + showArgs(o.args);
            case O_PUMP: return "pump";
            case O_COND: return "cond" + std::to_string(o.k) + "=" + std::to_string(o.b);
            case O_VETO: return std::string("veto next ") + std::to_string(o.n) + (o.b ? " entries of S" : " exits of S") + std::to_string(o.k);
            case O_CHECK: return "possible? E" + std::to_string(o.ev) + showArgs(o.args);
            case O_FIRE: return "expire timer " + std::to_string(o.k);
            case O_TSTART: return "startTimer " + std::to_string(o.k) + " " + std::to_string(o.n) + (o.b ? "ms once" : "ms");
            case O_TSTOP: return "stopTimer " + std::to_string(o.k);
            case O_TRESTART: return "restartTimer " + std::to_string(o.k);
            case O_TRUNNING: return "timer running? " + std::to_string(o.k);
        }
        return "?";
    }
    std::string show() const {
        std::ostringstream o;
        o << "initial " << sname(initial) << "\n";
        for (size_t i = 0; i < st.size(); ++i) {
            o << "state " << sname((int)i);
            if (st[i].parent != NONE) o << " in S" << st[i].parent;
            if (st[i].isFinal) o << " final(E" << st[i].finalEvent << ")";
            o << (st[i].registered ? "" : " unregistered") << " cb:" << (st[i].cbEnter ? "e" : "") << (st[i].cbChanged ? "s" : "")
              << (st[i].cbExit ? "x" : "") << "\n";
        }
        for (auto& a : attempts)
            o << "register S" << a.sub << (a.entry ? " as entry point of S" : " in S") << a.parent << (a.ok ? "" : ": must be refused") << "\n";
        for (auto& s : subs) {
            if (s.entry == NONE) continue;
            auto& e = entries[s.entry];
            o << "entry S" << e.parent << " -> S" << e.sub;
            if (e.onEvent != NONE) o << " on E" << e.onEvent;
            if (e.cond != NONE) o << " if cond" << e.cond << "==" << e.expected;
            o << "\n";
        }
        for (size_t i = 0; i < hist.size(); ++i)
            o << (hist[i].deep ? "deep" : "shallow") << " history H" << i << "#" << hist[i].id << " of S" << hist[i].parent << " default "
              << hist[i].defTarget << (hist[i].cb ? " cb" : "") << "\n";
        for (size_t i = 0; i < tr.size(); ++i) {
            auto& t = tr[i];
            o << "T" << i << ": S" << t.from << " -E" << t.ev << "-> ";
            if (t.toHist != NONE) o << "H" << t.toHist;
            else o << "S" << t.to;
            o << (t.kind == SELF_INTERNAL ? " internal" : t.kind == SELF_EXTERNAL ? " external-self" : "");
            if (t.cond != NONE) o << " if cond" << t.cond << "==" << t.expected;
            o << (t.cb ? " cb" : "") << "\n";
        }
        for (auto& a : acts)
            o << "action S" << a.state << (a.onEntry ? " entry " : " exit ")
              << (a.kind == A_START ? "START_TIMER" : a.kind == A_STOP ? "STOP_TIMER" : a.kind == A_RESTART ? "RESTART_TIMER" : "TRANSITION")
              << " timer" << a.timer << " E" << a.ev << showArgs(a.args) << " " << a.interval << (a.single ? " once" : "") << "\n";
        for (size_t i = 0; i < condUsesArg.size(); ++i) o << "cond" << i << "=" << condInit[i] << (condUsesArg[i] ? " xor odd(arg0)" : "") << "; ";
        if (!condUsesArg.empty()) o << "\n";
        for (auto& r : reactions)
            o << "reaction: call " << r.nth << " of " << (r.cb == CB_ENTER ? "enter S" : r.cb == CB_EXIT ? "exit S" : r.cb == CB_CHANGED ? "changed S" : r.cb == CB_TRANS ? "transition T" : r.cb == CB_HIST ? "history H" : "failed ")
              << r.idx << " does " << showOp(r.op) << "\n";
        o << "history: ";
        for (auto& x : ops) o << showOp(x) << "; ";
        return o.str();
    }
};

// knobs of a generator profile, percentages unless noted
struct Profile {
    int maxTop = 4, maxDepth = 3, maxStates = 12;
    int composite = 35;
    int parallelEntry = 25;
    int entryCond = 15, entryEvent = 15, noEntry = 4;
    int history = 10, deep = 50, histDefault = 40;
    int final_ = 8;
    int unregistered = 5;
    int transPerState = 60;  // probability to add another transition
    int selfT = 15;
    int transCond = 20;
    int sameEvent = 30;      // bias to reuse the same event from a state (fork)
    int veto = 0;            // ops that schedule vetoes
    int vetoEnterAllowed = 1;
    int reactions = 0;
    int clear = 0;
    int actions = 0;
    int check = 0;
    int timers = 0;
    int batch = 25;          // probability of sending another event before pumping
    int maxOps = 14;
    int members = 25;
    int cbAll = 80;
    int maxEvents = 5;
    int strangeIds = 30;
    int flat = 0;            // flat deterministic machine
    int attempts = 0;        // hierarchy from registration attempts
    int checkPending = 0;    // ask isTransitionPossible() with events pending
};

inline Args genArgs(pbt::Src& s) {
    Args a;
    while (a.size() < 3 && s.more(35)) {
        Arg x;
        if (s.chance(30)) {
            x.isStr = true;
            int n = s.range(0, 3);
            for (int i = 0; i < n; ++i) x.str += static_cast<char>('a' + s.below(3));
        } else {
            x.num = s.chance(10) ? static_cast<int>(s.bits64()) : s.range(0, 5);
        }
        a.push_back(x);
    }
    return a;
}

struct Gen {
    pbt::Src& s;
    const Profile& pf;
    Program p;
    Gen(pbt::Src& src, const Profile& pr) : s(src), pf(pr) {}

    int newCond() {
        if (p.condInit.size() < 4 && (p.condInit.empty() || s.coin())) {
            p.condInit.push_back(s.coin());
            p.condUsesArg.push_back(s.chance(35));
            return static_cast<int>(p.condInit.size()) - 1;
        }
        return static_cast<int>(s.below(static_cast<uint32_t>(p.condInit.size())));
    }
    void mkChildren(int parent, int depth) {
        int lo = parent == NONE ? 2 : 1;
        int n = s.range(lo, parent == NONE ? pf.maxTop : 3);
        for (int i = 0; i < n && static_cast<int>(p.st.size()) < pf.maxStates; ++i) {
            StateDef d;
            d.parent = parent;
            int idx = static_cast<int>(p.st.size());
            p.st.push_back(d);
            if (parent != NONE) p.st[parent].children.push_back(idx);
            if (depth < pf.maxDepth && s.chance(pf.composite)) mkChildren(idx, depth + 1);
        }
    }
    Program gen() {
        mkChildren(NONE, 0);
        genStates();
        genSubs();
        genRest();
        return p;
    }
    // any number of states; the hierarchy is whatever random registration attempts are accepted
    Program genByAttempts() {
        int n = s.range(2, pf.maxStates);
        for (int i = 0; i < n; ++i) p.st.push_back(StateDef());
        int cnt = s.range(1, 3 * n);
        for (int i = 0; i < cnt; ++i) {
            Attempt a;
            a.parent = static_cast<int>(s.below(static_cast<uint32_t>(n)));
            a.sub = static_cast<int>(s.below(static_cast<uint32_t>(n)));
            if (s.chance(25) && !p.attempts.empty()) {  // close a cycle or repeat an earlier relation
                auto& o = p.attempts[s.below(static_cast<uint32_t>(p.attempts.size()))];
                if (s.coin()) { a.parent = o.sub; a.sub = o.parent; }
                else { a.sub = o.sub; if (s.coin()) a.parent = o.parent; }
            }
            a.entry = s.chance(55);
            a.ok = a.parent != a.sub && p.st[a.sub].parent == NONE && !p.isDesc(a.sub, a.parent);
            if (a.ok) {
                p.st[a.sub].parent = a.parent;
                p.st[a.parent].children.push_back(a.sub);
            }
            p.attempts.push_back(a);
        }
        genStates();
        for (auto& a : p.attempts) {
            a.def.parent = a.parent;
            a.def.sub = a.sub;
            if (a.entry) {
                if (s.chance(pf.entryEvent)) a.def.onEvent = static_cast<int>(s.below(static_cast<uint32_t>(p.events.size())));
                if (s.chance(pf.entryCond)) { a.def.cond = newCond(); a.def.expected = s.chance(70); }
                a.def.viaMembers = s.chance(pf.members);
            }
            if (!a.ok) continue;
            SubDef sd{a.parent, a.sub, NONE};
            if (a.entry) {
                sd.entry = static_cast<int>(p.entries.size());
                p.entries.push_back(a.def);
            }
            p.subs.push_back(sd);
        }
        genRest();
        return p;
    }
    bool strange = false;
    std::vector<int> pool;
    int drawId() {
        size_t k = s.below(static_cast<uint32_t>(pool.size()));
        int v = pool[k];
        pool.erase(pool.begin() + static_cast<long>(k));
        return v;
    }
    void genStates() {
        int nev = s.range(1, pf.maxEvents);
        int n = static_cast<int>(p.st.size());
        // ids: arbitrary distinct numbers
        strange = s.chance(pf.strangeIds);
        for (int i = 0; i < n + 8; ++i) pool.push_back(strange ? (i * 37 - 150) : i);
        for (int i = 0; i < nev; ++i) p.events.push_back(strange ? 1000003 * i - 7 : i);
        for (int i = 0; i < n; ++i) {
            auto& d = p.st[i];
            d.id = drawId();
            d.registered = !s.chance(pf.unregistered);
            bool all = s.chance(pf.cbAll);
            d.cbChanged = all || s.coin();
            d.cbEnter = all || s.coin();
            d.cbExit = all || s.coin();
            d.viaMembers = s.chance(pf.members);
            if (!d.registered) d.cbChanged = d.cbEnter = d.cbExit = false;
            if (d.parent != NONE && d.children.empty() && s.chance(pf.final_)) {
                d.isFinal = true;
                d.registered = true;
                d.finalEvent = s.chance(60) ? static_cast<int>(s.below(nev)) : NONE;
            } else if (d.parent == NONE && d.children.empty() && s.chance(pf.final_ / 4)) {
                d.isFinal = true;
                d.registered = true;
                d.finalEvent = s.chance(60) ? static_cast<int>(s.below(nev)) : NONE;
            }
        }
        for (int i = 0; i < n; ++i) p.regOrder.push_back(i);
        if (s.chance(30))
            for (int i = n - 1; i > 0; --i) std::swap(p.regOrder[i], p.regOrder[s.below(i + 1)]);
        p.regInterleaved = s.chance(15);
    }
    void genSubs() {
        int n = static_cast<int>(p.st.size());
        int nev = static_cast<int>(p.events.size());
        // substates and entry points
        for (int i = 0; i < n; ++i) {
            auto ch = p.st[i].children;
            if (ch.empty()) continue;
            int c = static_cast<int>(ch.size());
            std::vector<bool> isEntry(c, false);
            if (!s.chance(pf.noEntry)) {
                isEntry[s.below(c)] = true;
                for (int k = 0; k < c; ++k)
                    if (!isEntry[k] && s.chance(pf.parallelEntry)) isEntry[k] = true;
            }
            std::vector<int> order(c);
            for (int k = 0; k < c; ++k) order[k] = k;
            if (s.chance(30))
                for (int k = c - 1; k > 0; --k) std::swap(order[k], order[s.below(k + 1)]);
            for (int k : order) {
                SubDef sd{i, ch[k], NONE};
                if (isEntry[k]) {
                    EntryDef e;
                    e.parent = i;
                    e.sub = ch[k];
                    if (s.chance(pf.entryEvent)) e.onEvent = static_cast<int>(s.below(nev));
                    if (s.chance(pf.entryCond)) { e.cond = newCond(); e.expected = s.chance(70); }
                    e.viaMembers = s.chance(pf.members);
                    sd.entry = static_cast<int>(p.entries.size());
                    p.entries.push_back(e);
                }
                p.subs.push_back(sd);
            }
            while (p.hist.size() < 3 && s.chance(pf.history)) {
                HistDef h;
                h.id = drawId();
                h.parent = i;
                h.deep = s.chance(pf.deep);
                if (s.chance(pf.histDefault)) h.defTarget = ch[s.below(c)];
                h.cb = s.chance(60);
                h.viaMembers = s.chance(pf.members);
                p.hist.push_back(h);
            }
        }
    }
    void genRest() {
        int n = static_cast<int>(p.st.size());
        int nev = static_cast<int>(p.events.size());
        // initial: any top-level state
        {
            std::vector<int> tops;
            for (int i = 0; i < n; ++i) if (p.st[i].parent == NONE) tops.push_back(i);
            p.initial = s.pick(tops);
        }
        // transitions
        for (int i = 0; i < n; ++i) {
            int lastEv = NONE;
            int cnt = 0;
            while (cnt < 5 && s.chance(pf.transPerState)) {
                ++cnt;
                TransDef t;
                t.from = i;
                t.ev = (lastEv != NONE && s.chance(pf.sameEvent)) ? lastEv : static_cast<int>(s.below(nev));
                lastEv = t.ev;
                if (s.chance(pf.selfT)) {
                    t.kind = s.coin() ? SELF_INTERNAL : SELF_EXTERNAL;
                    t.to = i;
                } else {
                    std::vector<int> cand;      // siblings
                    std::vector<int> hc;        // history states whose parent is a sibling (or this state)
                    for (int k = 0; k < n; ++k)
                        if (p.st[k].parent == p.st[i].parent && k != i) cand.push_back(k);
                    for (size_t k = 0; k < p.hist.size(); ++k)
                        if (p.st[p.hist[k].parent].parent == p.st[i].parent) hc.push_back(static_cast<int>(k));
                    if (!hc.empty() && s.chance(pf.history > 0 ? 35 : 0)) { t.toHist = s.pick(hc); t.to = NONE; }
                    else if (!cand.empty()) t.to = s.pick(cand);
                    else { t.kind = SELF_EXTERNAL; t.to = i; }
                }
                t.cb = s.chance(75);
                if (s.chance(pf.transCond)) { t.cond = newCond(); t.expected = s.chance(70); }
                t.viaMembers = s.chance(pf.members);
                p.tr.push_back(t);
            }
        }
        // shuffle registration order of transitions a bit
        if (s.chance(20) && p.tr.size() > 1)
            for (size_t k = p.tr.size() - 1; k > 0; --k) std::swap(p.tr[k], p.tr[s.below(static_cast<uint32_t>(k + 1))]);
        p.failCb = s.chance(90);
        if (pf.timers || pf.actions) {
            int nt = s.range(1, 3);
            for (int i = 0; i < nt; ++i) p.timers.push_back(TimerDef{strange ? 500 - i * 13 : i, static_cast<int>(s.below(nev))});
        }
        for (int i = 0; i < n; ++i) {
            int cnt = 0;
            while (cnt < 4 && s.chance(pf.actions)) {
                ++cnt;
                ActDef a;
                a.state = i;
                a.onEntry = s.coin();
                a.kind = static_cast<ActKind>(s.weighted({3, 2, 2, 4}));
                a.timer = static_cast<int>(s.below(static_cast<uint32_t>(p.timers.size())));
                a.interval = s.range(1, 50) * 10;
                a.single = s.coin();
                a.ev = static_cast<int>(s.below(nev));
                if (a.kind == A_TRANS) a.args = genArgs(s);
                p.acts.push_back(a);
            }
        }
        // reactions
        int rc = 0;
        while (rc < 6 && s.chance(pf.reactions)) {
            ++rc;
            Reaction r;
            r.nth = s.range(1, 3);
            r.cb = static_cast<CbKind>(s.below(p.hist.empty() ? 4 : 5));
            if (s.chance(10)) r.cb = CB_FAIL;
            if (r.cb == CB_TRANS) {
                if (p.tr.empty()) continue;
                r.idx = static_cast<int>(s.below(static_cast<uint32_t>(p.tr.size())));
            } else if (r.cb == CB_HIST) r.idx = static_cast<int>(s.below(static_cast<uint32_t>(p.hist.size())));
            else r.idx = r.cb == CB_FAIL ? 0 : static_cast<int>(s.below(static_cast<uint32_t>(n)));
            r.op = genSend(nev, true);
            p.reactions.push_back(r);
        }
        int cnt = 0;
        do {
            ++cnt;
            int w = static_cast<int>(s.weighted({60, pf.veto, p.condInit.empty() ? 0 : 12, pf.check, p.timers.empty() ? 0 : pf.timers}));
            if (w == 0) {
                p.ops.push_back(genSend(nev, false));
                if (!s.chance(pf.batch)) p.ops.push_back(Op{});
            } else if (w == 1) {
                Op o;
                o.kind = O_VETO;
                o.k = static_cast<int>(s.below(static_cast<uint32_t>(n)));
                o.b = pf.vetoEnterAllowed ? s.coin() : false;
                o.n = s.range(1, 2);
                p.ops.push_back(o);
            } else if (w == 2) {
                // conditions only change while nothing is queued, so that their value is well defined for an event
                p.ops.push_back(Op{});
                Op o;
                o.kind = O_COND;
                o.k = static_cast<int>(s.below(static_cast<uint32_t>(p.condInit.size())));
                o.b = s.coin();
                p.ops.push_back(o);
            } else if (w == 3) {
                if (!pf.checkPending) p.ops.push_back(Op{});
                Op o = genSend(nev, false);
                o.kind = O_CHECK;
                o.n = 0;
                p.ops.push_back(o);
            } else {
                Op o;
                o.kind = static_cast<OpKind>(O_FIRE + s.below(5));
                o.k = static_cast<int>(s.below(static_cast<uint32_t>(p.timers.size())));
                o.n = s.range(1, 20) * 10;
                o.b = s.coin();
                p.ops.push_back(o);
            }
        } while (cnt < pf.maxOps && s.more(88));
        p.ops.push_back(Op{});
    }
    Op genSend(int nev, bool inCallback) {
        Op o;
        o.kind = s.chance(pf.clear) ? O_SEND_CLEAR : O_SEND;
        o.ev = static_cast<int>(s.below(static_cast<uint32_t>(nev)));
        o.args = genArgs(s);
        o.n = static_cast<int>(s.below(4));
        (void)inCallback;
        return o;
    }
};

// Values of conditions and vetoes, shared (by value) between model and implementation runs.
struct World {
    const Program& p;
    std::vector<bool> cond;
    std::map<std::pair<bool, int>, int> veto;             // (entry?, state) -> remaining refusals
    std::map<std::pair<int, int>, int> calls;             // (cb kind, idx) -> number of calls
    explicit World(const Program& pr) : p(pr), cond(pr.condInit) {}
    bool evalCond(int c, bool odd0) const { return cond[c] != (p.condUsesArg[c] && odd0); }
    bool takeVeto(bool entry, int s) {
        auto it = veto.find({entry, s});
        if (it == veto.end() || it->second == 0) return false;
        --it->second;
        return true;
    }
    // reactions to run for this call
    std::vector<const Op*> onCall(CbKind k, int idx) {
        std::vector<const Op*> r;
        int n = ++calls[{k, idx}];
        for (auto& x : p.reactions)
            if (x.cb == k && x.idx == idx && x.nth == n) r.push_back(&x.op);
        return r;
    }
};

// ------------------------------------------------------------------------------------------------------------ model
// Reference semantics. States are indices; history states are encoded as HBASE+h.
struct Model {
    static constexpr int HBASE = 10000;
    static constexpr int EV_INIT = -2;  // startup pseudo event
    enum Kind { REGULAR, ENTRY, RESTORE };
    struct Item {
        Kind kind = REGULAR;
        int ev = 0;
        Args args;
        int hist = NONE;                 // RESTORE: the history state
        std::vector<int> targets;        // RESTORE: states to activate
        bool plain = false;              // RESTORE: do not follow entry points
        bool callback = false;           // RESTORE: run the default transition callback
    };
    const Program& p;
    World w;
    std::vector<int> active;
    std::deque<Item> q;
    std::vector<std::vector<int>> remembered;  // per history, in exit order
    std::vector<std::string> trace;
    std::map<int, bool> timerRunning;          // timer index -> single shot
    struct Rec { std::string s; };
    bool outOfScope = false;
    std::string scopeWhy;
    // statistics
    int accepted = 0, failed = 0, vetoed = 0, restored = 0, forks = 0, finals = 0, multiRegion = 0, entrySteps = 0, maxActive = 0, handled = 0, rollbackDeep = 0;
    bool logSteps = false;

    explicit Model(const Program& pr) : p(pr), w(pr), remembered(pr.hist.size()) {}

    void scope(const char* why) { if (!outOfScope) { outOfScope = true; scopeWhy = why; } }
    int idOf(int s) const { return s >= HBASE ? p.hist[s - HBASE].id : p.st[s].id; }
    bool isActive(int s) const { return std::find(active.begin(), active.end(), s) != active.end(); }
    bool under(int anc, int s) const { return s < HBASE && anc < HBASE && p.isDesc(anc, s); }
    static bool odd0(const Args& a) { return !a.empty() && !a[0].isStr && (a[0].num & 1); }
    bool cond(int c, bool expected, const Args& a) const { return c == NONE || w.evalCond(c, odd0(a)) == expected; }
    std::string evId(int ev) const { return ev == EV_INIT ? "init" : std::to_string(p.events[ev]); }

    struct LogRec {  // one record of the debug log, with ids
        std::string action;
        std::vector<int> active;
        bool hasFrom, hasTo, hasEv, failed;
        int from, to, ev;
        Args args;
    };
    std::vector<LogRec> recs;
    void logRec(const char* action, int from, int to, int ev, bool failed, const Args& a) {
        if (!logSteps) return;
        LogRec r;
        r.action = action;
        for (int s : active) r.active.push_back(idOf(s));
        r.hasFrom = from != NONE;
        r.from = r.hasFrom ? idOf(from) : 0;
        r.hasTo = to != NONE;
        r.to = r.hasTo ? idOf(to) : 0;
        r.hasEv = ev != NONE && ev != EV_INIT;
        r.ev = r.hasEv ? p.events[ev] : 0;
        r.failed = failed;
        r.args = a;
        recs.push_back(r);
    }

    void react(CbKind k, int idx) {
        for (const Op* o : w.onCall(k, idx)) apply(*o);
    }
    void apply(const Op& o) {
        switch (o.kind) {
            case O_SEND_CLEAR: {
                std::deque<Item> keep;
                for (auto& i : q) if (i.kind != REGULAR) keep.push_back(i);
                q.swap(keep);
            }  // fallthrough
            case O_SEND: {
                Item i;
                i.ev = o.ev;
                i.args = o.args;
                q.push_back(i);
                break;
            }
            default: break;
        }
    }
    void timerCall(const std::string& what) { trace.push_back(what); }

    void runActions(int s, bool entry) {
        bool first = true;
        for (auto& a : p.acts) {
            if (a.state != s || a.onEntry != entry) continue;
            if (first) { logRec(entry ? "onenter_actions" : "onexit_actions", NONE, s, NONE, false, {}); first = false; }
            if (a.kind == A_START) {
                timerCall("START " + std::to_string(p.timers[a.timer].id) + " " + std::to_string(a.interval) + (a.single ? " once" : ""));
                timerRunning[a.timer] = a.single;
            } else if (a.kind == A_STOP) {
                timerCall("STOP " + std::to_string(p.timers[a.timer].id));
                timerRunning.erase(a.timer);
            } else if (a.kind == A_RESTART) {
                timerCall("RESTART " + std::to_string(p.timers[a.timer].id));
            } else {
                Item i;
                i.ev = a.ev;
                i.args = a.args;
                q.push_back(i);
            }
        }
    }
    bool doExit(int s) {
        bool ok = true;
        if (s < HBASE) {
            if (p.st[s].cbExit) {
                ok = !w.takeVeto(false, s);
                trace.push_back("EXIT " + std::to_string(idOf(s)) + (ok ? "" : " refused"));
                react(CB_EXIT, s);
                logRec("callback_exit", s, NONE, NONE, !ok, {});
            }
            if (ok) runActions(s, false);
        }
        if (!ok) ++vetoed;
        return ok;
    }
    bool doEnter(int s, const Args& a) {
        if (isActive(s)) return true;
        bool ok = true;
        if (s < HBASE) {
            if (p.st[s].cbEnter) {
                ok = !w.takeVeto(true, s);
                trace.push_back("ENTER " + std::to_string(idOf(s)) + showArgs(a) + (ok ? "" : " refused"));
                react(CB_ENTER, s);
                logRec("callback_enter", NONE, s, NONE, !ok, a);
            }
            if (ok) runActions(s, true);
        }
        if (!ok) ++vetoed;
        return ok;
    }
    void doChanged(int s, const Args& a) {
        if (s < HBASE && p.st[s].cbChanged) {
            trace.push_back("STATE " + std::to_string(idOf(s)) + showArgs(a));
            react(CB_CHANGED, s);
            logRec("callback_state", NONE, s, NONE, false, a);
        }
    }
    void drop(int s) { active.erase(std::remove(active.begin(), active.end(), s), active.end()); }

    std::vector<int> eligibleEntries(int s, int ev, const Args& a) const {
        std::vector<int> r;
        if (s >= HBASE) return r;
        for (auto& sd : p.subs) {
            if (sd.entry == NONE || sd.parent != s) continue;
            auto& e = p.entries[sd.entry];
            if (e.onEvent != NONE && e.onEvent != ev) continue;
            if (!cond(e.cond, e.expected, a)) continue;
            r.push_back(e.sub);
        }
        return r;
    }
    // may the target be entered? breadth-first through eligible entry points down to the first leaf
    bool enterable(int target, int ev, const Args& a) const {
        std::deque<int> todo{target};
        while (!todo.empty()) {
            int s = todo.front();
            todo.pop_front();
            if (s >= HBASE || !p.isComposite(s)) return true;
            auto e = eligibleEntries(s, ev, a);
            if (e.empty()) return false;
            for (int x : e) todo.push_back(x);
        }
        return false;
    }
    std::vector<int> matching(int s, int ev, const Args& a) const {
        std::vector<int> r;
        for (size_t i = 0; i < p.tr.size(); ++i) {
            auto& t = p.tr[i];
            if (t.from != s || t.ev != ev || !cond(t.cond, t.expected, a)) continue;
            int target = t.toHist != NONE ? HBASE + t.toHist : t.to;
            if (t.kind == SELF_INTERNAL || enterable(target, ev, a)) r.push_back(static_cast<int>(i));
        }
        return r;
    }
    bool possible(int ev, const Args& a) const {
        for (int s : active)
            for (int c = s; c != NONE; c = c < HBASE ? p.st[c].parent : NONE) {
                bool has = false;
                for (auto& t : p.tr) has |= (t.from == c && t.ev == ev);
                if (!has) continue;
                if (!matching(c, ev, a).empty()) return true;
                break;
            }
        return false;
    }
    void reenter(const std::vector<int>& exited) {
        if (exited.size() > 1) ++rollbackDeep;
        for (auto it = exited.rbegin(); it != exited.rend(); ++it) {
            if (isActive(*it)) continue;  // a fork target re-entered it already
            (void)doEnterForced(*it);
            active.push_back(*it);
            doChanged(*it, {});
        }
    }
    // during a rollback a refusal is not honoured, but the callback still runs
    bool doEnterForced(int s) { return doEnter(s, {}); }

    void remember(int top, const std::vector<int>& exited) {
        std::set<int> fresh;
        for (int leafmost : exited) {
            int cur = leafmost;
            while (cur < HBASE && p.st[cur].parent != NONE) {
                int par = p.st[cur].parent;
                for (size_t h = 0; h < p.hist.size(); ++h) {
                    if (p.hist[h].parent != par) continue;
                    if (fresh.insert(static_cast<int>(h)).second) remembered[h].clear();
                    int val = p.hist[h].deep ? leafmost : cur;
                    if (std::find(remembered[h].begin(), remembered[h].end(), val) == remembered[h].end()) remembered[h].push_back(val);
                }
                if (par == top) break;
                cur = par;
            }
        }
    }
    enum Res { FAILED, CANCELED, OK, PENDING };

    // activates one target; returns the result for this target
    Res activate(const Item& it, int from, int target, bool plain) {
        if (!doEnter(target, it.args)) return CANCELED;
        if (it.kind != REGULAR && !under(from, target)) drop(from);
        if (!isActive(target)) {
            active.push_back(target);
            doChanged(target, it.args);
        }
        if (target < HBASE && p.st[target].isFinal) {
            int par = p.st[target].parent;
            if (par != NONE) {
                bool others = false;
                for (int s : active) others |= (s < HBASE && p.isDesc(par, s) && !p.st[s].isFinal);
                if (!others) {
                    ++finals;
                    Item x;
                    x.ev = p.st[target].finalEvent != NONE ? p.st[target].finalEvent : it.ev;
                    x.args = it.args;
                    if (x.ev == EV_INIT) scope("final state entered at startup without own event");
                    auto pos = q.begin();  // after the remaining steps of the event being handled
                    while (pos != q.end() && pos->kind != REGULAR) ++pos;
                    q.insert(pos, x);
                }
            }
            return OK;
        }
        if (target >= HBASE) {
            restore(it, target - HBASE);
            return PENDING;
        }
        if (plain) return PENDING;
        if (!eligibleEntries(target, it.ev, it.args).empty()) {
            Item x;
            x.kind = ENTRY;
            x.ev = it.ev;
            x.args = it.args;
            q.push_front(x);
            return PENDING;
        }
        return OK;
    }
    void restore(const Item& it, int h) {
        ++restored;
        auto& H = p.hist[h];
        if (isActive(H.parent)) scope("history entered while its parent is active");
        std::vector<Item> plan;  // in execution order
        Item base;
        base.kind = RESTORE;
        base.ev = it.ev;
        base.args = it.args;
        base.hist = h;
        if (!remembered[h].empty()) {
            Item par = base;
            par.targets = {H.parent};
            par.plain = true;
            // groups of mutually unrelated states, innermost group last
            std::vector<std::vector<int>> groups;
            for (int s : remembered[h]) {
                bool anc = false;
                if (!groups.empty()) for (int g : groups.back()) anc |= p.isDesc(s, g);
                if (groups.empty() || anc) groups.push_back({});
                groups.back().push_back(s);
            }
            plan.push_back(par);
            for (size_t g = groups.size(); g-- > 0;) {
                Item x = base;
                x.targets = groups[g];
                x.plain = g != 0;
                plan.push_back(x);
            }
            remembered[h].clear();
        } else if (H.defTarget == NONE) {
            Item x = base;
            x.targets = {H.parent};
            x.callback = true;
            plan.push_back(x);
        } else {
            Item par = base;
            par.targets = {H.parent};
            par.plain = true;
            Item x = base;
            x.targets = {H.defTarget};
            x.callback = true;
            plan.push_back(par);
            plan.push_back(x);
        }
        for (size_t i = plan.size(); i-- > 0;) q.push_front(plan[i]);
    }

    static Res combine(Res a, Res b) { return std::max(a, b); }

    Res single(int s, const Item& it) {
        Res res = FAILED;
        if (it.kind == REGULAR) {
            auto m = matching(s, it.ev, it.args);
            if (m.empty()) return FAILED;
            if (m.size() > 1) ++forks;
            bool anyExternal = false;
            for (int t : m) {
                if (p.tr[t].kind == SELF_INTERNAL) {
                    logRec("transition", s, s, it.ev, false, it.args);
                    if (p.tr[t].cb) {
                        trace.push_back("TRANS T" + std::to_string(t) + showArgs(it.args));
                        react(CB_TRANS, t);
                    }
                    res = OK;
                } else anyExternal = true;
            }
            std::vector<int> exited;
            if (anyExternal) {
                std::vector<int> snap(active.rbegin(), active.rend());
                bool ok = true;
                for (int x : snap) {
                    if (x != s && !under(s, x)) continue;
                    ok = doExit(x);
                    if (!ok) break;
                    exited.push_back(x);
                }
                if (!ok) {
                    for (int x : exited) drop(x);
                    reenter(exited);
                    return CANCELED;
                }
                remember(s, exited);
                for (int x : exited) drop(x);
            }
            bool refused = false;
            for (int t : m) {
                auto& T = p.tr[t];
                if (T.kind == SELF_INTERNAL) continue;
                int target = T.toHist != NONE ? HBASE + T.toHist : T.to;
                logRec("transition", s, target, it.ev, false, it.args);
                if (T.cb) {
                    trace.push_back("TRANS T" + std::to_string(t) + showArgs(it.args));
                    react(CB_TRANS, t);
                }
                Res r = activate(it, s, target, false);
                refused |= r == CANCELED;
                res = combine(res, r);
            }
            if (refused) reenter(exited);
            return res;
        }
        // ENTRY
        if (s >= HBASE) return FAILED;
        for (int x : active)
            if (x < HBASE && p.st[x].parent == s) return FAILED;
        auto e = eligibleEntries(s, it.ev, it.args);
        for (int target : e) {
            ++entrySteps;
            logRec("transition_entrypoint", s, target, it.ev, false, it.args);
            res = combine(res, activate(it, s, target, false));
        }
        return res;
    }

    void step() {
        Item it = q.front();
        q.pop_front();
        ++handled;
        std::vector<int> snap = active;
        Res res = FAILED;
        bool canceled = false;
        if (it.kind == RESTORE) {
            for (int target : it.targets) {
                logRec("transition", HBASE + it.hist, target, it.ev, false, it.args);
                if (it.callback && p.hist[it.hist].cb) {
                    trace.push_back("HIST " + std::to_string(p.hist[it.hist].id) + showArgs(it.args));
                    react(CB_HIST, it.hist);
                }
                Res r = activate(it, HBASE + it.hist, target, it.plain);
                if (r == CANCELED) { canceled = true; scope("entry refused while restoring history"); }
                res = combine(res, r);
            }
            if (res == OK) logRec("idle", NONE, NONE, NONE, false, {});
        } else {
            std::vector<int> acc;
            for (size_t k = snap.size(); k-- > 0;) {
                int s = snap[k];
                if (!isActive(s)) continue;
                bool skip = false;
                for (int a : acc) skip |= under(s, a);
                if (skip) continue;
                Res r = single(s, it);
                if (r == OK || r == PENDING) {
                    acc.push_back(s);
                    if (r == OK) logRec("idle", NONE, NONE, NONE, false, {});
                }
                canceled |= (r == CANCELED);
                res = combine(res, r == CANCELED ? FAILED : r);
            }
            if (acc.size() > 1) ++multiRegion;
            if (it.kind == ENTRY && acc.empty() && !canceled) res = OK;  // everything was entered by an earlier entry step
        }
        if (res == OK || res == PENDING) {
            if (it.kind == REGULAR) ++accepted;
        } else {
            ++failed;
            if (p.failCb) {
                std::string r = "FAIL ev=" + evId(it.ev) + showArgs(it.args) + " in";
                for (int s : snap) r += " " + std::to_string(idOf(s));
                trace.push_back(r);
                react(CB_FAIL, 0);
            }
        }
        maxActive = std::max<int>(maxActive, static_cast<int>(active.size()));
    }
    void start() {
        (void)0;
        int s = p.initial;
        logRec("idle", NONE, NONE, NONE, false, {});
        (void)doEnter(s, {});
        active.push_back(s);
        doChanged(s, {});
        if (!eligibleEntries(s, EV_INIT, {}).empty()) {
            Item x;
            x.kind = ENTRY;
            x.ev = EV_INIT;
            q.push_front(x);
        }
    }
    bool pump(int cap) {
        int n = 0;
        while (!q.empty()) {
            if (++n > cap) return false;
            step();
        }
        return true;
    }
};

// ----------------------------------------------------------------------------------------------- implementation side
// Minimal dispatcher: single threaded, pumped by hand. Timers are only recorded; expiry is triggered by the test.
class MockDispatcher : public IHsmEventDispatcher {
public:
    std::vector<std::string>* trace = nullptr;
    std::map<HandlerID_t, EventHandlerFunc_t> ev;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> en;
    std::deque<HandlerID_t> pend;
    std::deque<std::pair<HandlerID_t, EventID_t>> enq;
    std::map<TimerID_t, std::pair<HandlerID_t, bool>> running;
    HandlerID_t next = 1;
    bool started = false;
    bool failStart = false;
    int failRegister = 0;
    bool start() override { started = true; return !failStart; }
    void stop() override {}
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { if (failRegister == 1) return INVALID_HSM_DISPATCHER_HANDLER_ID; ev[next] = h; return next++; }
    void unregisterEventHandler(const HandlerID_t id) override { ev.erase(id); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { en[next] = h; return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { en.erase(id); }
    void emitEvent(const HandlerID_t id) override { pend.push_back(id); }
    bool enqueueEvent(const HandlerID_t id, const EventID_t e) override { enq.emplace_back(id, e); return true; }
    void enqueueAction(ActionHandlerFunc_t a) override { a(); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { if (failRegister == 2) return INVALID_HSM_DISPATCHER_HANDLER_ID; tm[next] = h; return next++; }
    void unregisterTimerHandler(const HandlerID_t id) override {
        tm.erase(id);
        for (auto it = running.begin(); it != running.end();) it = it->second.first == id ? running.erase(it) : std::next(it);
    }
    void rec(const std::string& s) { if (trace) trace->push_back(s); }
    void startTimer(const HandlerID_t h, const TimerID_t t, const unsigned int ms, const bool single) override {
        rec("START " + std::to_string(t) + " " + std::to_string(ms) + (single ? " once" : ""));
        if (!tm.count(h)) rec("!startTimer with unknown handler");
        running[t] = {h, single};
    }
    void restartTimer(const TimerID_t t) override { rec("RESTART " + std::to_string(t)); }
    void stopTimer(const TimerID_t t) override { rec("STOP " + std::to_string(t)); running.erase(t); }
    bool isTimerRunning(const TimerID_t t) override { return running.count(t) != 0; }
    bool stepOne() {
        if (!enq.empty()) {
            auto e = enq.front();
            enq.pop_front();
            auto it = en.find(e.first);
            if (it != en.end()) { auto f = it->second; f(e.second); }
            return true;
        }
        if (pend.empty()) return false;
        HandlerID_t id = pend.front();
        pend.pop_front();
        auto it = ev.find(id);
        if (it != ev.end()) {
            auto f = it->second;
            if (!f()) ev.erase(id);
        }
        return true;
    }
    void fire(TimerID_t t) {
        auto it = running.find(t);
        if (it == running.end()) return;
        auto h = tm[it->second.first];
        if (it->second.second) running.erase(it);
        if (h) h(t);
    }
};

class NamedHsm : public HierarchicalStateMachine {
public:
    using HierarchicalStateMachine::HierarchicalStateMachine;
    std::function<std::string(int)> stateName, eventName;
protected:
    std::string getStateName(const StateID_t s) const override { return stateName ? stateName(s) : std::to_string(s); }
    std::string getEventName(const EventID_t e) const override { return eventName ? eventName(e) : std::to_string(e); }
};

struct Real {
    const Program& p;
    World w;
    std::vector<std::string> trace;
    std::shared_ptr<IHsmEventDispatcher> disp;
    std::unique_ptr<NamedHsm> hsm;
    bool insideCallback = false;
    int overlaps = 0;

    struct CbObj {
        Real* r = nullptr;
        int idx = 0;
        bool onEnter(const VariantVector_t& a) { return r->enter(idx, a); }
        bool onExit() { return r->exit(idx); }
        void onChanged(const VariantVector_t& a) { r->changed(idx, a); }
        void onTrans(const VariantVector_t& a) { r->trans(idx, a); }
        void onHist(const VariantVector_t& a) { r->histcb(idx, a); }
        bool onCond(const VariantVector_t& a) { return r->evalCond(idx, a); }
        void onFail(const std::list<StateID_t>& s, const EventID_t e, const VariantVector_t& a) { r->failed(s, e, a); }
    };
    std::list<CbObj> objs;
    CbObj* obj(int idx) {
        objs.push_back(CbObj{this, idx});
        return &objs.back();
    }
    struct Guard {
        Real& r;
        explicit Guard(Real& x) : r(x) { if (r.insideCallback) ++r.overlaps; r.insideCallback = true; }
        ~Guard() { r.insideCallback = false; }
    };

    explicit Real(const Program& pr) : p(pr), w(pr) {}

    bool evalCond(int c, const VariantVector_t& a) {
        bool odd = !a.empty() && a[0].isNumeric() && (a[0].toInt64() & 1);
        return w.evalCond(c, odd);
    }
    void react(CbKind k, int idx) {
        for (const Op* o : w.onCall(k, idx)) apply(*o);
    }
    bool enter(int s, const VariantVector_t& a) {
        Guard g(*this);
        bool ok = !w.takeVeto(true, s);
        trace.push_back("ENTER " + std::to_string(p.st[s].id) + showVariants(a) + (ok ? "" : " refused"));
        react(CB_ENTER, s);
        return ok;
    }
    bool exit(int s) {
        Guard g(*this);
        bool ok = !w.takeVeto(false, s);
        trace.push_back("EXIT " + std::to_string(p.st[s].id) + (ok ? "" : " refused"));
        react(CB_EXIT, s);
        return ok;
    }
    void changed(int s, const VariantVector_t& a) {
        Guard g(*this);
        trace.push_back("STATE " + std::to_string(p.st[s].id) + showVariants(a));
        if (hsm && !hsm->isStateActive(p.st[s].id)) trace.push_back("!state " + std::to_string(p.st[s].id) + " not active in its state-changed callback");
        react(CB_CHANGED, s);
    }
    void trans(int t, const VariantVector_t& a) {
        Guard g(*this);
        trace.push_back("TRANS T" + std::to_string(t) + showVariants(a));
        react(CB_TRANS, t);
    }
    void histcb(int h, const VariantVector_t& a) {
        Guard g(*this);
        trace.push_back("HIST " + std::to_string(p.hist[h].id) + showVariants(a));
        react(CB_HIST, h);
    }
    void failed(const std::list<StateID_t>& st, EventID_t e, const VariantVector_t& a) {
        Guard g(*this);
        std::string r = "FAIL ev=" + (e == INVALID_HSM_EVENT_ID ? std::string("init") : std::to_string(e)) + showVariants(a) + " in";
        for (auto s : st) r += " " + std::to_string(s);
        trace.push_back(r);
        react(CB_FAIL, 0);
    }
    void registerOneState(int i) {
        auto& d = p.st[i];
        if (!d.registered) return;
        EventID_t fe = d.finalEvent == NONE ? INVALID_HSM_EVENT_ID : p.events[d.finalEvent];
        if (d.viaMembers) {
            CbObj* o = obj(i);
            auto c = d.cbChanged ? &CbObj::onChanged : nullptr;
            auto e = d.cbEnter ? &CbObj::onEnter : nullptr;
            auto x = d.cbExit ? &CbObj::onExit : nullptr;
            if (d.isFinal) hsm->registerFinalState<CbObj>(d.id, fe, o, c, e, x);
            else hsm->registerState<CbObj>(d.id, o, c, e, x);
        } else {
            HsmStateChangedCallback_t c;
            HsmStateEnterCallback_t e;
            HsmStateExitCallback_t x;
            if (d.cbChanged) c = [this, i](const VariantVector_t& a) { changed(i, a); };
            if (d.cbEnter) e = [this, i](const VariantVector_t& a) { return enter(i, a); };
            if (d.cbExit) x = [this, i]() { return exit(i); };
            if (d.isFinal) hsm->registerFinalState(d.id, fe, c, e, x);
            else hsm->registerState(d.id, c, e, x);
        }
    }
    // returns an error text or ""
    std::string build() {
        hsm.reset(new NamedHsm(p.st[p.initial].id));
        if (!p.regInterleaved)
            for (int i : p.regOrder) registerOneState(i);
        auto one = [&](int parent, int sub, const EntryDef* e) {
            int pid = p.st[parent].id, cid = p.st[sub].id;
            if (!e) return hsm->registerSubstate(pid, cid);
            EventID_t oe = e->onEvent == NONE ? INVALID_HSM_EVENT_ID : p.events[e->onEvent];
            if (e->cond == NONE && e->onEvent == NONE && !e->viaMembers) return hsm->registerSubstateEntryPoint(pid, cid);
            if (e->viaMembers)
                return hsm->registerSubstateEntryPoint<CbObj>(pid, cid, oe, obj(e->cond), e->cond == NONE ? nullptr : &CbObj::onCond, e->expected);
            HsmTransitionConditionCallback_t c;
            int k = e->cond;
            if (k != NONE) c = [this, k](const VariantVector_t& a) { return evalCond(k, a); };
            return hsm->registerSubstateEntryPoint(pid, cid, oe, c, e->expected);
        };
        if (p.attempts.empty()) {
            for (auto& sd : p.subs)
                if (!one(sd.parent, sd.sub, sd.entry == NONE ? nullptr : &p.entries[sd.entry]))
                    return "registering substate " + std::to_string(p.st[sd.sub].id) + " of " + std::to_string(p.st[sd.parent].id) + " was refused";
        } else {
            int nr = 0;
            for (auto& a : p.attempts) {
                ++nr;
                bool ok = one(a.parent, a.sub, a.entry ? &a.def : nullptr);
                if (ok != a.ok)
                    return "attempt " + std::to_string(nr) + ": registering S" + std::to_string(a.sub) + " in S" + std::to_string(a.parent) + (ok ? " was accepted, must be refused" : " was refused, must be accepted");
            }
        }
        if (p.regInterleaved)
            for (int i : p.regOrder) registerOneState(i);
        for (size_t i = 0; i < p.hist.size(); ++i) {
            auto& h = p.hist[i];
            HistoryType ty = h.deep ? HistoryType::DEEP : HistoryType::SHALLOW;
            StateID_t dt = h.defTarget == NONE ? INVALID_HSM_STATE_ID : p.st[h.defTarget].id;
            int k = static_cast<int>(i);
            if (h.viaMembers) hsm->registerHistory<CbObj>(p.st[h.parent].id, h.id, ty, dt, obj(k), h.cb ? &CbObj::onHist : nullptr);
            else {
                HsmTransitionCallback_t c;
                if (h.cb) c = [this, k](const VariantVector_t& a) { histcb(k, a); };
                hsm->registerHistory(p.st[h.parent].id, h.id, ty, dt, c);
            }
        }
        for (auto& t : p.timers) hsm->registerTimer(t.id, p.events[t.ev]);
        for (size_t i = 0; i < p.tr.size(); ++i) {
            auto& t = p.tr[i];
            int k = static_cast<int>(i);
            int to = t.toHist != NONE ? p.hist[t.toHist].id : p.st[t.to].id;
            int from = p.st[t.from].id;
            EventID_t e = p.events[t.ev];
            TransitionType tt = t.kind == SELF_INTERNAL ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION;
            if (t.viaMembers && (t.cond == NONE || t.cond == k)) {
                CbObj* o = obj(k);
                auto cb = t.cb ? &CbObj::onTrans : nullptr;
                auto cc = t.cond == NONE ? nullptr : &CbObj::onCond;
                if (t.kind == EXTERNAL) hsm->registerTransition<CbObj>(from, to, e, o, cb, cc, t.expected);
                else hsm->registerSelfTransition<CbObj>(from, e, tt, o, cb, cc, t.expected);
            } else {
                HsmTransitionCallback_t cb;
                HsmTransitionConditionCallback_t cc;
                int ck = t.cond;
                if (t.cb) cb = [this, k](const VariantVector_t& a) { trans(k, a); };
                if (ck != NONE) cc = [this, ck](const VariantVector_t& a) { return evalCond(ck, a); };
                // an external self-transition may be registered either way
                if (t.kind == EXTERNAL || (t.kind == SELF_EXTERNAL && k % 3 == 0)) hsm->registerTransition(from, to, e, cb, cc, t.expected);
                else hsm->registerSelfTransition(from, e, tt, cb, cc, t.expected);
            }
        }
        for (auto& a : p.acts) {
            bool ok = false;
            auto trg = a.onEntry ? StateActionTrigger::ON_STATE_ENTRY : StateActionTrigger::ON_STATE_EXIT;
            int sid = p.st[a.state].id;
            int tid = p.timers[a.timer].id;
            if (a.kind == A_START) ok = hsm->registerStateAction(sid, trg, StateAction::START_TIMER, tid, a.interval, a.single);
            else if (a.kind == A_STOP) ok = hsm->registerStateAction(sid, trg, StateAction::STOP_TIMER, tid);
            else if (a.kind == A_RESTART) ok = hsm->registerStateAction(sid, trg, StateAction::RESTART_TIMER, tid);
            else {
                int e = p.events[a.ev];
                auto v = toVariants(a.args);
                switch (v.size()) {
                    case 0: ok = hsm->registerStateAction(sid, trg, StateAction::TRANSITION, e); break;
                    case 1: ok = hsm->registerStateAction(sid, trg, StateAction::TRANSITION, e, v[0]); break;
                    case 2: ok = hsm->registerStateAction(sid, trg, StateAction::TRANSITION, e, v[0], v[1]); break;
                    default: ok = hsm->registerStateAction(sid, trg, StateAction::TRANSITION, e, v[0], v[1], v[2]); break;
                }
            }
            if (!ok) return "registering a valid state action was refused";
        }
        if (p.failCb) {
            if (p.tr.size() % 2) hsm->registerFailedTransitionCallback<CbObj>(obj(0), &CbObj::onFail);
            else hsm->registerFailedTransitionCallback([this](const std::list<StateID_t>& s, const EventID_t e, const VariantVector_t& a) { failed(s, e, a); });
        }
        return "";
    }
    void apply(const Op& o) {
        int e = o.kind == O_SEND || o.kind == O_SEND_CLEAR || o.kind == O_CHECK ? p.events[o.ev] : 0;
        auto v = (o.kind == O_SEND || o.kind == O_SEND_CLEAR || o.kind == O_CHECK) ? toVariants(o.args) : VariantVector_t();
        if (o.kind == O_SEND) {
            if (o.n == 0) {
                switch (v.size()) {
                    case 0: hsm->transition(e); break;
                    case 1: hsm->transition(e, v[0]); break;
                    case 2: hsm->transition(e, v[0], v[1]); break;
                    default: hsm->transition(e, v[0], v[1], v[2]); break;
                }
            } else if (o.n == 1) {
                bool r = false;
                switch (v.size()) {
                    case 0: r = hsm->transitionEx(e, false, false, 0); break;
                    case 1: r = hsm->transitionEx(e, false, false, 0, v[0]); break;
                    case 2: r = hsm->transitionEx(e, false, false, 0, v[0], v[1]); break;
                    default: r = hsm->transitionEx(e, false, false, 0, v[0], v[1], v[2]); break;
                }
                if (!r) trace.push_back("!asynchronous transitionEx returned false");
            } else if (o.n == 2) hsm->transitionWithArgsArray(e, std::move(v));
            else if (!hsm->transitionExWithArgsArray(e, false, false, 0, std::move(v))) trace.push_back("!asynchronous transitionEx returned false");
        } else if (o.kind == O_SEND_CLEAR) {
            switch (v.size()) {
                case 0: hsm->transitionWithQueueClear(e); break;
                case 1: hsm->transitionWithQueueClear(e, v[0]); break;
                case 2: hsm->transitionWithQueueClear(e, v[0], v[1]); break;
                default: hsm->transitionExWithArgsArray(e, true, false, 0, std::move(v)); break;
            }
        } else if (o.kind == O_TSTART) hsm->startTimer(p.timers[o.k].id, static_cast<unsigned>(o.n), o.b);
        else if (o.kind == O_TSTOP) hsm->stopTimer(p.timers[o.k].id);
        else if (o.kind == O_TRESTART) hsm->restartTimer(p.timers[o.k].id);
        else if (o.kind == O_TRUNNING) trace.push_back("timer " + std::to_string(p.timers[o.k].id) + (hsm->isTimerRunning(p.timers[o.k].id) ? " runs" : " doesn't run"));
    }
    bool possible(const Op& o) {
        int e = p.events[o.ev];
        auto v = toVariants(o.args);
        switch (v.size()) {
            case 0: return hsm->isTransitionPossible(e);
            case 1: return hsm->isTransitionPossible(e, v[0]);
            case 2: return hsm->isTransitionPossible(e, v[0], v[1]);
            default: return hsm->isTransitionPossible(e, v[0], v[1], v[2]);
        }
    }
};

inline std::string joinTail(const std::vector<std::string>& a, size_t from, size_t n = 12) {
    std::string r;
    for (size_t i = from; i < a.size() && i < from + n; ++i) r += "    " + a[i] + "\n";
    return r;
}
// first difference between two traces or ""
inline std::string diffTraces(const std::vector<std::string>& model, const std::vector<std::string>& real) {
    size_t i = 0;
    while (i < model.size() && i < real.size() && model[i] == real[i]) ++i;
    if (i == model.size() && i == real.size()) return "";
    size_t ctx = i > 3 ? i - 3 : 0;
    std::string r = "traces differ at step " + std::to_string(i) + "\n  before:\n";
    for (size_t k = ctx; k < i; ++k) r += "    " + model[k] + "\n";
    r += "  expected:\n" + joinTail(model, i, 6) + "  observed:\n" + joinTail(real, i, 6);
    return r;
}

}  // namespace hg
