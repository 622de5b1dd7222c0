#include "recorder.hpp"
#include "hsmcpp/IHsmEventDispatcher.hpp"

namespace rec {
std::vector<std::string> lines;
std::string called;
static Names gNames;
const Names* names = &gNames;
void out(const std::string& s) { printf("%s\n", s.c_str()); }
void begin(int id) { printf("=== %d\n", id); gNames = Names(); }
void end() { printf("=== end\n"); fflush(stdout); }
bool hit(const char* what) { called += what; return true; }
void name(const char* kind, const char* n, int value) {
    printf("const %s %s %d\n", kind, n, value);
    (kind[0] == 's' ? gNames.states : kind[0] == 'e' ? gNames.events : gNames.timers)[value] = n;
}
static std::string look(const std::map<int, std::string>& m, int v) {
    auto it = m.find(v);
    return it == m.end() ? "#" + std::to_string(v) : it->second;
}
std::string st(int v) { return v == hsmcpp::INVALID_HSM_STATE_ID ? "-" : look(gNames.states, v); }
std::string ev(int v) { return v == hsmcpp::INVALID_HSM_EVENT_ID ? "-" : look(gNames.events, v); }
std::string tmr(int v) { return look(gNames.timers, v); }
template <class F, class... A>
std::string cb(const F& f, const A&... a) {
    if (!f) return "-";
    called.clear();
    f(a...);
    return called.empty() ? "?" : called;
}
}  // namespace rec
using namespace rec;

namespace hsmcpp {
class HierarchicalStateMachine::Impl {};
static const VariantVector_t none;
static std::string b(bool v) { return v ? "true" : "false"; }

HierarchicalStateMachine::HierarchicalStateMachine(const StateID_t s) { out("initial " + st(s)); }
HierarchicalStateMachine::~HierarchicalStateMachine() {}
void HierarchicalStateMachine::setInitialState(const StateID_t s) { out("initial " + st(s)); }
bool HierarchicalStateMachine::initialize(const std::weak_ptr<IHsmEventDispatcher>&) { out("initialize"); return true; }
std::weak_ptr<IHsmEventDispatcher> HierarchicalStateMachine::dispatcher() const { return {}; }
bool HierarchicalStateMachine::isInitialized() const { return true; }
void HierarchicalStateMachine::release() {}
void HierarchicalStateMachine::registerFailedTransitionCallback(HsmTransitionFailedCallback_t f) {
    out("failed " + cb(f, std::list<StateID_t>(), 0, none));
}
void HierarchicalStateMachine::registerState(const StateID_t s, HsmStateChangedCallback_t c, HsmStateEnterCallback_t e, HsmStateExitCallback_t x) {
    out("reg state " + st(s) + " " + cb(c, none) + " " + cb(e, none) + " " + cb(x));
}
void HierarchicalStateMachine::registerFinalState(const StateID_t s, const EventID_t v, HsmStateChangedCallback_t c, HsmStateEnterCallback_t e, HsmStateExitCallback_t x) {
    out("reg final " + st(s) + " " + ev(v) + " " + cb(c, none) + " " + cb(e, none) + " " + cb(x));
}
void HierarchicalStateMachine::registerHistory(const StateID_t p, const StateID_t h, const HistoryType t, const StateID_t d, HsmTransitionCallback_t c) {
    out("reg history " + st(p) + " " + st(h) + " " + (t == HistoryType::DEEP ? "deep" : "shallow") + " " + st(d) + " " + cb(c, none));
}
bool HierarchicalStateMachine::registerSubstate(const StateID_t p, const StateID_t s) { out("reg substate " + st(p) + " " + st(s)); return true; }
bool HierarchicalStateMachine::registerSubstateEntryPoint(const StateID_t p, const StateID_t s, const EventID_t v, HsmTransitionConditionCallback_t c, const bool x) {
    out("reg entry " + st(p) + " " + st(s) + " " + ev(v) + " " + cb(c, none) + " " + b(c ? x : true));
    return true;
}
void HierarchicalStateMachine::registerTimer(const TimerID_t t, const EventID_t v) { out("reg timer " + tmr(t) + " " + ev(v)); }
bool HierarchicalStateMachine::registerStateActionImpl(const StateID_t s, const StateActionTrigger t, const StateAction a, const VariantVector_t& args) {
    static const std::map<StateAction, std::string> n = {{StateAction::START_TIMER, "start_timer"}, {StateAction::STOP_TIMER, "stop_timer"},
                                                         {StateAction::RESTART_TIMER, "restart_timer"}, {StateAction::TRANSITION, "transition"}};
    std::string l = "reg action " + st(s) + (t == StateActionTrigger::ON_STATE_ENTRY ? " entry " : " exit ") + n.at(a);
    for (size_t i = 0; i < args.size(); ++i) {
        const Variant& v = args[i];
        char buf[64];
        if (i == 0) l += " " + (a == StateAction::TRANSITION ? ev(static_cast<int>(v.toInt64())) : tmr(static_cast<int>(v.toInt64())));
        else if (v.isBool()) l += v.toBool() ? " B:1" : " B:0";
        else if (v.isNumeric()) { snprintf(buf, sizeof(buf), " N:%g", v.toDouble()); l += buf; }
        else if (v.isString()) {
            l += " S:";
            for (char c : v.toString()) { snprintf(buf, sizeof(buf), "%02x", static_cast<unsigned char>(c)); l += buf; }
        } else l += " ?";
    }
    out(l);
    return true;
}
void HierarchicalStateMachine::registerTransition(const StateID_t f, const StateID_t t, const EventID_t v, HsmTransitionCallback_t c, HsmTransitionConditionCallback_t k, const bool x) {
    out("reg transition " + st(f) + " " + st(t) + " " + ev(v) + " " + cb(c, none) + " " + cb(k, none) + " " + b(k ? x : true));
}
void HierarchicalStateMachine::registerSelfTransition(const StateID_t s, const EventID_t v, const TransitionType t, HsmTransitionCallback_t c, HsmTransitionConditionCallback_t k, const bool x) {
    out("reg self " + st(s) + " " + ev(v) + " " + (t == TransitionType::INTERNAL_TRANSITION ? "internal" : "external") + " " + cb(c, none) + " " + cb(k, none) + " " + b(k ? x : true));
}
std::string HierarchicalStateMachine::getStateName(const StateID_t) const { return std::string(); }
std::string HierarchicalStateMachine::getEventName(const EventID_t) const { return std::string(); }
}  // namespace hsmcpp
