// Demonstrations of the known findings (see known_findings.json). Each returns true while the tree still misbehaves.
#include "hsmgen.hpp"
#include "pbt.hpp"

using namespace hg;
namespace {
struct M {
    std::shared_ptr<MockDispatcher> d = std::make_shared<MockDispatcher>();
    HierarchicalStateMachine h;
    std::map<int, int> veto;  // state -> how many entries are refused
    std::string log;
    explicit M(int initial) : h(initial) {}
    void state(int id) {
        h.registerState(id, nullptr,
                        [this, id](const VariantVector_t&) {
                            log += " +" + std::to_string(id);
                            return !(veto[id]-- > 0);
                        },
                        [this, id]() { log += " -" + std::to_string(id); return true; });
    }
    void go(int ev) {
        h.transition(ev);
        for (int i = 0; i < 100 && d->stepOne(); ++i) {}
    }
    std::string active() {
        std::string r;
        for (auto s : h.getActiveStates()) r += " " + std::to_string(s);
        return r;
    }
};

// A -> D, where D is a substate of the inactive C
bool nonlocal(std::string& what) {
    M m(1);
    for (int s : {1, 2, 3, 4}) m.state(s);
    m.h.registerSubstateEntryPoint(2, 3);
    m.h.registerSubstate(2, 4);
    m.h.registerTransition(1, 4, 1);
    m.h.initialize(m.d);
    m.go(1);
    what = "active after transition into a substate of an inactive parent:" + m.active();
    return m.h.isStateActive(4) && !m.h.isStateActive(2);
}

// P{H, S1} <-> A, entry of S1 refused while history is restored
bool histveto(std::string& what) {
    M m(1);
    for (int s : {1, 2, 3}) m.state(s);
    m.h.registerHistory(1, 9, HistoryType::SHALLOW);
    m.h.registerSubstateEntryPoint(1, 2);
    m.h.registerTransition(1, 3, 1);
    m.h.registerTransition(3, 9, 2);
    m.h.initialize(m.d);
    m.go(1);
    m.veto[2] = 1;
    m.go(2);
    what = "active after the restored state refused to be entered:" + m.active();
    return !(m.h.getActiveStates().size() == 1 && m.h.isStateActive(3));
}
}  // namespace

int main(int argc, char** argv) {
    return pbt::mainImpl(argc, argv, {}, {{"nonlocal", nonlocal}, {"histveto", histveto}});
}
