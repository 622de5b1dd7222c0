// Helpers of a demonstration: a dispatcher which is pumped by hand and has simulated timers, checks.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <hsmcpp/HsmEventDispatcherBase.hpp>
#include <hsmcpp/hsm.hpp>
using namespace hsmcpp;

class Manual : public HsmEventDispatcherBase {
public:
    static std::shared_ptr<Manual> create(size_t cache = 10) { return std::make_shared<Manual>(cache); }
    explicit Manual(size_t cache) : HsmEventDispatcherBase(cache) {}
    bool start() override { return true; }
    void emitEvent(const HandlerID_t id) override { HsmEventDispatcherBase::emitEvent(id); }
    void pump() {
        for (int i = 0; i < 1000; ++i) {
            dirty = false;
            dispatchPendingEvents();
            if (!dirty) return;
        }
        std::printf("endless loop\n");
        std::exit(1);
    }
    void advance(unsigned ms) {
        for (unsigned i = 0; i < ms; ++i) {
            ++now;
            for (bool again = true; again;) {
                again = false;
                for (auto& t : due)
                    if (t.second <= now) {
                        const TimerID_t id = t.first;
                        const unsigned next = handleTimerEvent(id);
                        if (next && due.count(id)) due[id] = now + next;
                        else due.erase(id);
                        again = true;
                        break;
                    }
            }
            pump();
        }
    }

protected:
    bool deleteSafe() override { return true; }
    void notifyDispatcherAboutEvent() override { dirty = true; }
    void startTimerImpl(const TimerID_t id, const unsigned int ms, const bool) override { due[id] = now + ms; }
    void stopTimerImpl(const TimerID_t id) override { due.erase(id); }

private:
    bool dirty = false;
    unsigned now = 0;
    std::map<TimerID_t, unsigned> due;
};

inline std::string str(const VariantVector_t& a) {
    std::string r;
    for (auto& v : a) r += (r.empty() ? "" : ",") + v.toString();
    return r;
}
inline std::string active(const HierarchicalStateMachine& m) {
    std::string r;
    for (auto s : m.getActiveStates()) r += (r.empty() ? "" : " ") + std::to_string(s);
    return r;
}
// logs the callbacks of a state
inline void logState(HierarchicalStateMachine& m, StateID_t s, std::string& log) {
    m.registerState(s, [&log, s](const VariantVector_t& a) { log += "=" + std::to_string(s) + "(" + str(a) + ") "; },
                    [&log, s](const VariantVector_t&) { log += "+" + std::to_string(s) + " "; return true; },
                    [&log, s]() { log += "-" + std::to_string(s) + " "; return true; });
}
inline void expect(const std::string& what, const std::string& got, const std::string& want) {
    if (got == want) return;
    std::printf("%s: got \"%s\", expected \"%s\"\n", what.c_str(), got.c_str(), want.c_str());
    std::exit(1);
}
inline void expect(const std::string& what, bool ok) {
    if (ok) return;
    std::printf("failed: %s\n", what.c_str());
    std::exit(1);
}
