#include "freertos.hpp"

#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fib.hpp"

namespace rtos {
struct Task {
    int fiber = -1;
    std::string name;
    uint32_t notify = 0;
    bool pending = false;
    bool suspended = false, ended = false, created = false;
};
struct Sem {
    enum K { BINARY, MUTEX, RECURSIVE, COUNTING } k = BINARY;
    UBaseType_t count = 0, max = 1;
    Task* holder = nullptr;
    int depth = 0;
    bool deleted = false;
};
struct Timer {
    std::string name;
    TickType_t period = 0;
    bool reload = false, active = false, gone = false, deleting = false;
    void* id = nullptr;
    TimerCallbackFunction_t fn = nullptr;
    int64_t expiry = 0;
};
enum Cmd { START, STOP, DELETE, PERIOD, CALL };
struct Command { Cmd c; Timer* t; TickType_t v; int64_t at; PendedFunction_t fn; void* a; };

namespace {
struct Kernel {
    std::vector<std::unique_ptr<Task>> tasks;
    std::map<int, Task*> byFiber;
    std::set<Sem*> sems;
    std::vector<std::unique_ptr<Sem>> allSems;
    std::vector<std::unique_ptr<Timer>> timers;
    std::deque<Command> queue;
    int daemon = -1;
    bool quit = false, inCallback = false;
    int critical = 0;
    int liveTasks = 0;
    Options opt;
    std::vector<int> daemons;
};
std::unique_ptr<Kernel> K;
Kernel& kernel() {
    if (!K) K.reset(new Kernel);
    return *K;
}
[[noreturn]] void die(const std::string& s) { pbt::dieWithFailure("rtos-misuse", s + "\n" + fib::dump()); }
void needTask(const char* fn) {
    if (fib::inHandler()) die(std::string(fn) + "() is called from an interrupt handler");
}
void needIsr(const char* fn) {
    if (!fib::inHandler()) die(std::string(fn) + "() is called from a task");
}
int64_t tickNs() { return 1000 * fib::MS / configTICK_RATE_HZ; }
int64_t until(TickType_t ticks) { return ticks == portMAX_DELAY ? -1 : fib::now() + static_cast<int64_t>(ticks) * tickNs(); }
Task* self() {
    auto& k = kernel();
    auto it = k.byFiber.find(fib::self());
    if (it != k.byFiber.end()) return it->second;
    k.tasks.emplace_back(new Task);
    Task* t = k.tasks.back().get();
    t->fiber = fib::self();
    t->name = "fiber" + std::to_string(t->fiber);
    k.byFiber[t->fiber] = t;
    return t;
}
Task* target(Task* t, const char* fn) {
    if (!t) die(std::string(fn) + "() with a null task");
    bool known = false;
    for (auto& x : kernel().tasks) known |= x.get() == t;
    if (!known) die(std::string(fn) + "() with something that isn't a task");
    if (t->ended) die(std::string(fn) + "() with a task which doesn't exist any more");
    return t;
}
void fire(Timer* t) {
    kernel().inCallback = true;
    fib::point();
    t->fn(t);
    kernel().inCallback = false;
}
void expire(Timer* t) {
    if (t->reload) {
        t->expiry += static_cast<int64_t>(t->period) * tickNs();
    } else {
        t->active = false;
    }
    fire(t);
}
void daemonLoop() {
    auto& k = kernel();
    while (!k.quit) {
        Timer* n = nullptr;
        for (auto& t : k.timers)
            if (t->active && !t->gone && (!n || t->expiry < n->expiry)) n = t.get();
        if (n && n->expiry <= fib::now()) {
            expire(n);
        } else if (k.queue.empty()) {
            fib::waitOn(&k.queue, n ? n->expiry : -1);
        }
        while (!k.queue.empty() && !k.quit) {
            Command c;
            { fib::Quiet q; c = k.queue.front(); k.queue.pop_front(); fib::wake(&k.daemon); }
            Timer* t = c.t;
            if (t && t->gone) die("timer is used after it was deleted");
            switch (c.c) {
                case START:
                    t->active = true;
                    t->expiry = c.at + static_cast<int64_t>(t->period) * tickNs();
                    while (t->active && !t->gone && t->expiry <= fib::now()) expire(t);
                    break;
                case STOP: t->active = false; break;
                case DELETE: t->active = false; t->gone = true; break;
                case PERIOD:
                    t->period = c.v;
                    t->active = true;
                    t->expiry = fib::now() + static_cast<int64_t>(t->period) * tickNs();
                    break;
                case CALL: c.fn(c.a, c.v); break;
            }
        }
    }
}
BaseType_t send(Command c, TickType_t ticks, const char* fn) {
    auto& k = kernel();
    if (c.t) {
        bool known = false;
        for (auto& x : k.timers) known |= x.get() == c.t;
        if (!known) die(std::string(fn) + "() with something that isn't a timer");
        if (c.t->gone || c.t->deleting) die(std::string(fn) + "() with a timer which was deleted");
    }
    if (!fib::inHandler()) fib::point();
    const int64_t d = until(fib::self() == k.daemon ? 0 : ticks);
    while (k.queue.size() >= configTIMER_QUEUE_LENGTH || (k.opt.failTimerCmd && k.opt.failTimerCmd())) {
        if (ticks == 0 || (d >= 0 && fib::now() >= d)) return pdFAIL;
        if (!fib::waitOn(&k.daemon, d)) return pdFAIL;
    }
    {
        fib::Quiet q;
        if (c.c == DELETE) c.t->deleting = true;
        c.at = fib::now();
        k.queue.push_back(c);
        fib::wake(&k.queue);
    }
    if (!fib::inHandler()) fib::point();
    return pdPASS;
}
Sem* checked(Sem* s, const char* fn) {
    if (!s) die(std::string(fn) + "() without a semaphore");
    if (!kernel().sems.count(s)) die(std::string(fn) + "() with something that isn't a semaphore");
    if (s->deleted) die(std::string(fn) + "() with a semaphore which was deleted");
    return s;
}
Sem* create(Sem::K k, UBaseType_t max, UBaseType_t n) {
    fib::Quiet q;
    kernel().allSems.emplace_back(new Sem);
    Sem* s = kernel().allSems.back().get();
    s->k = k;
    s->max = max;
    s->count = n;
    kernel().sems.insert(s);
    return s;
}
}  // namespace

void misuse(const char* what) { die(what); }
void begin(const Options& o) {
    K.reset(new Kernel);
    K->opt = o;
}
int liveTasks() { return kernel().liveTasks; }
bool inCritical() { return K && K->critical > 0; }
void end() {
    auto& k = kernel();
    if (k.daemon >= 0) {
        k.quit = true;
        fib::wake(&k.queue);
        fib::joinDaemon(k.daemon);
        k.daemon = -1;
    }
    for (int d : k.daemons) fib::joinDaemon(d);
    k.daemons.clear();
}
int timersAlive() {
    int n = 0;
    for (auto& t : kernel().timers) n += !t->gone;
    return n;
}
int timersPending() { return static_cast<int>(kernel().queue.size()); }
}  // namespace rtos

using namespace rtos;
extern "C" {
BaseType_t xPortIsInsideInterrupt(void) { return fib::inHandler() ? pdTRUE : pdFALSE; }
void* pvPortMalloc(size_t n) { return malloc(n); }
void vPortFree(void* p) { free(p); }

// ------------------------------------------------------------------------------------------------------------------- tasks
BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE, void* arg, UBaseType_t, TaskHandle_t* out) {
    needTask("xTaskCreate");
    auto& k = kernel();
    Task* t;
    {
        fib::Quiet q;
        k.tasks.emplace_back(new Task);
        t = k.tasks.back().get();
        t->name = name ? name : "";
        t->created = true;
        if (out) *out = t;
        ++k.liveTasks;
    }
    int id = fib::daemon("task" + std::to_string(k.tasks.size()), [t, fn, arg]() {
        {
            fib::Quiet q;
            t->fiber = fib::self();
            kernel().byFiber[t->fiber] = t;
            if (kernel().opt.taskStarted) kernel().opt.taskStarted();
        }
        fn(arg);
        die("function of a task returns");
    });
    fib::Quiet q;
    k.daemons.push_back(id);
    return pdPASS;
}
void vTaskDelete(TaskHandle_t t) {
    needTask("vTaskDelete");
    fib::point();
    Task* me = self();
    if (t && t != me) die("vTaskDelete() of another task isn't supported by this model");
    if (kernel().critical) die("task ends inside of a critical section");
    for (Sem* s : kernel().sems)
        if (s->holder == me && !s->deleted) die("task ends while it holds a mutex");
    me->ended = true;
    kernel().byFiber.erase(me->fiber);
    if (me->created) --kernel().liveTasks;
    fib::exitFiber();
}
void vTaskDelay(TickType_t ticks) {
    needTask("vTaskDelay");
    if (ticks == 0) fib::point();
    else fib::sleep(static_cast<int64_t>(ticks) * tickNs());
}
void vTaskSuspend(TaskHandle_t t) {
    needTask("vTaskSuspend");
    fib::point();
    Task* me = self();
    if (t && t != me) die("vTaskSuspend() of another task isn't supported by this model");
    me->suspended = true;
    while (me->suspended) fib::waitOn(&me->suspended, -1);
}
void vTaskResume(TaskHandle_t t) {
    needTask("vTaskResume");
    target(t, "vTaskResume");
    fib::point();
    t->suspended = false;
    fib::wake(&t->suspended);
    fib::point();
}
BaseType_t xTaskResumeFromISR(TaskHandle_t t) {
    target(t, "xTaskResumeFromISR")->suspended = false;
    fib::wake(&t->suspended);
    return pdFALSE;
}
eTaskState eTaskGetState(TaskHandle_t t) {
    bool known = false;
    for (auto& x : kernel().tasks) known |= x.get() == t;
    if (!known) die("eTaskGetState() with something that isn't a task");
    fib::point();
    if (t->ended) return eDeleted;
    if (t->suspended) return eSuspended;
    return t == self() ? eRunning : fib::waiting(&t->notify) ? eBlocked : eReady;
}
TaskHandle_t xTaskGetCurrentTaskHandle(void) { fib::Quiet q; return self(); }
BaseType_t xTaskGetSchedulerState(void) { return taskSCHEDULER_RUNNING; }
TickType_t xTaskGetTickCount(void) { return static_cast<TickType_t>(fib::now() / tickNs()); }
TickType_t xTaskGetTickCountFromISR(void) { return xTaskGetTickCount(); }
UBaseType_t uxTaskPriorityGet(TaskHandle_t) { return 1; }
void vTaskSuspendAll(void) { ++kernel().critical; fib::lockScheduler(true); }
BaseType_t xTaskResumeAll(void) { --kernel().critical; fib::lockScheduler(false); fib::point(); return pdFALSE; }

uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks) {
    needTask("ulTaskNotifyTake");
    fib::point();
    Task* me;
    { fib::Quiet q; me = self(); }
    const int64_t d = until(ticks);
    while (me->notify == 0 && ticks != 0)
        if (!fib::waitOn(&me->notify, d)) break;
    const uint32_t v = me->notify;
    if (v) me->notify = clear ? 0 : v - 1;
    me->pending = false;
    return v;
}
static BaseType_t doNotify(TaskHandle_t t, uint32_t v, eNotifyAction a, const char* fn) {
    target(t, fn);
    BaseType_t r = pdPASS;
    switch (a) {
        case eNoAction: break;
        case eSetBits: t->notify |= v; break;
        case eIncrement: ++t->notify; break;
        case eSetValueWithOverwrite: t->notify = v; break;
        case eSetValueWithoutOverwrite: if (t->pending) r = pdFAIL; else t->notify = v; break;
    }
    t->pending = true;
    fib::wake(&t->notify);
    return r;
}
BaseType_t xTaskNotify(TaskHandle_t t, uint32_t v, eNotifyAction a) {
    needTask("xTaskNotify");
    fib::point();
    BaseType_t r = doNotify(t, v, a, "xTaskNotify");
    fib::point();
    return r;
}
BaseType_t xTaskNotifyFromISR(TaskHandle_t t, uint32_t v, eNotifyAction a, BaseType_t*) { return doNotify(t, v, a, "xTaskNotifyFromISR"); }
BaseType_t xTaskNotifyGive(TaskHandle_t t) {
    needTask("xTaskNotifyGive");
    fib::point();
    doNotify(t, 0, eIncrement, "xTaskNotifyGive");
    fib::point();
    return pdPASS;
}
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t*) { doNotify(t, 0, eIncrement, "vTaskNotifyGiveFromISR"); }
BaseType_t xTaskNotifyWait(uint32_t clearEntry, uint32_t clearExit, uint32_t* value, TickType_t ticks) {
    needTask("xTaskNotifyWait");
    fib::point();
    Task* me;
    { fib::Quiet q; me = self(); }
    if (!me->pending) me->notify &= ~clearEntry;
    const int64_t d = until(ticks);
    while (!me->pending && ticks != 0)
        if (!fib::waitOn(&me->notify, d)) break;
    if (value) *value = me->notify;
    const bool got = me->pending;
    if (got) me->notify &= ~clearExit;
    me->pending = false;
    return got ? pdTRUE : pdFALSE;
}
BaseType_t xTaskNotifyStateClear(TaskHandle_t t) {
    Task* x = t ? t : self();
    const bool p = x->pending;
    x->pending = false;
    return p ? pdTRUE : pdFALSE;
}

void vRtosEnterCritical(void) {
    needTask("taskENTER_CRITICAL");
    if (kernel().critical == 0) fib::point();
    if (kernel().critical++ == 0) { fib::lockScheduler(true); fib::blockSignals(true); }
}
void vRtosExitCritical(void) {
    needTask("taskEXIT_CRITICAL");
    if (kernel().critical == 0) die("taskEXIT_CRITICAL() without taskENTER_CRITICAL()");
    if (--kernel().critical == 0) { fib::lockScheduler(false); fib::blockSignals(false); fib::point(); }
}
UBaseType_t uxRtosEnterCriticalFromISR(void) {
    needIsr("taskENTER_CRITICAL_FROM_ISR");
    return 77;
}
void vRtosExitCriticalFromISR(UBaseType_t s) {
    needIsr("taskEXIT_CRITICAL_FROM_ISR");
    if (s != 77) die("taskEXIT_CRITICAL_FROM_ISR() with a wrong value");
}
void vRtosYield(void) { fib::point(); }

// -------------------------------------------------------------------------------------------------------------- semaphores
SemaphoreHandle_t xSemaphoreCreateBinary(void) { return create(Sem::BINARY, 1, 0); }
SemaphoreHandle_t xSemaphoreCreateMutex(void) { return create(Sem::MUTEX, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex(void) { return create(Sem::RECURSIVE, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t max, UBaseType_t n) { return create(Sem::COUNTING, max, n); }
void vSemaphoreDelete(SemaphoreHandle_t s) {
    needTask("vSemaphoreDelete");
    checked(s, "vSemaphoreDelete");
    if (fib::waiting(s)) die("vSemaphoreDelete() of a semaphore other tasks are waiting for");
    s->deleted = true;
}
static BaseType_t take(SemaphoreHandle_t s, TickType_t ticks, const char* fn) {
    needTask(fn);
    checked(s, fn);
    fib::point();
    checked(s, fn);
    const int64_t d = until(ticks);
    Task* me;
    { fib::Quiet q; me = self(); }
    if (s->k == Sem::MUTEX && s->count == 0 && s->holder == me && ticks == portMAX_DELAY) die("deadlock: task waits for a mutex it holds itself");
    while (s->count == 0) {
        if (ticks == 0) return pdFALSE;
        if (!fib::waitOn(s, d)) {
            if (s->count) break;
            return pdFALSE;
        }
        checked(s, fn);
    }
    --s->count;
    if (s->k == Sem::MUTEX || s->k == Sem::RECURSIVE) { s->holder = me; s->depth = 1; }
    return pdTRUE;
}
BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t ticks) { return take(s, ticks, "xSemaphoreTake"); }
static BaseType_t give(SemaphoreHandle_t s, const char* fn) {
    checked(s, fn);
    if (s->k == Sem::MUTEX) {
        Task* me;
        { fib::Quiet q; me = self(); }
        if (s->count) die(std::string(fn) + "(): mutex isn't taken");
        if (!fib::inHandler() && s->holder != me) die(std::string(fn) + "(): mutex is held by another task");
        if (fib::inHandler() && s->holder) die(std::string(fn) + "(): mutex is held by a task");
    }
    if (s->count >= s->max) return pdFALSE;
    ++s->count;
    s->holder = nullptr;
    fib::wake(s);
    return pdTRUE;
}
BaseType_t xSemaphoreGive(SemaphoreHandle_t s) {
    needTask("xSemaphoreGive");
    checked(s, "xSemaphoreGive");
    fib::point();
    BaseType_t r = give(s, "xSemaphoreGive");
    fib::point();
    return r;
}
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t s, TickType_t ticks) {
    Task* me;
    { fib::Quiet q; me = self(); }
    if (checked(s, "xSemaphoreTakeRecursive")->holder == me) { ++s->depth; return pdTRUE; }
    return take(s, ticks, "xSemaphoreTakeRecursive");
}
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t s) {
    Task* me;
    { fib::Quiet q; me = self(); }
    if (checked(s, "xSemaphoreGiveRecursive")->holder != me) return pdFALSE;
    if (--s->depth == 0) return xSemaphoreGive(s);
    return pdTRUE;
}
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t s, BaseType_t*) {
    needIsr("xSemaphoreTakeFromISR");
    checked(s, "xSemaphoreTakeFromISR");
    if (s->count == 0) {
        static int spin;
        static SemaphoreHandle_t last;
        spin = last == s ? spin + 1 : 0;
        last = s;
        if (spin > 1000) die("interrupt handler waits for a semaphore forever");
        return pdFALSE;
    }
    --s->count;
    return pdTRUE;
}
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t s, BaseType_t*) { return give(s, "xSemaphoreGiveFromISR"); }
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t s) { return checked(s, "uxSemaphoreGetCount")->count; }
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t s) { return checked(s, "xSemaphoreGetMutexHolder")->holder; }

// ------------------------------------------------------------------------------------------------------------------ timers
TimerHandle_t xTimerCreate(const char* name, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t fn) {
    auto& k = kernel();
    if (period == 0) die("xTimerCreate() with a period of 0 ticks");
    {
        fib::Quiet q;
        k.timers.emplace_back(new Timer);
        Timer* t = k.timers.back().get();
        t->name = name ? name : "";
        t->period = period;
        t->reload = reload;
        t->id = id;
        t->fn = fn;
    }
    Timer* t = k.timers.back().get();
    if (k.daemon < 0) k.daemon = fib::daemon("timers", daemonLoop);
    return t;
}
#define CMD(name, cmd) \
    BaseType_t name(TimerHandle_t t, TickType_t ticks) { needTask(#name); return send({cmd, t, 0, 0, nullptr, nullptr}, ticks, #name); } \
    BaseType_t name##FromISR(TimerHandle_t t, BaseType_t*) { needIsr(#name "FromISR"); return send({cmd, t, 0, 0, nullptr, nullptr}, 0, #name "FromISR"); }
CMD(xTimerStart, START)
CMD(xTimerStop, STOP)
CMD(xTimerReset, START)
BaseType_t xTimerDelete(TimerHandle_t t, TickType_t ticks) { needTask("xTimerDelete"); return send({DELETE, t, 0, 0, nullptr, nullptr}, ticks, "xTimerDelete"); }
BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t p, TickType_t ticks) {
    needTask("xTimerChangePeriod");
    if (p == 0) die("xTimerChangePeriod() with a period of 0 ticks");
    return send({PERIOD, t, p, 0, nullptr, nullptr}, ticks, "xTimerChangePeriod");
}
BaseType_t xTimerChangePeriodFromISR(TimerHandle_t t, TickType_t p, BaseType_t*) {
    if (p == 0) die("xTimerChangePeriodFromISR() with a period of 0 ticks");
    return send({PERIOD, t, p, 0, nullptr, nullptr}, 0, "xTimerChangePeriodFromISR");
}
static Timer* alive(Timer* t) {
    bool known = false;
    for (auto& x : kernel().timers) known |= x.get() == t;
    if (!known) die("something that isn't a timer is used as one");
    if (t->gone || t->deleting) die("timer is used after it was deleted");
    return t;
}
BaseType_t xTimerIsTimerActive(TimerHandle_t t) { return alive(t)->active ? pdTRUE : pdFALSE; }
TickType_t xTimerGetPeriod(TimerHandle_t t) { return alive(t)->period; }
TickType_t xTimerGetExpiryTime(TimerHandle_t t) { return static_cast<TickType_t>(alive(t)->expiry / tickNs()); }
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t r) { alive(t)->reload = r != 0; }
UBaseType_t uxTimerGetReloadMode(TimerHandle_t t) { return alive(t)->reload; }
// NOTE: a callback may still use its timer while the request to delete it is waiting
void* pvTimerGetTimerID(TimerHandle_t t) { if (t->gone) die("timer is used after it was deleted"); return t->id; }
void vTimerSetTimerID(TimerHandle_t t, void* id) { alive(t)->id = id; }
const char* pcTimerGetName(TimerHandle_t t) { return alive(t)->name.c_str(); }
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void) {
    for (auto& p : kernel().byFiber)
        if (p.first == kernel().daemon) return p.second;
    return nullptr;
}
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* a, uint32_t b, TickType_t ticks) { return send({CALL, nullptr, b, 0, fn, a}, ticks, "xTimerPendFunctionCall"); }
}
