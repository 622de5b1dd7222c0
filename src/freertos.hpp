// control of the stand-in for the FreeRTOS kernel
#pragma once
#include <functional>

#include "FreeRTOS.h"
#include "semphr.h"
#include "task.h"
#include "timers.h"

namespace rtos {
struct Options {
    std::function<bool()> failTimerCmd;   // the queue of the timer task is full
    std::function<void()> taskStarted;    // in the context of a new task
};
void begin(const Options& o);
void end();            // timers stop, all tasks must be ending
int liveTasks();
int timersAlive();     // created, not deleted
int timersPending();
bool inCritical();
}  // namespace rtos
