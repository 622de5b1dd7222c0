#ifndef TIMERS_H
#define TIMERS_H
#include "FreeRTOS.h"
#include "task.h"
namespace rtos { struct Timer; }
typedef rtos::Timer* TimerHandle_t;
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
extern "C" {
TimerHandle_t xTimerCreate(const char* name, TickType_t period, UBaseType_t reload, void* id, TimerCallbackFunction_t fn);
BaseType_t xTimerStart(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerStop(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerReset(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerDelete(TimerHandle_t t, TickType_t ticks);
BaseType_t xTimerChangePeriod(TimerHandle_t t, TickType_t period, TickType_t ticks);
BaseType_t xTimerStartFromISR(TimerHandle_t t, BaseType_t* woken);
BaseType_t xTimerStopFromISR(TimerHandle_t t, BaseType_t* woken);
BaseType_t xTimerResetFromISR(TimerHandle_t t, BaseType_t* woken);
BaseType_t xTimerChangePeriodFromISR(TimerHandle_t t, TickType_t period, BaseType_t* woken);
BaseType_t xTimerIsTimerActive(TimerHandle_t t);
TickType_t xTimerGetPeriod(TimerHandle_t t);
TickType_t xTimerGetExpiryTime(TimerHandle_t t);
void vTimerSetReloadMode(TimerHandle_t t, UBaseType_t reload);
UBaseType_t uxTimerGetReloadMode(TimerHandle_t t);
void* pvTimerGetTimerID(TimerHandle_t t);
void vTimerSetTimerID(TimerHandle_t t, void* id);
const char* pcTimerGetName(TimerHandle_t t);
TaskHandle_t xTimerGetTimerDaemonTaskHandle(void);
BaseType_t xTimerPendFunctionCall(PendedFunction_t fn, void* a, uint32_t b, TickType_t ticks);
}
#endif
