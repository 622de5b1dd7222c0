// Stand-in for the FreeRTOS kernel: the documented behaviour of what the library uses, on top of the simulated threads of fib.hpp.
// Single core; tasks of equal priority (any of them may run next), so any interleaving outside of critical sections can happen.
#ifndef INC_FREERTOS_H
#define INC_FREERTOS_H
#include <cstddef>
#include <cstdint>

typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t TickType_t;
typedef uint32_t StackType_t;
#define configSTACK_DEPTH_TYPE uint32_t
#define configMINIMAL_STACK_SIZE ((configSTACK_DEPTH_TYPE)128)
#define configMAX_PRIORITIES (7)
#define configUSE_PREEMPTION 1
#define configUSE_MUTEXES 1
#define configUSE_RECURSIVE_MUTEXES 1
#define configUSE_COUNTING_SEMAPHORES 1
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_TIMERS 1
#define configTIMER_TASK_PRIORITY (configMAX_PRIORITIES - 1)
#define configTIMER_QUEUE_LENGTH 20
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configSUPPORT_STATIC_ALLOCATION 1
#define configUSE_16_BIT_TICKS 0
#define configTICK_RATE_HZ 1000
#define configNUMBER_OF_CORES 1
#define INCLUDE_xTaskGetCurrentTaskHandle 1
#define INCLUDE_vTaskDelete 1
#define INCLUDE_vTaskDelay 1
#define INCLUDE_vTaskSuspend 1
#define INCLUDE_eTaskGetState 1
#define INCLUDE_xSemaphoreGetMutexHolder 1
#define INCLUDE_xTimerGetTimerDaemonTaskHandle 1
#define INCLUDE_xTaskGetSchedulerState 1
#define pdFALSE ((BaseType_t)0)
#define pdTRUE ((BaseType_t)1)
#define pdFAIL (pdFALSE)
#define pdPASS (pdTRUE)
#define errQUEUE_EMPTY ((BaseType_t)0)
#define errQUEUE_FULL ((BaseType_t)0)
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define portTICK_PERIOD_MS ((TickType_t)1000 / configTICK_RATE_HZ)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((TickType_t)(ms) * (TickType_t)configTICK_RATE_HZ) / (TickType_t)1000U))
#define pdTICKS_TO_MS(t) ((TickType_t)(((TickType_t)(t) * (TickType_t)1000U) / (TickType_t)configTICK_RATE_HZ))
#define tskKERNEL_VERSION_MAJOR 10
#define tskKERNEL_VERSION_MINOR 4

namespace rtos {
[[noreturn]] void misuse(const char* what);
}
#define configASSERT(x) if ((x) == 0) rtos::misuse(#x)
extern "C" {
BaseType_t xPortIsInsideInterrupt(void);
void* pvPortMalloc(size_t n);
void vPortFree(void* p);
}
#define portYIELD_FROM_ISR(x) ((void)(x))
#define portEND_SWITCHING_ISR(x) ((void)(x))
#endif
