#ifndef INC_TASK_H
#define INC_TASK_H
#include "FreeRTOS.h"
namespace rtos { struct Task; }
typedef rtos::Task* TaskHandle_t;
typedef void (*TaskFunction_t)(void*);
typedef enum { eRunning = 0, eReady, eBlocked, eSuspended, eDeleted, eInvalid } eTaskState;
typedef enum { eNoAction = 0, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite } eNotifyAction;
#define tskIDLE_PRIORITY ((UBaseType_t)0U)
#define taskSCHEDULER_SUSPENDED ((BaseType_t)0)
#define taskSCHEDULER_NOT_STARTED ((BaseType_t)1)
#define taskSCHEDULER_RUNNING ((BaseType_t)2)
extern "C" {
BaseType_t xTaskCreate(TaskFunction_t fn, const char* name, configSTACK_DEPTH_TYPE depth, void* arg, UBaseType_t prio, TaskHandle_t* out);
void vTaskDelete(TaskHandle_t t);
void vTaskDelay(TickType_t ticks);
void vTaskSuspend(TaskHandle_t t);
void vTaskResume(TaskHandle_t t);
BaseType_t xTaskResumeFromISR(TaskHandle_t t);
void vTaskSuspendAll(void);
BaseType_t xTaskResumeAll(void);
eTaskState eTaskGetState(TaskHandle_t t);
TaskHandle_t xTaskGetCurrentTaskHandle(void);
BaseType_t xTaskGetSchedulerState(void);
TickType_t xTaskGetTickCount(void);
TickType_t xTaskGetTickCountFromISR(void);
UBaseType_t uxTaskPriorityGet(TaskHandle_t t);
uint32_t ulTaskNotifyTake(BaseType_t clear, TickType_t ticks);
BaseType_t xTaskNotify(TaskHandle_t t, uint32_t v, eNotifyAction a);
BaseType_t xTaskNotifyFromISR(TaskHandle_t t, uint32_t v, eNotifyAction a, BaseType_t* woken);
BaseType_t xTaskNotifyGive(TaskHandle_t t);
void vTaskNotifyGiveFromISR(TaskHandle_t t, BaseType_t* woken);
BaseType_t xTaskNotifyWait(uint32_t clearEntry, uint32_t clearExit, uint32_t* value, TickType_t ticks);
BaseType_t xTaskNotifyStateClear(TaskHandle_t t);
void vRtosEnterCritical(void);
void vRtosExitCritical(void);
UBaseType_t uxRtosEnterCriticalFromISR(void);
void vRtosExitCriticalFromISR(UBaseType_t s);
void vRtosYield(void);
}
#define taskENTER_CRITICAL() vRtosEnterCritical()
#define taskEXIT_CRITICAL() vRtosExitCritical()
#define taskENTER_CRITICAL_FROM_ISR() uxRtosEnterCriticalFromISR()
#define taskEXIT_CRITICAL_FROM_ISR(x) vRtosExitCriticalFromISR(x)
#define portENTER_CRITICAL() vRtosEnterCritical()
#define portEXIT_CRITICAL() vRtosExitCritical()
#define portSET_INTERRUPT_MASK_FROM_ISR() uxRtosEnterCriticalFromISR()
#define portCLEAR_INTERRUPT_MASK_FROM_ISR(x) vRtosExitCriticalFromISR(x)
#define taskDISABLE_INTERRUPTS() vRtosEnterCritical()
#define taskENABLE_INTERRUPTS() vRtosExitCritical()
#define taskYIELD() vRtosYield()
#define portYIELD() vRtosYield()
#endif
