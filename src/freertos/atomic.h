#ifndef ATOMIC_H
#define ATOMIC_H
#include "FreeRTOS.h"
#include "task.h"
#define ATOMIC_COMPARE_AND_SWAP_SUCCESS 0x1U
#define ATOMIC_COMPARE_AND_SWAP_FAILURE 0x0U
static inline uint32_t Atomic_CompareAndSwap_u32(uint32_t volatile* dest, uint32_t exchange, uint32_t comparand) {
    uint32_t r = ATOMIC_COMPARE_AND_SWAP_FAILURE;
    vRtosEnterCritical();
    if (*dest == comparand) { *dest = exchange; r = ATOMIC_COMPARE_AND_SWAP_SUCCESS; }
    vRtosExitCritical();
    return r;
}
#endif
