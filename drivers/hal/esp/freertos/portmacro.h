#pragma once
#include <cstdint>
typedef uint32_t TickType_t;
#ifndef VP_TICK_MS
#define VP_TICK_MS 10
#endif
#define portTICK_PERIOD_MS ((TickType_t)VP_TICK_MS)
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define configTICK_RATE_HZ (1000 / VP_TICK_MS)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000))
#define pdTICKS_TO_MS(t) ((TickType_t)(((uint64_t)(t) * 1000) / configTICK_RATE_HZ))
