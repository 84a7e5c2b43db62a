#pragma once
#include "portmacro.h"
void vTaskDelay(TickType_t);
TickType_t xTaskGetTickCount();
