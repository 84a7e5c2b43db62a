#pragma once
#include <cstdint>
int64_t esp_timer_get_time();
