// The part of ESP-IDF that the library uses: declarations only, the drivers give them their meaning.
#pragma once
#include <cstddef>
#include <cstdint>
typedef int esp_err_t;
#define ESP_OK 0
#define ESP_FAIL -1
#define ESP_ERR_NO_MEM 0x101
#define ESP_ERR_INVALID_ARG 0x102
#define ESP_ERR_INVALID_STATE 0x103
#define ESP_ERR_INVALID_SIZE 0x104
#define ESP_ERR_NOT_FOUND 0x105
#define ESP_ERR_NOT_SUPPORTED 0x106
#define ESP_ERR_TIMEOUT 0x107
extern "C" void vp_esp_abort();
#define ESP_ERROR_CHECK(x) do { if ((x) != ESP_OK) vp_esp_abort(); } while (0)
