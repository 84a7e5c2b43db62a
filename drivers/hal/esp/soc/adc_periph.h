#pragma once
#include <cstdint>
#define SOC_GPIO_PIN_COUNT 40
#define SOC_ADC_PERIPH_NUM 2
#define SOC_ADC_MAX_CHANNEL_NUM 10
extern const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM];
void adc_power_acquire();
void adc_power_release();
