#pragma once
#include "esp_err.h"
typedef enum { ADC_UNIT_1, ADC_UNIT_2 } adc_unit_t;
typedef enum { ADC_CHANNEL_0, ADC_CHANNEL_1, ADC_CHANNEL_2, ADC_CHANNEL_3, ADC_CHANNEL_4, ADC_CHANNEL_5, ADC_CHANNEL_6, ADC_CHANNEL_7, ADC_CHANNEL_8, ADC_CHANNEL_9 } adc_channel_t;
typedef enum { ADC_RTC_CLK_SRC_DEFAULT = 3 } adc_oneshot_clk_src_t;
typedef enum { ADC_ULP_MODE_DISABLE = 0 } adc_ulp_mode_t;
typedef enum { ADC_ATTEN_DB_0, ADC_ATTEN_DB_2_5, ADC_ATTEN_DB_6, ADC_ATTEN_DB_12 } adc_atten_t;
typedef enum { ADC_BITWIDTH_DEFAULT = 0, ADC_BITWIDTH_9 = 9, ADC_BITWIDTH_12 = 12 } adc_bitwidth_t;
struct adc_oneshot_unit_ctx_t;
typedef adc_oneshot_unit_ctx_t* adc_oneshot_unit_handle_t;
struct adc_oneshot_unit_init_cfg_t { adc_unit_t unit_id; adc_oneshot_clk_src_t clk_src; adc_ulp_mode_t ulp_mode; };
struct adc_oneshot_chan_cfg_t { adc_atten_t atten; adc_bitwidth_t bitwidth; };
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t*, adc_oneshot_unit_handle_t*);
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t, adc_channel_t, const adc_oneshot_chan_cfg_t*);
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t, adc_channel_t, int*);
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t);
