#pragma once
#include "esp_err.h"
#include "hal/uart_types.h"
#include "freertos/portmacro.h"
struct uart_config_t
{
    int baud_rate;
    uart_word_length_t data_bits;
    uart_parity_t parity;
    uart_stop_bits_t stop_bits;
    uart_hw_flowcontrol_t flow_ctrl;
    uint8_t rx_flow_ctrl_thresh;
    uart_sclk_t source_clk;
    struct { uint32_t backup_before_sleep : 1; } flags;
};
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
#define ESP_INTR_FLAG_IRAM (1 << 10)
bool uart_is_driver_installed(uart_port_t);
esp_err_t uart_param_config(uart_port_t, const uart_config_t*);
esp_err_t uart_set_pin(uart_port_t, int tx, int rx, int rts, int cts);
esp_err_t uart_driver_install(uart_port_t, int rx, int tx, int queue, void*, int flags);
esp_err_t uart_driver_delete(uart_port_t);
int uart_write_bytes(uart_port_t, const void*, size_t);
esp_err_t uart_wait_tx_done(uart_port_t, TickType_t);
int uart_read_bytes(uart_port_t, void*, uint32_t, TickType_t);
esp_err_t uart_flush(uart_port_t);
esp_err_t uart_flush_input(uart_port_t);
esp_err_t uart_get_buffered_data_len(uart_port_t, size_t*);
