#pragma once
#include "esp_err.h"
typedef enum { SPI1_HOST, SPI2_HOST, SPI3_HOST } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED, SPI_DMA_CH1, SPI_DMA_CH2, SPI_DMA_CH_AUTO } spi_dma_chan_t;
struct spi_bus_config_t
{
    int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num, data4_io_num, data5_io_num, data6_io_num, data7_io_num;
    int max_transfer_sz;
    uint32_t flags;
    int intr_flags;
};
#define SPICOMMON_BUSFLAG_MASTER 1
#define SPICOMMON_BUSFLAG_NATIVE_PINS 0
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
struct spi_device_t;
typedef spi_device_t* spi_device_handle_t;
struct spi_transaction_t;
typedef void (*transaction_cb_t)(spi_transaction_t*);
struct spi_device_interface_config_t
{
    uint8_t command_bits, address_bits, dummy_bits, mode;
    uint16_t duty_cycle_pos, cs_ena_pretrans;
    uint8_t cs_ena_posttrans;
    int clock_speed_hz, input_delay_ns, spics_io_num;
    uint32_t flags;
    int queue_size;
    transaction_cb_t pre_cb, post_cb;
};
struct spi_transaction_t
{
    uint32_t flags;
    uint16_t cmd;
    uint64_t addr;
    size_t length, rxlength;
    void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; };
    union { void* rx_buffer; uint8_t rx_data[4]; };
};
esp_err_t spi_bus_initialize(spi_host_device_t, const spi_bus_config_t*, spi_dma_chan_t);
esp_err_t spi_bus_free(spi_host_device_t);
esp_err_t spi_bus_add_device(spi_host_device_t, const spi_device_interface_config_t*, spi_device_handle_t*);
esp_err_t spi_bus_remove_device(spi_device_handle_t);
esp_err_t spi_device_polling_transmit(spi_device_handle_t, spi_transaction_t*);
esp_err_t spi_device_transmit(spi_device_handle_t, spi_transaction_t*);
