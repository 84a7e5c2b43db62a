#include "vp.h"
#include "SpiDevice.h"
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include <driver/spi_master.h>
// The SPI driver of ESP-IDF: bus and device are claimed and given back; the byte number 'mark' of a transfer is followed.
using namespace embedded;
#ifndef VP_MODE
#define VP_MODE 2
#endif
namespace embedded { struct GpioPinDefinition; }
uint8_t vp_gs_bus, vp_gs_device, vp_gs_failed, vp_gs_seen;
static const int HOST = 1;
static size_t moved, mark, whole;
static uint8_t sendByte, answer;
static uint32_t most;
static spi_device_t* claimed;
struct spi_device_t { int x; };
static spi_device_t theDevice;
static int pins[3];
static bool half;
esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* c, spi_dma_chan_t)
{
    vp_assert(host == HOST, "host");
    vp_assert(c->sclk_io_num == pins[0] && c->miso_io_num == pins[1] && c->mosi_io_num == pins[2], "pins");
    vp_assert(c->max_transfer_sz > 0, "transfer-size");
    if (vp_gs_bus || vp_bool()) return 0x103;
    vp_gs_bus = 1;
    most = c->max_transfer_sz;
    return ESP_OK;
}
esp_err_t spi_bus_free(spi_host_device_t host)
{
    vp_assert(host == HOST, "host");
    vp_assert(vp_gs_bus, "bus-claimed");
    vp_assert(!vp_gs_device, "device-left-on-bus");
    vp_gs_bus = 0;
    return ESP_OK;
}
esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* c, spi_device_handle_t* h)
{
    vp_assert(host == HOST, "host");
    vp_assert(vp_gs_bus, "bus-claimed");
    vp_assert(((c->flags & SPI_DEVICE_HALFDUPLEX) != 0) == half, "duplex");
    if (vp_bool()) return 0x101;
    vp_assert(!vp_gs_device, "device-claimed-twice");
    vp_gs_device = 1;
    *h = &theDevice;
    return ESP_OK;
}
esp_err_t spi_bus_remove_device(spi_device_handle_t h)
{
    vp_assert(vp_gs_device && h == &theDevice, "device-claimed");
    vp_gs_device = 0;
    return ESP_OK;
}
esp_err_t spi_device_polling_transmit(spi_device_handle_t h, spi_transaction_t* t)
{
    vp_assert(h == &theDevice && vp_gs_device, "device-claimed");
    vp_assert(!vp_gs_failed, "goes-on-after-failure");
    if (vp_bool()) { vp_gs_failed = 1; return 0x101; }
#if VP_MODE != 3
    vp_assert(t->flags == 0, "flags");
    size_t n = VP_MODE == 1 ? t->rxlength / 8 : t->length / 8;
    vp_assert((VP_MODE == 1 ? t->rxlength : t->length) == 8 * n, "whole-bytes");
    vp_assert(VP_MODE != 2 || t->rxlength == 0 || t->rxlength == 8 * n, "both-lengths");
    vp_assert(n > 0 && n <= most, "chunk");
    vp_assert(n <= whole - moved, "length");
    if (VP_MODE != 1)
    {
        const uint8_t* in = (const uint8_t*)t->tx_buffer;
        vp_touch(in, n);
        if (mark >= moved && mark < moved + n) vp_assert(in[mark - moved] == sendByte, "sent-byte");
    }
    else vp_assert(t->tx_buffer == nullptr, "nothing-sent");
    if (VP_MODE != 0)
    {
        uint8_t* out = (uint8_t*)t->rx_buffer;
        vp_havoc(out, n);
        if (mark >= moved && mark < moved + n) out[mark - moved] = answer;
    }
    else vp_assert(t->rx_buffer == nullptr, "nothing-received");
    if (mark >= moved && mark < moved + n) vp_gs_seen = 1;
    moved += n;
#endif
    return ESP_OK;
}
esp_err_t spi_device_transmit(spi_device_handle_t h, spi_transaction_t* t) { return spi_device_polling_transmit(h, t); }
#if VP_MODE == 3
#define HALF vp_choose(2)
#else
#define HALF VP_MODE != 2
#endif
#define PINS \
    GpioPinDefinition sck{vp_u8()}, miso{vp_u8()}, mosi{vp_u8()}; \
    pins[0] = sck.pin; pins[1] = miso.pin; pins[2] = mosi.pin; \
    half = HALF
extern "C" void drv()
{
    PINS;
    SpiBus bus(HOST);

    vp_assume(bus.init(sck, miso, mosi, vp_u32(), half ? SpiBus::DuplexMode::Half : SpiBus::DuplexMode::Full));
    SpiDevice device(bus);
    const size_t size = vp_u16();
    const uint8_t kth = vp_u8(), got = vp_u8();
    const size_t k = vp_range(0, 65534);
    uint8_t* tx = (uint8_t*)vp_alloc(size);
    uint8_t* rx = (uint8_t*)vp_alloc(size);
#ifdef VP_BYTES
    vp_assume(k < size);
    vp_watch(tx + k);
    vp_watch(rx + k);
    tx[k] = kth;
#else
    vp_assume(k >= size);
#endif
    vp_freeze(tx);
    mark = k;
    sendByte = kth;
    answer = got;
    whole = size;
#if VP_MODE == 0
    const bool ok = device.sendSync(tx, size, vp_u32());
#elif VP_MODE == 1
    const bool ok = device.receiveSync(rx, size, vp_u32());
#else
    const bool ok = device.sendAndReceive(tx, rx, size, vp_u32());
#endif
    vp_prove(mark == k && sendByte == kth && answer == got, "environment");   // (keeps these values known)
    if (ok)
    {
        vp_reach("moved");
        vp_assert(!vp_gs_failed, "failure-reported");
        vp_assert(moved == size, "whole-length");
#ifdef VP_BYTES
        if (VP_MODE) vp_assert(rx[k] == got, "received-byte");
#endif
    }
    else
    {
        vp_reach("refused");
        vp_assert(vp_gs_failed, "success-reported");
    }
}
// any history of claiming and giving back
extern "C" void drv_life()
{
    PINS;
    {
        SpiBus bus(HOST);
        while (vp_bool())
        {
            if (vp_bool())
            {
                const bool before = vp_gs_device;
                const bool ok = bus.init(sck, miso, mosi, vp_u32(), half ? SpiBus::DuplexMode::Half : SpiBus::DuplexMode::Full);
                if (ok) vp_assert(vp_gs_bus && vp_gs_device, "ready");
                else vp_assert(vp_gs_bus == before && vp_gs_device == before, "failed-init-leaves-nothing");
            }
            else
            {
                const bool ok = bus.release();
                vp_reach("released");
                vp_assert(ok, "release-reported");
                vp_assert(!vp_gs_bus && !vp_gs_device, "released");
            }
        }
    }
    vp_reach("gone");
    vp_assert(!vp_gs_bus && !vp_gs_device, "all-given-back");
}
