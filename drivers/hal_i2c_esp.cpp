#include "vp.h"
#include "I2CDevice.h"
#include "I2CBus.h"
#include <driver/i2c.h>
using namespace embedded;
uint8_t vp_gs_link, vp_gs_started, vp_gs_stopped, vp_gs_used;
static int port, sda, scl;
static uint16_t address;
static size_t size;
static uint32_t limit, speed;
static const uint8_t* data;
static esp_err_t result, result2;
static char theLink;
uint8_t vp_gs_queue;   // a command did not fit
static esp_err_t queued() { if (vp_bool()) return 0; vp_gs_queue = 1; return ESP_ERR_NO_MEM; }
i2c_cmd_handle_t i2c_cmd_link_create() { vp_assert(!vp_gs_link, "link-once"); vp_gs_link = 1; return &theLink; }
void i2c_cmd_link_delete(i2c_cmd_handle_t c) { vp_assert(vp_gs_link && c == &theLink, "link-valid"); vp_gs_link = 0; }
esp_err_t i2c_master_start(i2c_cmd_handle_t c) { vp_assert(vp_gs_link && c == &theLink, "link-valid"); vp_gs_started = 1; return queued(); }
esp_err_t i2c_master_stop(i2c_cmd_handle_t c) { vp_assert(vp_gs_link && c == &theLink, "link-valid"); vp_gs_stopped = 1; return queued(); }
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t c, uint8_t v, bool ack)
{
    vp_assert(vp_gs_link && c == &theLink, "link-valid");
    vp_assert(vp_gs_started && !vp_gs_stopped, "between-start-and-stop");
    vp_assert(v == 2 * address && ack, "address-byte");
    return queued();
}
esp_err_t i2c_master_cmd_begin(i2c_port_t p, i2c_cmd_handle_t c, TickType_t)
{
    vp_assert(vp_gs_link && c == &theLink, "link-valid");
    vp_assert(p == port && vp_gs_started && vp_gs_stopped, "whole-command");
    vp_gs_used = 1;
    return result;
}
esp_err_t i2c_master_write_to_device(i2c_port_t p, uint8_t a, const uint8_t* d, size_t n, TickType_t ticks)
{
    vp_assert(p == port && a == address && d == data && n == size, "request");
    vp_assert((uint64_t)ticks * portTICK_PERIOD_MS <= limit, "timeout");
    vp_gs_used = 1;
    return result;
}
esp_err_t i2c_master_read_from_device(i2c_port_t p, uint8_t a, uint8_t* d, size_t n, TickType_t ticks)
{
    vp_assert(p == port && a == address && d == data && n == size, "request");
    vp_assert((uint64_t)ticks * portTICK_PERIOD_MS <= limit, "timeout");
    vp_gs_used = 1;
    return result;
}
esp_err_t i2c_param_config(i2c_port_t p, const i2c_config_t* c)
{
    vp_assert(p == port && c->mode == I2C_MODE_MASTER && c->sda_io_num == sda && c->scl_io_num == scl && c->master.clk_speed == speed, "config");
    return result;
}
esp_err_t i2c_driver_install(i2c_port_t p, i2c_mode_t m, size_t, size_t, int)
{
    vp_assert(p == port && m == I2C_MODE_MASTER, "install");
    vp_gs_used = 1;
    return result2;
}
esp_err_t i2c_driver_delete(i2c_port_t) { return vp_i32(); }
#define SET \
    port = vp_range(0, 1); \
    I2CBus bus(port); \
    address = vp_u8() & 0x7F; \
    limit = vp_u32(); \
    result = VP_FAILS ? vp_i32() : 0; \
    if (VP_FAILS) vp_assume(VP_FAILS == 1 ? result > 0 : result < 0); \
    I2CDevice device(bus, address, limit)
extern "C" void drv_transfer()
{
    SET;
    const uint16_t n = vp_u16();
    uint8_t* buffer = (uint8_t*)vp_alloc(n);
    size = n;
    data = buffer;
    const bool ok = vp_choose(2) ? device.sendSync(buffer, n) : device.receiveSync(buffer, n);
    vp_reach("transferred");
    vp_assert(vp_gs_used, "done");
    vp_assert(ok == !VP_FAILS, "error-reported");
}
extern "C" void drv_test()
{
    SET;
    const bool ok = bus.testAddress((uint8_t)address);
    vp_reach("tested");
    vp_assert(!vp_gs_link, "link-given-back");
    vp_assert(vp_gs_used || vp_gs_queue, "done");
    if (ok) vp_assert(!VP_FAILS, "error-reported");
    else vp_assert(VP_FAILS || vp_gs_queue, "success-reported");
}
extern "C" void drv_init()
{
    SET;
    sda = vp_i32(); scl = vp_i32(); speed = vp_u32();
    result2 = vp_choose(2) ? -1 : 0;
    const bool ok = bus.init(sda, scl, speed, vp_bool(), vp_bool());
    vp_reach("init");
    vp_assert(ok == (!VP_FAILS && result2 == 0), "error-reported");
    if (ok) vp_assert(vp_gs_used, "installed");
}
