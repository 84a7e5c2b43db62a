#include "vp.h"
#include "AnalogPin.h"
#include "GpioPinDefinition.h"
#include <soc/adc_periph.h>
#include <esp_adc/adc_oneshot.h>
// The converter driver of ESP-IDF: units are claimed and given back.
using namespace embedded;
extern const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = {{36, 37, 38, 39, 32, 33, 34, 35, -1, -1}, {4, 0, 2, 15, 13, 12, 14, 27, 25, 26}};
struct adc_oneshot_unit_ctx_t { int x; };
static adc_oneshot_unit_ctx_t theUnit;
uint8_t vp_gs_unit, vp_gs_ready, vp_gs_power, vp_gs_read;
static adc_unit_t unit;
static adc_channel_t channel;
static int value, pin;
void adc_power_acquire() { vp_assert(!vp_gs_power, "power-once"); vp_gs_power = 1; }
void adc_power_release() { vp_assert(vp_gs_power, "power-held"); vp_gs_power = 0; }
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* h)
{
    vp_assert(!vp_gs_unit, "unit-claimed-twice");
    if (vp_bool()) return 0x101;
    unit = c->unit_id;
    vp_gs_unit = 1;
    vp_gs_ready = 0;
    *h = &theUnit;
    return ESP_OK;
}
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t c, const adc_oneshot_chan_cfg_t*)
{
    vp_assert(vp_gs_unit && h == &theUnit, "unit-claimed");
    if (vp_bool()) return 0x101;
    channel = c;
    vp_gs_ready = 1;
    return ESP_OK;
}
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t c, int* to)
{
    vp_assert(vp_gs_unit && h == &theUnit, "unit-claimed");
    vp_assert(vp_gs_ready && c == channel, "channel-configured");
    vp_assert(adc_channel_io_map[unit][c] == pin, "channel-of-pin");
    if (vp_bool())
    {
        *to = vp_i32();         // whatever it leaves there
        return 0x107;
    }
    *to = value;
    vp_gs_read = 1;
    return ESP_OK;
}
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h)
{
    vp_assert(vp_gs_unit && h == &theUnit, "unit-claimed");
    vp_gs_unit = 0;
    return ESP_OK;
}
extern "C" void drv()
{
    // every pin number, known and unknown ones
    for (unsigned i = VP_FROM; i < VP_FROM + 32; ++i)
    {
        GpioPinDefinition def{(uint8_t)(i < 64 ? i : i * 2)};
        pin = def.pin;
        bool known = false;
        for (auto& u : adc_channel_io_map) for (int p : u) if (p == pin) known = true;
        AnalogPin analog(def);
        value = vp_range(0, 4095);
        vp_gs_read = 0;
        const int r = analog.singleRead();
        vp_reach("converted");
        vp_assert(!vp_gs_unit, "unit-given-back");
        vp_assert(!vp_gs_power, "power-given-back");
        if (!known) vp_assert(r == -1 && !vp_gs_read, "unknown-pin");
        else vp_assert(r == (vp_gs_read ? value : -1), "value");
    }
}
