#include "vp.h"
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include <driver/gpio.h>
using namespace embedded;
static int pin, sensed;
int vp_gs_level = -1, vp_gs_writes;
static int result;
uint8_t vp_gs_config;
static gpio_config_t seen;
esp_err_t gpio_set_level(gpio_num_t p, uint32_t l) { vp_assert(p == pin, "own-pin"); vp_gs_level = l; vp_gs_writes = 1; return 0; }
int gpio_get_level(gpio_num_t p) { vp_assert(p == pin, "own-pin"); return sensed; }
esp_err_t gpio_config(const gpio_config_t* c) { vp_gs_config = 1; seen = *c; return result; }
#define PIN vp_u8()
#include "hal_gpio.h"
extern "C" void drv_init()
{
    for (unsigned i = 0; i < 48; ++i)
    {
        GpioPinDefinition def{(uint8_t)i};
        pin = def.pin;
        const GpioDigitalPin p(def);
        const int d = vp_choose(2), m = vp_choose(3);
        result = vp_choose(2) ? 0x102 : 0;
        vp_gs_config = 0;
        const bool ok = p.init(d ? GpioDigitalPin::Direction::Output : GpioDigitalPin::Direction::Input,
               m == 0 ? GpioDigitalPin::PullMode::Up : m == 1 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None);
        vp_reach("init");
        vp_assert(vp_gs_config == (i < 40), "valid-pins");
        vp_assert(ok == (i < 40 && result == 0), "error-reported");
        if (i < 40)
        {
            vp_assert(seen.pin_bit_mask == 1ull << i, "own-pin");
            vp_assert(seen.mode == (d ? GPIO_MODE_OUTPUT : GPIO_MODE_INPUT), "mode");
            vp_assert(seen.pull_up_en == (m == 0 ? 1 : 0) && seen.pull_down_en == (m == 1 ? 1 : 0), "pulls");
        }
        vp_assert(!vp_gs_writes, "level-untouched");
    }
}
