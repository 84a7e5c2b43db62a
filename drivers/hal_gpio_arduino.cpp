#include "vp.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#include "GpioPinDefinition.h"
#include <Arduino.h>
using namespace embedded;
static int pin;
int vp_gs_level = -1, vp_gs_writes;
static int mode = -1, sensed;
void digitalWrite(uint8_t p, uint8_t l) { vp_assert(p == pin, "own-pin"); vp_gs_level = l; vp_gs_writes = 1; }
int digitalRead(uint8_t p) { vp_assert(p == pin, "own-pin"); return sensed; }
void pinMode(uint8_t p, uint8_t m) { vp_assert(p == pin, "own-pin"); mode = m; }
uint16_t analogRead(uint8_t p) { vp_assert(p == pin, "own-pin"); return sensed; }
#define PIN vp_u8()
#include "hal_gpio.h"
extern "C" void drv_init()
{
    GpioPinDefinition def{vp_u8()};
    pin = def.pin;
    const GpioDigitalPin p(def);
    const int d = vp_choose(2), m = vp_choose(3);
    p.init(d ? GpioDigitalPin::Direction::Output : GpioDigitalPin::Direction::Input,
           m == 0 ? GpioDigitalPin::PullMode::Up : m == 1 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None);
    vp_reach("init");
    vp_assert(mode == ((d ? OUTPUT : INPUT) | (m == 0 ? PULLUP : m == 1 ? PULLDOWN : 0)), "mode");
    vp_assert(!vp_gs_writes, "level-untouched");
}
extern "C" void drv_analog()
{
    GpioPinDefinition def{vp_u8()};
    pin = def.pin;
    sensed = vp_u16();
    AnalogPin p(def);
    const int r = p.singleRead();
    vp_reach("analog");
    vp_assert(r == sensed, "value");
}
