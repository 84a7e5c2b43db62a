extern "C" void drv_levels()
{
    GpioPinDefinition def{PIN};
    pin = def.pin;
    const GpioDigitalPin p(def);
    switch (vp_choose(5))
    {
    case 0: p.set(); vp_assert(vp_gs_level == 1, "set"); break;
    case 1: p.reset(); vp_assert(vp_gs_level == 0, "reset"); break;
    case 2: p.set(true); vp_assert(vp_gs_level == 1, "set-true"); break;
    case 3: p.set(false); vp_assert(vp_gs_level == 0, "set-false"); break;
    case 4:
        sensed = vp_choose(3) - 1;
        vp_assert(p.check() == (sensed != 0), "check");
        vp_assert(!vp_gs_writes, "level-untouched");
        break;
    }
    vp_reach("levels");
}
extern "C" void drv_select()
{
    GpioPinDefinition def{PIN};
    pin = def.pin;
    const GpioDigitalPin p(def);
    for (int i = 0; i < 2; ++i)
    {
        {
            ChipSelector selected(p);
            vp_assert(vp_gs_level == 0, "selected");
            vp_gs_writes = 0;
            vp_reach("selected");
        }
        vp_assert(vp_gs_level == 1, "released");
    }
}
