#include "gfx.h"
// any drawing call with any arguments on a canvas over a frame buffer of any size
#ifndef VP_ROT
#define VP_ROT vp_choose(4)
#endif
extern "C" void drv()
{
    Frame f(vp_int(0, BIG), vp_int(0, BIG));
    Canvas c(f);
    c.setRotation(rotation(VP_ROT));
    switch (VP_OP)
    {
    case 0: c.drawPixel({ coord(), coord() }); break;
    case 1: c.drawLine({ coord(), coord() }, { coord(), coord() }); break;
    case 2: c.drawRectangle({ { coord(), coord() }, { coord(), coord() } }); break;
    case 3: c.drawFilledRectangle({ { coord(), coord() }, { coord(), coord() } }); break;
    case 4: c.drawCircle({ coord(), coord() }, coord(), false); break;
    case 5: c.drawCircle({ coord(), coord() }, coord(), true); break;
    }
}
