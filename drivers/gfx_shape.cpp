#include "gfx.h"
// one pixel of the canvas is watched: after drawing a shape it is painted exactly if it belongs to the shape
#ifndef VP_ROT
#define VP_ROT 0
#endif
static const int MID = 1 << 20;
// ghost state, kept apart by the analysis: painted yet; where the last pixel before that was
uint8_t vp_gs_hit, vp_gs_last;
struct Watch : FrameBufferBase
{
    int w, h, x, y;
    Watch(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    BytesView getImage() override { return {}; }
    ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int px, int py) override
    {
#if VP_WHERE >= 1 && VP_WHERE <= 4
        if (px == x && py == y) vp_gs_hit = 1;
#else
        if (vp_gs_hit) return;
#if VP_WHERE >= 5 && VP_WHERE <= 8
        // only the row or column of the watched edge matters
        if ((VP_WHERE <= 6) != (VP_ROT & 1) ? px != x : py != y) return;
#endif
        if (py < y) vp_gs_last = 1;
        else if (py > y) vp_gs_last = 2;
        else if (px < x) vp_gs_last = 3;
        else if (px > x) vp_gs_last = 4;
        else { vp_gs_last = 0; vp_gs_hit = 1; }
#endif
    }
};
inline int some() { return (int)vp_range(0, MID); }
extern "C" void drv()
{
    // a canvas of any size around the watched pixel
    int px = some(), py = some();
    Watch f(px + 1 + some(), py + 1 + some());
    f.x = px;
    f.y = py;
    Canvas c(f);
    c.setRotation(rotation(VP_ROT));
    const bool turned = VP_ROT & 1;
    vp_assert(c.getSize().width == (turned ? f.h : f.w) && c.getSize().height == (turned ? f.w : f.h), "size");
    // the watched pixel in the coordinates of the rotated canvas
    const int X = VP_ROT == 0 ? px : VP_ROT == 1 ? py : VP_ROT == 2 ? f.w - 1 - px : f.h - 1 - py;
    const int Y = VP_ROT == 0 ? py : VP_ROT == 1 ? f.w - 1 - px : VP_ROT == 2 ? f.h - 1 - py : px;
    vp_gs_hit = 0;
    vp_gs_last = 0;
    // a shape of any size: its corner (x, y) and its size minus one
    int w = VP_OP == 0 || VP_OP == 4 ? 0 : some(), h = VP_OP == 0 || VP_OP == 3 ? 0 : some();
    // VP_WHERE: where the watched pixel is
    int x, y, along = 0;
#if VP_WHERE == 0       // in the shape
    int a = some(), b = some();
    vp_assume(a <= w && b <= h);
    x = X - a, y = Y - b;
#elif VP_WHERE == 1     // beside, above or below it
    x = X + 1 + some(), y = vp_int(-2 * MID, 2 * MID);
#elif VP_WHERE == 2
    x = X - w - 1 - some(), y = vp_int(-2 * MID, 2 * MID);
#elif VP_WHERE == 3
    x = vp_int(-2 * MID, 2 * MID), y = Y + 1 + some();
#elif VP_WHERE == 4
    x = vp_int(-2 * MID, 2 * MID), y = Y - h - 1 - some();
#elif VP_WHERE == 5 || VP_WHERE == 6    // on one of the edges
    int b = some();
    vp_assume(b <= h);
    along = b;
    x = VP_WHERE == 5 ? X : X - w, y = Y - b;
#elif VP_WHERE == 7 || VP_WHERE == 8
    int a = some();
    vp_assume(a <= w);
    along = a;
    x = X - a, y = VP_WHERE == 7 ? Y : Y - h;
#elif VP_WHERE == 9     // strictly between the edges
    int a = some(), b = some();
    w = a + 2 + some(), h = b + 2 + some();
    x = X - a - 1, y = Y - b - 1;
#endif
#if VP_OP == 0
    c.drawPixel({ x, y });
#elif VP_OP == 1
    c.drawFilledRectangle({ { x, y }, { w + 1, h + 1 } });
#elif VP_OP == 2
    c.drawRectangle({ { x, y }, { w + 1, h + 1 } });
#elif VP_OP <= 4
    if (VP_BACK) c.drawLine({ x + w, y + h }, { x, y });
    else c.drawLine({ x, y }, { x + w, y + h });
#endif
    if (VP_WHERE == 0 || (VP_WHERE >= 5 && VP_WHERE <= 8))
    {
        vp_reach("inside");
        vp_prove(along >= 0 && along <= (VP_WHERE <= 6 ? h : w), "along");     // keeps them in the analysis
        vp_assert(vp_gs_hit == 1, "painted");
    }
    else
    {
        vp_reach("outside");
        vp_assert(vp_gs_hit == 0, "not-painted");
    }
}
