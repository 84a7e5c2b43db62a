#pragma once
#include "vp.h"
#include <cstdlib>
#include <algorithm>
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"
using namespace embedded;
static const int BIG = 1 << 24;
inline int vp_int(int lo, int hi) { return lo + (int)vp_range(0, (size_t)((long)hi - lo)); }
inline int coord() { return vp_int(-BIG, BIG); }
// the frame buffer as the drawing code sees it: any size, each pixel request is checked
struct Frame : FrameBufferBase
{
    int w, h;
    Frame(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    BytesView getImage() override { return {}; }
    ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int x, int y) override
    {
        vp_reach("pixel");
        vp_prove(x >= 0 && x < w && y >= 0 && y < h, "pixel-inside");
    }
};
inline Canvas::Rotation rotation(unsigned i)
{
    return i == 0 ? Canvas::Rotation::Rotation0 : i == 1 ? Canvas::Rotation::Rotation90 : i == 2 ? Canvas::Rotation::Rotation180 : Canvas::Rotation::Rotation270;
}
