#include "gfx.h"
#include "graphics/SimpleFrameBuffer.h"
// the packed frame buffer: one pixel is read back before and after an operation at an arbitrary place
#ifndef VP_W
#define VP_W 24
#define VP_H 5
#endif
using Buffer = SimpleFrameBuffer<VP_W, VP_H, VP_D>;
static const uint32_t MASK = 0xFFFFFFFFu >> (32 - VP_D);
static const int PER = VP_D < 8 ? 8 / VP_D : 1;        // pixels per byte
static const size_t BYTES = (size_t)VP_W * VP_H * VP_D / 8;
// the pixel as a display reads it: rows of pixels, most significant bit first
inline uint32_t pixel(const uint8_t* image, int x, int y)
{
    size_t bit = ((size_t)y * VP_W + x) * VP_D;
    if (VP_D < 8) return (image[bit / 8] >> (8 - VP_D - bit % 8)) & MASK;
    uint32_t v = 0;
    for (int i = 0; i < VP_D / 8; ++i) v = v << 8 | image[bit / 8 + i];
    return v;
}
inline Buffer* make()
{
    Buffer* b = (Buffer*)vp_alloc(sizeof(Buffer));
    return new (b) Buffer;
}
// the pixel that is drawn
extern "C" void drv()
{
    Buffer* b = make();
    FrameBufferBase& base = *b;
    vp_assert(base.getWidth() == VP_W && base.getHeight() == VP_H, "size");
    vp_assert(base.getImage().size() == BYTES, "image-size");
    const FrameBufferBase& c = base;
    vp_assert(c.getImage().begin() == base.getImage().begin() && c.getImage().size() == BYTES, "image-const");
    const uint8_t* image = base.getImage().begin();
    vp_assert((const uint8_t*)b <= image && image + BYTES <= (const uint8_t*)(b + 1), "image-own");
    uint32_t color = vp_u32();
    const bool chosen = vp_choose(2);
    if (chosen) base.setColor(color);
    int x = vp_int(0, VP_W - 1), y = vp_int(0, VP_H - 1);
    base.drawPixel(x, y);
    vp_reach("drawn");
    vp_assert(pixel(image, x, y) == (chosen ? color & MASK : MASK), "colour");
}
// any other pixel: VP_SIDE says where it is
extern "C" void drv_other()
{
    Buffer* b = make();
    FrameBufferBase& base = *b;
    const uint8_t* image = base.getImage().begin();
    base.setColor(vp_u32());
    int x = vp_int(0, VP_W - 1), y = vp_int(0, VP_H - 1), x2 = vp_int(0, VP_W - 1), y2 = vp_int(0, VP_H - 1);
#if VP_SIDE == 0
    vp_assume(y2 == y && x2 / PER < x / PER);
#elif VP_SIDE == 1
    vp_assume(y2 == y && x2 / PER > x / PER);
#elif VP_SIDE == 4      // in the same byte
    vp_assume(y2 == y && x2 / PER == x / PER && x2 < x);
#elif VP_SIDE == 5
    vp_assume(y2 == y && x2 / PER == x / PER && x2 > x);
#elif VP_SIDE == 2
    vp_assume(y2 < y);
#else
    vp_assume(y2 > y);
#endif
    uint32_t before = pixel(image, x2, y2);
    base.drawPixel(x, y);
    vp_reach("other");
    vp_assert(pixel(image, x2, y2) == before, "others-kept");
}
// the colour stays selected
extern "C" void drv_keep()
{
    Buffer* b = make();
    FrameBufferBase& base = *b;
    const uint8_t* image = base.getImage().begin();
    uint32_t color = vp_u32();
    base.setColor(color);
    base.drawPixel(vp_int(0, VP_W - 1), vp_int(0, VP_H - 1));
    int x = vp_int(0, VP_W - 1), y = vp_int(0, VP_H - 1);
    base.drawPixel(x, y);
    vp_reach("kept");
    vp_assert(pixel(image, x, y) == (color & MASK), "colour-kept");
}
// clearing: every pixel, every colour
extern "C" void drv_clear()
{
    Buffer* b = make();
    FrameBufferBase& base = *b;
    const uint8_t* image = base.getImage().begin();
    // (one bit per pixel: whether colour 2 is drawn as 0 or as 1 is left open)
    uint32_t color = vp_u32() & MASK, given = VP_D == 1 ? vp_u32() & MASK : vp_u32(), paper = given & MASK;
    base.setColor(color);
    base.clear(given);
    vp_reach("cleared");
    for (int y = 0; y < VP_H; ++y)
        for (int x = 0; x < VP_W; ++x)
            vp_assert(pixel(image, x, y) == paper, "cleared");
    base.drawPixel(VP_W - 1, VP_H - 1);
    vp_assert(pixel(image, VP_W - 1, VP_H - 1) == color, "colour-after-clear");
}
// clearing ends, inside the buffer
extern "C" void drv_clear_any()
{
    Buffer* b = make();
    FrameBufferBase& base = *b;
    base.clear(vp_u32());
    vp_reach("cleared");
}
