#include "gfx.h"
using namespace embedded::fonts;
// glyphs and text
#ifndef VP_ROT
#define VP_ROT 0
#endif
#ifndef VP_GW
#define VP_GW 3
#define VP_GH 3
#endif
#ifndef VP_AT
#define VP_AT 0
#define VP_TEXT 'A'
#endif
#ifndef VP_WHERE
#define VP_WHERE 1
#endif
static const int MID = 1 << 20;
inline int some() { return (int)vp_range(0, MID); }
uint8_t vp_gs_hit;
// the frame buffer with one pixel that is watched
struct Watch : FrameBufferBase
{
    int w, h, x, y;
    Watch(int px, int py) : w(px + 1 + some()), h(py + 1 + some()), x(px), y(py) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    BytesView getImage() override { return {}; }
    ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int px, int py) override
    {
        vp_prove(px >= 0 && px < w && py >= 0 && py < h, "pixel-inside");
        if (px == x && py == y) vp_gs_hit = 1;
    }
    // its place in the coordinates of the rotated canvas
    int X() const { return VP_ROT == 0 ? x : VP_ROT == 1 ? y : VP_ROT == 2 ? w - 1 - x : h - 1 - y; }
    int Y() const { return VP_ROT == 0 ? y : VP_ROT == 1 ? w - 1 - x : VP_ROT == 2 ? h - 1 - y : x; }
};
static const size_t GLYPH = (VP_GW * VP_GH + 7) / 8;
// a font with one glyph of the given size, any offset and advance, any bitmap
inline GlyphDescriptor* one(uint8_t* bits)
{
    auto g = (GlyphDescriptor*)vp_alloc(sizeof(GlyphDescriptor));
    g->bitmapOffset = 0;
    g->size = { VP_GW, VP_GH };
    g->shift = vp_u8();
    g->offset = { vp_i8(), vp_i8() };
    return g;
}
extern "C" void drv_glyph()
{
    uint8_t* bits = (uint8_t*)vp_alloc(GLYPH);
    GlyphDescriptor* g = one(bits);
    const int dx = g->offset.width, dy = g->offset.height;
    FontDescriptor d;
    d.bitmap = ConstBytesView(bits, GLYPH);
    d.glyph = MemoryView<const GlyphDescriptor>(g, 1);
    d.first = d.last = 'A';
    EmbeddedFont font(d);
    Watch f(some(), some());
    Canvas c(f);
    c.setRotation(rotation(VP_ROT));
    vp_gs_hit = 0;
#if VP_WHERE == 0
    const int i = VP_I, j = VP_J;
    // the other bits of its byte have the opposite value, the other bytes any
    const uint8_t mask = 0x80 >> (i + j * VP_GW) % 8;
    bits[(i + j * VP_GW) / 8] = VP_SET ? mask : ~mask;
    const int advance = c.drawCharAt({ f.X() - i - dx, f.Y() - j - dy }, 'A', font);
    vp_assert((vp_gs_hit == 1) == (VP_SET == 1), "glyph-pixel");
#else
    const int far = 1 + some(), any = vp_int(-2 * MID, 2 * MID);
    const int advance = c.drawCharAt({ VP_WHERE == 1 ? f.X() + far - dx : VP_WHERE == 2 ? f.X() - (VP_GW - 1) - far - dx : any,
                                       VP_WHERE == 3 ? f.Y() + far - dy : VP_WHERE == 4 ? f.Y() - (VP_GH - 1) - far - dy : any }, 'A', font);
    vp_assert(vp_gs_hit == 0, "outside-glyph");
#endif
    vp_reach("glyph");
    vp_assert(advance == g->shift, "advance");
}
// text: each glyph starts where the one before ends
extern "C" void drv_text()
{
    uint8_t* bits = (uint8_t*)vp_alloc(3);
    bits[0] = bits[1] = bits[2] = 0x80;
    auto g = (GlyphDescriptor*)vp_alloc(3 * sizeof(GlyphDescriptor));
    for (int k = 0; k < 3; ++k)
    {
        g[k].bitmapOffset = k;
        g[k].size = { 1, 1 };
        g[k].shift = vp_u8();
        g[k].offset = { vp_i8(), vp_i8() };
    }
    FontDescriptor d;
    d.bitmap = ConstBytesView(bits, 3);
    d.glyph = MemoryView<const GlyphDescriptor>(g, 3);
    d.first = 'A';
    d.last = 'C';
    EmbeddedFont font(d);
    Watch f(some(), some());
    Canvas c(f);
    c.setRotation(rotation(VP_ROT));
    vp_gs_hit = 0;
    static const char text[] = { VP_TEXT };
    int before = 0;
    for (int k = 0; k < VP_AT; ++k) before += g[text[k] - 'A'].shift;
    const auto& at = g[text[VP_AT] - 'A'];
    c.drawStringAt({ f.X() - before - at.offset.width, f.Y() - at.offset.height }, std::string_view(text, sizeof(text)), font);
    vp_reach("text");
    vp_assert(vp_gs_hit == 1, "text-place");
}
