#include "gfx.h"
using namespace embedded::fonts;
using GFXfont = FontDescriptor;
using GFXglyph = GlyphDescriptor;
#ifndef VP_FROM
#define VP_FROM 0
#endif
#ifndef VP_TABLE
#ifndef PROGMEM
#define PROGMEM
#endif
#include "graphics/GFXFonts/FreeSans15pt7b.h"
// the shipped font, every character code: its own glyph or the first one, and all of the glyph's bits inside the bitmap
extern "C" void drv()
{
    EmbeddedFont font(FreeSans15pt7b);
    const size_t n = sizeof(FreeSans15pt7bGlyphs) / sizeof(GFXglyph);
    vp_assert(n == '~' - ' ' + 1, "font-complete");
    for (unsigned code = VP_FROM; code < VP_FROM + 64; ++code)
    {
    const auto b = font.getBitmap((char)code);
    const size_t k = code >= ' ' && code <= '~' ? code - ' ' : 0;
    const auto& g = FreeSans15pt7bGlyphs[k];
    vp_reach("lookup");
    vp_assert(b.bitmap.begin() == FreeSans15pt7bBitmaps + g.bitmapOffset, "glyph-start");
    vp_assert(b.effectiveSize.width == g.size.width && b.effectiveSize.height == g.size.height, "glyph-size");
    vp_assert(b.offset.width == g.offset.width && b.offset.height == g.offset.height && b.width == g.shift, "glyph-metrics");
    const size_t need = (g.size.width * g.size.height + 7) / 8;
    vp_assert(b.bitmap.size() == need, "glyph-tight");
    vp_assert(g.bitmapOffset + b.bitmap.size() <= sizeof(FreeSans15pt7bBitmaps), "glyph-inside");
    }
}
#else
// a font made of any glyphs: VP_TABLE glyphs from code VP_FIRST on
extern "C" void drv()
{
    for (unsigned code = VP_FROM; code < VP_FROM + 64; ++code)
    {
    const size_t n = VP_TABLE, total = vp_range(0, 65535);
    auto bits = (const uint8_t*)vp_alloc(total);
    auto g = (GlyphDescriptor*)vp_alloc(n * sizeof(GlyphDescriptor));
    FontDescriptor d;
    d.bitmap = ConstBytesView(bits, total);
    d.glyph = MemoryView<const GlyphDescriptor>(g, n);
    d.first = VP_FIRST;
    d.last = VP_LAST;
    EmbeddedFont font(d);
    // the glyph that belongs to the code; there are none between '~' and 0xA0
    size_t k = 0;
    if (code >= VP_FIRST && code <= VP_LAST && !(code > '~' && code < 0xA0)) k = code - VP_FIRST - (VP_FIRST <= '~' && code >= 0xA0 ? 0xA0 - 0x7F : 0);
    if (k >= n) k = 0;
    const size_t from = vp_range(0, 65535), to = k + 1 < n ? vp_range(0, 65535) : total;
    vp_assume(from <= to && to <= total);
    g[k].bitmapOffset = (uint16_t)from;
    if (k + 1 < n) g[k + 1].bitmapOffset = (uint16_t)to;
    const uint8_t w = g[k].size.width = vp_u8(), h = g[k].size.height = vp_u8(), s = g[k].shift = vp_u8();
    const int8_t x = g[k].offset.width = vp_i8(), y = g[k].offset.height = vp_i8();
    const auto b = font.getBitmap((char)code);
    vp_reach("lookup");
    vp_assert(b.bitmap.begin() == bits + from && b.bitmap.size() == to - from, "glyph-bitmap");
    vp_assert(b.effectiveSize.width == w && b.effectiveSize.height == h, "glyph-size");
    vp_assert(b.offset.width == x && b.offset.height == y && b.width == s, "glyph-metrics");
    }
}
#endif
#ifndef VP_AT
#define VP_AT 0
#endif
#ifndef VP_DRAW
#define VP_DRAW 0
#endif
#ifndef VP_TEXT
#define VP_TEXT 'A'
#endif
// text whose first glyph is drawn at the origin given by the text bounds stays inside the size that they give
// (glyph placement itself: gfx_glyph.cpp)
extern "C" void drv_bounds()
{
    const size_t n = 3;
    auto bits = (const uint8_t*)vp_alloc(30000);
    auto g = (GlyphDescriptor*)vp_alloc(n * sizeof(GlyphDescriptor));
    for (size_t k = 0; k < n; ++k)
    {
        g[k].bitmapOffset = (uint16_t)(k * 10000);
        g[k].size = { vp_u8(), vp_u8() };
        g[k].shift = vp_u8();
        g[k].offset = { vp_i8(), vp_i8() };
    }
    FontDescriptor d;
    d.bitmap = ConstBytesView(bits, 30000);
    d.glyph = MemoryView<const GlyphDescriptor>(g, n);
    d.first = 'A';
    d.last = 'C';
    EmbeddedFont font(d);
    static const char text[] = { VP_TEXT };
    const auto r = font.getTextBounds(std::string_view(text, sizeof(text)));
    vp_reach("bounds");
    int x = r.topLeft.x, y = r.topLeft.y;
    for (size_t i = 0; i < VP_AT; ++i) x += g[text[i] - 'A'].shift;
    const auto& at = g[text[VP_AT] - 'A'];
    x += at.offset.width, y += at.offset.height;
    vp_assert(x >= 0, "left");
    vp_assert(x + at.size.width <= r.size.width, "right");
    vp_assert(y >= 0, "top");
    vp_assert(y + at.size.height <= r.size.height, "bottom");
}
extern "C" void drv_empty()
{
    FontDescriptor d;
    EmbeddedFont font(d);
    const auto r = font.getTextBounds({});
    vp_reach("empty");
    vp_assert(r.topLeft.x == 0 && r.topLeft.y == 0 && r.size.width == 0 && r.size.height == 0, "empty-bounds");
}
// a font without glyphs
extern "C" void drv_none()
{
    FontDescriptor d;
    d.first = vp_u8();
    d.last = vp_u8();
    EmbeddedFont font(d);
    const auto b = font.getBitmap((char)vp_u8());
    vp_reach("none");
    vp_assert(b.bitmap.size() == 0 && b.effectiveSize.width == 0 && b.effectiveSize.height == 0 && b.width == 0, "none");
}
// a glyph of any size anywhere on a canvas; the bounds of a text of any length
extern "C" void drv_any()
{
    const size_t n = 1;
    auto bits = (const uint8_t*)vp_alloc(30000);
    auto g = (GlyphDescriptor*)vp_alloc(n * sizeof(GlyphDescriptor));
    g->bitmapOffset = 0;
    g->size = { vp_u8(), vp_u8() };
    g->shift = vp_u8();
    g->offset = { vp_i8(), vp_i8() };
    FontDescriptor d;
    d.bitmap = ConstBytesView(bits, 30000);
    d.glyph = MemoryView<const GlyphDescriptor>(g, n);
    d.first = d.last = 'A';
    EmbeddedFont font(d);
#if VP_DRAW
    Frame f(vp_int(0, BIG), vp_int(0, BIG));
    Canvas c(f);
    c.setRotation(rotation(VP_DRAW - 1));
    c.drawCharAt({ coord(), coord() }, 'A', font);
#else
    const size_t len = vp_range(0, 1 << 20);
    font.getTextBounds(std::string_view((const char*)vp_alloc(len), len));
#endif
    vp_reach("any");
}
