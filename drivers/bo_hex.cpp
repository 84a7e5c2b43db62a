#include "bo.h"
// a byte is two upper case hexadecimal digits or nothing
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
#ifdef VP_LOW
    unsigned hi = vp_u8(), lo = vp_choose(16);
#else
    unsigned hi = vp_choose(16), lo = vp_u8();
#endif
    vp_assume(hi < 16 && lo < 16);
    out << (unsigned char)(hi * 16 + lo);
    if (n - before >= 2)
    {
        vp_reach("hex");
        vp_assert(out.size() == before + 2, "hex-size");
#ifdef VP_LOW
        vp_assert(buf[before + 1] == (lo < 10 ? '0' + (int)lo : 'A' + (int)lo - 10), "hex-low");
#else
        vp_assert(buf[before] == (hi < 10 ? '0' + (int)hi : 'A' + (int)hi - 10), "hex-high");
#endif
    }
    else
    {
        vp_reach("hex-dropped");
        vp_assert(out.size() == before, "hex-all-or-nothing");
    }
}
// a block of bytes: the longest prefix whose two-digit forms fit; digit pairs are in order
extern "C" void drv_block()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP), len = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    uint8_t* src = (uint8_t*)vp_alloc(len);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    size_t fit = (n - before) / 2 < len ? (n - before) / 2 : len;
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < fit);
    src[k] = VP_BYTE;
    vp_watch(&buf[before + 2 * k + VP_AT]);
    out << ConstBytesView(src, len);
    vp_assert(out.size() == before + 2 * fit, "block-size");
    vp_reach("block");
    vp_assert(buf[before + 2 * k + VP_AT] == "0123456789ABCDEF"[VP_AT ? VP_BYTE & 15 : VP_BYTE >> 4], "block-digit");
}
