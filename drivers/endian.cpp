#include "vp.h"
#include "EndianConversion.h"
#include <cstring>
using namespace embedded;
static inline uint8_t at(uint64_t v, int i) { return (uint8_t)(v >> (8 * i)); }
extern "C" void drv()
{
    uint16_t a = vp_u16();
    uint16_t ra = changeEndianess(a);
    vp_assert(at(ra, 0) == at(a, 1), "u16-0");
    vp_assert(at(ra, 1) == at(a, 0), "u16-1");
    vp_assert(changeEndianess(ra) == a, "u16-twice");
    uint32_t b = vp_u32();
    uint32_t rb = changeEndianess(b);
    vp_assert(at(rb, 0) == at(b, 3), "u32-0");
    vp_assert(at(rb, 1) == at(b, 2), "u32-1");
    vp_assert(at(rb, 2) == at(b, 1), "u32-2");
    vp_assert(at(rb, 3) == at(b, 0), "u32-3");
    vp_assert(changeEndianess(rb) == b, "u32-twice");
    uint32_t c = vp_u32();
    float f = changeEndianessToFloat(c);
    uint32_t rc;
    memcpy(&rc, &f, sizeof rc);
    vp_assert(at(rc, 0) == at(c, 3), "float-0");
    vp_assert(at(rc, 1) == at(c, 2), "float-1");
    vp_assert(at(rc, 2) == at(c, 1), "float-2");
    vp_assert(at(rc, 3) == at(c, 0), "float-3");
    size_t n = vp_range(1, 1 << 20), k = vp_range(0, 1 << 20);
    vp_assume(k < n);
    uint32_t* w = (uint32_t*)vp_alloc(4 * n);
    uint32_t d = w[k];
    changeEndianess16x2(&w[k]);
    uint32_t rd = w[k];
    vp_assert(at(rd, 0) == at(d, 1), "pair-0");
    vp_assert(at(rd, 1) == at(d, 0), "pair-1");
    vp_assert(at(rd, 2) == at(d, 3), "pair-2");
    vp_assert(at(rd, 3) == at(d, 2), "pair-3");
    size_t j = vp_range(0, 1 << 20);
    vp_assume(j < 4 * n && (j < 4 * k || j >= 4 * k + 4));
    uint8_t* bytes = (uint8_t*)w;
    uint8_t before = bytes[j];
    changeEndianess16x2(&w[k]);
    vp_assert(bytes[j] == before, "pair-neighbours");
    vp_reach("endian");
}
