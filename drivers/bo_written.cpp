#include "bo.h"
static int vp_gs_case;
// every byte the views expose has been written by an insertion (step from any fill level and any format)
extern "C" void drv()
{
    size_t n = vp_range(1, MAXCAP), m = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assert(out.size() == 0, "starts-empty");
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    int w = vp_i32();
    out << BufferedOut::fill{(char)vp_i8()} << BufferedOut::width{w} << BufferedOut::precision{vp_i32()};
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k >= m && k < n);     // (an insertion writes to no byte below: B02)
    vp_watch(&buf[k]);
#if VP_OP < 6
    if (w > 0 && k < out.size() + w)
        vp_gs_case = 1;        // the byte is inside the field
#endif
    insertText(out, VP_OP);
    if (k < out.size())
    {
        vp_reach("exposed");
        vp_assert(vp_written(&buf[k]), "exposed-byte-was-written");
    }
}
