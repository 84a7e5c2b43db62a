#include "bo.h"
// every operation returns: one operation from any fill level and any format
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP);
    BufferedOut out(MemoryView<char>((char*)vp_alloc(n), n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    out << BufferedOut::fill{(char)vp_i8()} << BufferedOut::width{vp_i32()} << BufferedOut::precision{vp_i32()};
    vpj_op(out);
    vp_reach("ended");
}
