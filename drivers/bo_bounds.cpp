#include "bo.h"
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP);
    BufferedOut out(MemoryView<char>((char*)vp_alloc(n), n));
    while (vp_bool())
    {
        vpj_op(out);
        vp_assert(out.size() <= n, "size");
    }
}
