#include "bo.h"
// what is in the buffer stays there: an insertion only adds behind it, and all views show the same bytes
extern "C" void drv()
{
    size_t n = vp_range(1, MAXCAP);
    char* buf = (char*)vp_alloc(n);
    BufferedOut out(MemoryView<char>(buf, n));
    while (vp_bool())
    {
        vpj_op(out);
    }
    size_t before = out.size();
    vp_assume(before > 0);
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < before);
    vp_watch(buf + k);
    char seen = buf[k];
    insertText(out, VP_OP);
    vp_assert(out.size() >= before, "append-grows");
    vp_assert(out.size() <= n, "append-within-capacity");
    vp_assert(buf[k] == seen, "append-keeps-content");
}
