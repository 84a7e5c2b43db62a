#include "bo.h"
#include <charconv>
#ifndef VP_T
#define VP_T int
#endif
// an integer appears whole, right aligned in its field, or not at all
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    int w = vp_i32();
    char f = (char)vp_i8();
    vp_pin(f);
    out << BufferedOut::fill{f} << BufferedOut::width{w};
    size_t before = out.size();

    VP_T v = (VP_T)VP_ANY();
    char ref[24];
    size_t len = std::to_chars(ref, ref + sizeof ref, v).ptr - ref;
    size_t total = w > 0 && (size_t)w > len ? (size_t)w : len;
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < total && before + k < n);
    bool digit = k >= total - len;
    char want = digit ? ref[k - (total - len)] : f;
    vp_pin(want);
    vp_watch(&buf[before + k]);
    out << v;
    if (total <= n - before)
    {
        vp_reach("printed");
        vp_assert(out.size() == before + total, "int-size");
        if (digit)
            vp_assert(buf[before + k] == want, "int-digits");
        else
            vp_assert(buf[before + k] == want, "int-padding");
        // the width is used up
        size_t second = out.size();
        out << v;
        vp_prove(out.size() == second || out.size() == second + len, "int-width-once");
    }
    else
    {
        vp_reach("dropped");
        vp_assert(out.size() == before, "int-all-or-nothing");
    }
}
