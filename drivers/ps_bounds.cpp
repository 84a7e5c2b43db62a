#include "ps.h"
// an operation sequence on any bytes: 'g' looks up, 's' stores; VP_FRESH: the region is initialised first
template<typename T> static void op(PersistentStorage& s, char c)
{
    if (c == 's')
        s.set(anyKey(), anyValue<T>());
    else
        (void)s.get<T>(anyKey());
}
#ifndef VP_SEQ
#define VP_SEQ "sgs"
#endif
#ifndef VP_T
#define VP_T float, float
#endif
template<typename A, typename B> static void run(PersistentStorage& s)
{
    op<A>(s, VP_SEQ[0]);
    op<B>(s, VP_SEQ[1]);
#ifdef VP_FRESH
    op<A>(s, VP_SEQ[2]);
#endif
}
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    vp_records(buf);
#ifdef VP_FRESH
    PersistentStorage s(BytesView(buf, n));
#else
    PersistentStorage s(BytesView(buf, n), false);
#endif
    run<VP_T>(s);
    vp_reach("history");
}
