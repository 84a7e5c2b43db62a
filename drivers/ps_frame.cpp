#include "ps.h"// what an operation may touch: any bytes in the region, attached, any key; one arbitrary byte followed exactly
#ifndef VP_T
#define VP_T float
#endif
typedef VP_T T;
// attaching and looking up change nothing
extern "C" void drv_get()
{
    size_t n = vp_range(0, MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    vp_records(buf);
    vp_freeze(buf);
    PersistentStorage s(BytesView(buf, n), false);
    (void)s.get<T>(anyKey());
    (void)s.get<R40>(anyKey());
    vp_reach("get");
}
// a refused object leaves everything as it was
extern "C" void drv_refused()
{
    size_t n = vp_range(1, MAXCAP), k = vp_range(0, MAXCAP);
    vp_assume(k < n);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    vp_records(buf);
    PersistentStorage s(BytesView(buf, n), false);
    uint8_t before = buf[k];
    vp_watch(&buf[k]);
    vp_pin(before);
    bool r = s.set(anyKey(), anyValue<T>());
    if (!r)
    {
        vp_assert(buf[k] == before, "refused-changes-nothing");
        vp_reach("refused");
    }
}
// an accepted object changes no two bytes that are a whole record apart: only one record is touched
extern "C" void drv_accepted()
{
    size_t n = vp_range(1, MAXCAP), i = vp_range(0, MAXCAP), j = vp_range(0, MAXCAP);
    vp_assume(j < n && i + 6 + sizeof(T) <= j);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    vp_records(buf);
    PersistentStorage s(BytesView(buf, n), false);
    uint8_t a = buf[i], b = buf[j];
    vp_watch(&buf[i]);
    vp_pin(a);
    vp_watch(&buf[j]);
    vp_pin(b);
    (void)s.set(anyKey(), anyValue<T>());
    vp_assert(buf[i] == a || buf[j] == b, "one-record-touched");
    vp_reach("accepted");
}
