#include "ps.h"
// what is stored is what is found: fresh region, any keys and values
#ifndef VP_T1
#define VP_T1 uint16_t
#endif
#ifndef VP_T2
#define VP_T2 R3
#endif
#ifndef VP_L1
#define VP_L1 2
#endif
#ifndef VP_L2
#define VP_L2 3
#endif
struct Key
{
    char c[8];
    size_t n;
    operator std::string_view() const { return std::string_view(c, n); }
};
static Key key(size_t n)
{
    Key k;
    k.n = n;
    for (size_t i = 0; i < n; ++i)
    {
        ((uint8_t*)k.c)[i] = (uint8_t)vp_range(1, 255);
    }
    return k;
}
// keys of the same length differ in (at least) character VP_DIFF
#ifndef VP_DIFF
#define VP_DIFF 0
#endif
#ifndef VP_LESS
#define VP_LESS 1
#endif
static void differ(const Key& a, Key& b)
{
    if (a.n != b.n || VP_DIFF >= a.n)
        return;
    uint8_t x = (uint8_t)a.c[VP_DIFF], y = (uint8_t)b.c[VP_DIFF];
    vp_assume(VP_LESS ? x < y : y < x);
}
// a third key, of another length than both
static Key other(const Key& a, const Key& b)
{
    size_t n = 1;
    while (n == a.n || n == b.n)
        ++n;
    return key(n);
}
template<typename T> struct Val
{
    T v;
    uint8_t at(size_t i) const { return ((const uint8_t*)&v)[i]; }
};
template<typename T> static Val<T> value()
{
    Val<T> x;
    for (size_t i = 0; i < sizeof(T); ++i)
        ((uint8_t*)&x.v)[i] = vp_u8();
    return x;
}
template<typename T> static bool same(const std::optional<T>& o, const Val<T>& v)
{
    if (!o)
        return false;
    const uint8_t* p = (const uint8_t*)&*o;
    for (size_t i = 0; i < sizeof(T); ++i)
        if (p[i] != v.at(i))
            return false;
    return true;
}
static const size_t H = 6;
// two objects under different keys
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    PersistentStorage s(BytesView(buf, n));
    Key k1 = key(VP_L1), k2 = key(VP_L2);
    differ(k1, k2);
    vp_assert(!s.get<VP_T1>(k1), "fresh-is-empty");
    Val<VP_T1> v1 = value<VP_T1>();
    Val<VP_T2> v2 = value<VP_T2>();
    bool r1 = s.set(k1, v1.v);
    vp_assert(r1 == (n >= H + sizeof(VP_T1)), "stored-when-room");
    vp_assume(r1);
    bool r2 = s.set(k2, v2.v);
    vp_assert(r2 == (n >= 2 * H + sizeof(VP_T1) + sizeof(VP_T2)), "second-stored-when-room");
    vp_assert(same(s.get<VP_T1>(k1), v1), "first-found");
    if (r2)
        vp_assert(same(s.get<VP_T2>(k2), v2), "second-found");
    else
        vp_assert(!s.get<VP_T2>(k2), "refused-not-found");
    vp_reach("stored");
}
// storing again under a key replaces the object in place, however full the region is
extern "C" void drv_over()
{
    size_t n = vp_range(2 * H + sizeof(VP_T1) + sizeof(VP_T2), MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    PersistentStorage s(BytesView(buf, n));
    Key k1 = key(VP_L1), k2 = key(VP_L2);
    differ(k1, k2);
    Val<VP_T1> v1 = value<VP_T1>(), w1 = value<VP_T1>();
    Val<VP_T2> v2 = value<VP_T2>();
    s.set(k1, v1.v);
    s.set(k2, v2.v);
    vp_assert(s.set(k1, w1.v), "replaced");
    vp_assert(same(s.get<VP_T1>(k1), w1), "new-value");
    vp_assert(same(s.get<VP_T2>(k2), v2), "other-unchanged");
    Val<VP_T2> w2 = value<VP_T2>();
    vp_assert(s.set(k2, w2.v), "replaced-last");
    vp_assert(same(s.get<VP_T2>(k2), w2), "new-value-last");
    vp_assert(same(s.get<VP_T1>(k1), w1), "other-unchanged-last");
    // replacing took no room
    Val<uint8_t> v3 = value<uint8_t>();
    Key k3 = other(k1, k2);
    vp_assert(s.set(k3, v3.v) == (n >= 3 * H + sizeof(VP_T1) + sizeof(VP_T2) + 1), "no-room-taken");
    vp_reach("replaced");
}
// what a storage has written is found by a storage that is attached to the region later
extern "C" void drv_attach()
{
    size_t n = vp_range(2 * H + sizeof(VP_T1) + sizeof(VP_T2), MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc_raw(n);
    Key k1 = key(VP_L1), k2 = key(VP_L2);
    differ(k1, k2);
    Val<VP_T1> v1 = value<VP_T1>(), w1 = value<VP_T1>();
    Val<VP_T2> v2 = value<VP_T2>();
    // where the size of a record behind the last one would be
    size_t end = 2 * H + sizeof(VP_T1) + sizeof(VP_T2);
    for (size_t at : { end, end + 1, end + H + 1, end + H + 2 })
        vp_watch(&buf[at]);
    {
        PersistentStorage s(BytesView(buf, n));
        s.set(k1, v1.v);
        s.set(k2, v2.v);
    }
    PersistentStorage t(BytesView(buf, n), false);
    vp_assert(same(t.get<VP_T1>(k1), v1), "first-survives");
    vp_assert(same(t.get<VP_T2>(k2), v2), "second-survives");
    vp_assert(t.set(k1, w1.v), "replaced-after");
    vp_assert(same(t.get<VP_T1>(k1), w1), "new-value-after");
    vp_assert(same(t.get<VP_T2>(k2), v2), "other-after");
    Val<uint8_t> v3 = value<uint8_t>();
    Key k3 = other(k1, k2);
    bool r3 = t.set(k3, v3.v);
    vp_assert(r3 == (n >= 3 * H + sizeof(VP_T1) + sizeof(VP_T2) + 1), "same-room-after");
    if (r3)
    {
        PersistentStorage u(BytesView(buf, n), false);
        vp_assert(same(u.get<uint8_t>(k3), v3), "third-survives");
        vp_assert(same(u.get<VP_T1>(k1), w1), "first-survives-again");
    }
    vp_reach("attached");
}
// initialising forgets everything that was in the region
extern "C" void drv_init()
{
    size_t n = vp_range(H + sizeof(VP_T1), MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    Key k1 = key(VP_L1);
    Val<VP_T1> v1 = value<VP_T1>();
    {
        PersistentStorage s(BytesView(buf, n));
        s.set(k1, v1.v);
    }
    {
        PersistentStorage s(BytesView(buf, n), true);
        vp_assert(!s.get<VP_T1>(k1), "forgotten");
    }
    PersistentStorage t(BytesView(buf, n), false);
    vp_assert(!t.get<VP_T1>(k1), "forgotten-for-good");
    vp_reach("initialised");
}
// the type (its size) is part of the identity
extern "C" void drv_type()
{
    size_t n = vp_range(2 * H + sizeof(VP_T1) + sizeof(VP_T2), MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    PersistentStorage s(BytesView(buf, n));
    Key k1 = key(VP_L1);
    Val<VP_T1> v1 = value<VP_T1>();
    Val<VP_T2> v2 = value<VP_T2>();
    s.set(k1, v1.v);
    vp_assert(!s.get<VP_T2>(k1), "other-type-not-found");
    vp_assert(s.set(k1, v2.v), "other-type-stored");
    vp_assert(same(s.get<VP_T1>(k1), v1), "first-type");
    vp_assert(same(s.get<VP_T2>(k1), v2), "second-type");
    PersistentStorage t(BytesView(buf, n), false);
    vp_assert(same(t.get<VP_T1>(k1), v1), "first-type-later");
    vp_assert(same(t.get<VP_T2>(k1), v2), "second-type-later");
    vp_reach("typed");
}
// a key that does not fit is refused, not cut off
extern "C" void drv_long()
{
    size_t n = vp_range(H + sizeof(VP_T1), MAXCAP);
    uint8_t* buf = (uint8_t*)vp_alloc(n);
    PersistentStorage s(BytesView(buf, n));
    Key k4 = key(4), k5 = key(VP_L1 + 5 > 8 ? 8 : VP_L1 + 5);
    for (size_t i = 0; i < 4; ++i)
        k5.c[i] = k4.c[i];
    Val<VP_T1> v1 = value<VP_T1>(), v2 = value<VP_T1>();
    vp_assert(s.set(k4, v1.v), "fits");
    vp_assert(!s.get<VP_T1>(k5), "long-not-found");
    vp_assert(!s.set(k5, v2.v), "long-refused");
    vp_assert(same(s.get<VP_T1>(k4), v1), "prefix-unharmed");
    vp_reach("long");
}
