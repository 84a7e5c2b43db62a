#pragma once
#include "vp.h"
#include "PersistentStorage.h"
using namespace embedded;
struct R3 { uint8_t a[3]; };
struct R12 { uint32_t x, y, z; };
struct R40 { uint8_t a[40]; };
static const size_t MAXCAP = 1u << 30;

inline std::string_view anyKey()
{
    size_t n = vp_range(0, MAXCAP);
    return std::string_view((const char*)vp_alloc(n), n);
}
template<typename T> inline T anyValue()
{
    T* p = (T*)vp_alloc(sizeof(T));
    return *p;
}
