// the most general client of BufferedOut
#pragma once
#include "vp.h"
#include "BufferedOut.h"
using namespace embedded;

static const size_t MAXCAP = 1u << 30;

inline void insertText(BufferedOut& out, int which)
{
    switch (which)
    {
    case 0: out << (int)vp_i32(); break;
    case 1: out << (unsigned)vp_u32(); break;
    case 2: out << (long)vp_i64(); break;
    case 3: out << (unsigned long)vp_u64(); break;
    case 4: out << (long long)vp_i64(); break;
    case 5: out << (unsigned long long)vp_u64(); break;
    case 6: out << vp_f32(); break;
    case 7: out << (unsigned char)vp_u8(); break;
    case 8: { size_t n = vp_range(0, MAXCAP); out << ConstBytesView((const uint8_t*)vp_alloc(n), n); break; }
    case 9: { size_t n = vp_range(0, MAXCAP); out << std::string_view((const char*)vp_alloc(n), n); break; }
    case 10: { size_t n = vp_range(0, MAXCAP); char* s = (char*)vp_alloc(n + 1); s[n] = 0; out << (const char*)s; break; }
    case 11: out << (char)vp_i8(); break;
    case 12: out.addChar((char)vp_i8()); break;
    }
}

inline void setFormat(BufferedOut& out, int which)
{
    switch (which)
    {
    case 0: out << BufferedOut::precision{vp_i32()}; break;
    case 1: out << BufferedOut::width{vp_i32()}; break;
    case 2: out << BufferedOut::fill{(char)vp_i8()}; break;
    }
}

extern "C" inline void vpj_op(BufferedOut& out)
{
    switch (vp_u8())
    {
    case 0: insertText(out, vp_u8()); break;
    case 1: setFormat(out, vp_u8()); break;
    case 2: out.clear(); break;
    }
    vp_forget(out.data().begin(), 0);
}

// earlier output of any length that fits (all ways of getting there are merged)
extern "C" inline void vpj_prefix(BufferedOut& out, size_t m)
{
    out << std::string_view((const char*)vp_alloc(m), m);
}
