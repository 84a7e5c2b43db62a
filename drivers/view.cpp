#include "vp.h"
#include "MemoryView.h"
#include <type_traits>
using namespace embedded;
struct Rec { uint32_t a; uint16_t b; uint8_t c[6]; };
#ifndef VP_T
#define VP_T uint8_t
#endif
typedef VP_T T;
typedef MemoryView<T> V;
static const size_t MAXN = 1u << 28;

static V arbitrary(T*& p, size_t& n)
{
    n = vp_range(0, MAXN);
    p = (T*)vp_alloc(n * sizeof(T));
    return vp_bool() ? V(p, n) : V(p, p + n);
}
// everything a view reports describes [p, p + n)
template<class W> static void is(const W& v, T* p, size_t n)
{
    vp_assert(v.size() == n, "size");
    vp_assert(v.begin() == p && v.data() == p && v.cbegin() == p, "begin");
    vp_assert(v.end() == p + n && v.cend() == p + n, "end");
    vp_assert(v.rbegin().base() == p + n && v.rend().base() == p, "reverse");
    vp_assert(v.crbegin().base() == p + n && v.crend().base() == p, "const-reverse");
    vp_assert(v.empty() == (n == 0), "empty");
    vp_assert(v.size_bytes() == n * sizeof(T), "size-bytes");
}
extern "C" void drv()
{
    T* p; size_t n;
    V v = arbitrary(p, n);
    is(v, p, n);
    size_t i = vp_range(0, MAXN);
    vp_assume(i < n);
    vp_assert(&v[i] == p + i, "element");
    vp_assert(&v.front() == p, "front");
    vp_assert(&v.back() == p + n - 1, "back");
    V none;
    vp_assert(none.empty() && none.size() == 0 && none.begin() == none.end() && none.data() == nullptr, "default");
    vp_reach("whole");
}
// sub-views are exactly the requested part, cut at the end of the view
extern "C" void drv_sub()
{
    T* p; size_t n;
    V v = arbitrary(p, n);
    size_t o = vp_u64(), c = vp_u64();
    V s = vp_bool() ? v.subspan(o, c) : (c = V::npos, v.subspan(o));
    if (o >= n)
    {
        vp_assert(s.size() == 0, "sub-empty");
        vp_assert(s.empty() && s.begin() == s.end(), "sub-empty-range");
    }
    else
    {
        vp_reach("sub");
        size_t want = n - o < c ? n - o : c;
        vp_assert(s.size() == want, "sub-size");
        vp_assert(s.begin() == p + o, "sub-begin");
        vp_assert(s.end() == p + o + want, "sub-end");
        vp_assert(s.size_bytes() <= v.size_bytes(), "sub-contained");
        V t = s.subspan(vp_u64(), vp_u64());
        vp_assert(t.empty() || (vp_offset(t.begin()) >= vp_offset(s.begin()) && vp_offset(t.end()) <= vp_offset(s.end())), "sub-sub-contained");
    }
}
extern "C" void drv_ends()
{
    T* p; size_t n;
    V v = arbitrary(p, n);
    size_t c = vp_u64(), want = c < n ? c : n;
    V a = v.first(c);
    vp_assert(a.size() == want, "first-size");
    vp_assert(n == 0 || a.begin() == p, "first-begin");
    V b = v.last(c);
    vp_assert(b.size() == want, "last-size");
    vp_assert(n == 0 || b.end() == p + n, "last-end");
    vp_assert(n == 0 || b.begin() == p + (n - want), "last-begin");
    vp_reach("ends");
}
// conversions keep the region
extern "C" void drv_conv()
{
    T* p; size_t n;
    V v = arbitrary(p, n);
    MemoryView<const uint8_t> cb = v.as_bytes();
    vp_assert((const void*)cb.begin() == (const void*)p && cb.size() == n * sizeof(T), "bytes");
#ifdef VP_MUTABLE
    MemoryView<uint8_t> wb = v.as_writable_bytes();
    vp_assert((void*)wb.begin() == (void*)p && wb.size() == n * sizeof(T), "writable-bytes");
#endif
    MemoryView<const T> cv(v);
    vp_assert(cv.begin() == p && cv.size() == n, "to-const");
    V copy(v);
    is(copy, p, n);
    V asg;
    asg = v;
    is(asg, p, n);
    std::remove_const_t<T> arr[7] = {};
    V fa(arr);
    vp_assert(fa.begin() == arr && fa.size() == 7, "c-array");
    std::array<std::remove_const_t<T>, 5> sa {};
    V fs(sa);
    vp_assert(fs.begin() == sa.data() && fs.size() == 5, "std-array");
    vp_reach("conv");
}
#ifdef VP_CHAR
extern "C" void drv_text()
{
    T* p; size_t n;
    V v = arbitrary(p, n);
    std::string_view s = v;
    vp_assert(s.data() == p && s.size() == n, "text");
    vp_reach("text");
}
#endif
