#include "bo.h"
#include <cstring>
// text is copied unchanged, up to what fits
extern "C" void drv()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP), len = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    char* src = (char*)vp_alloc(len);
    size_t fit = n - before < len ? n - before : len;
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < fit);
    vp_watch(src + k);
    const char want = src[k];
    vp_watch(buf + before + k);
    out << std::string_view(src, len);
    vp_reach("text");
    vp_assert(buf[before + k] == want, "text-content");
}
// its length, and the views
extern "C" void drv_views()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP), len = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    char* src = (char*)vp_alloc(len);
    size_t fit = n - before < len ? n - before : len;
    out << std::string_view(src, len);
    vp_reach("views");
    vp_assert(out.size() == before + fit, "text-size");
    vp_assert(out.asStringView().data() == buf && out.asStringView().size() == out.size(), "view-string");
    vp_assert((char*)out.data().begin() == buf && out.data().size() == out.size(), "view-bytes");
    const BufferedOut& c = out;
    vp_assert((const char*)c.data().begin() == buf && c.data().size() == out.size(), "view-const-bytes");
    vp_assert(out.capacity() == n, "capacity");
    out.clear();
    vp_assert(out.size() == 0, "clear");
}
// zero-terminated text is appended whole, or up to the end of the buffer
extern "C" void drv_whole()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP), len = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    char* src = (char*)vp_alloc(len + 1);
    uint8_t c = vp_u8();
    vp_assume(c != 0);
    memset(src, c, len);
    src[len] = 0;
    size_t fit = n - before < len ? n - before : len;
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < fit);
    vp_watch(buf + before + k);
    out << (const char*)src;
    vp_assert(out.size() == before + fit, "cstr-size");
    vp_assert(buf[before + k] == (char)c, "cstr-content");
    vp_reach("cstr");
}
// each of its characters stands in its place
extern "C" void drv_order()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP), len = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    char* src = (char*)vp_alloc(len + 1);
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < len && before + k < n);
    const char kth = (char)vp_i8();
    src[len] = 0;
    src[k] = kth;
    vp_watch(src + k);
    vp_watch(buf + before + k);
    out << (const char*)src;
    vp_assert(out.size() <= n && out.size() - before <= len, "cstr-not-beyond-terminator");
    if (k < out.size() - before)
    {
        vp_assert(buf[before + k] == kth, "cstr-order");
        vp_reach("cstr");
    }
}
// single characters
extern "C" void drv_char()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    size_t before = out.size();
    char c = (char)vp_i8();
    if (vp_bool()) out << c; else out.addChar(c);
    if (before < n)
    {
        vp_reach("char");
        vp_assert(out.size() == before + 1, "char-size");
        vp_assert(buf[before] == c, "char-content");
    }
    else
        vp_assert(out.size() == before, "char-full");
}
#include <charconv>
// clearing also resets the formatting
extern "C" void drv_clear()
{
    size_t n = vp_range(0, MAXCAP), m = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    vp_assume(m <= n);
    vpj_prefix(out, m);
    vp_assert(out.size() == m, "prefix");
    out << BufferedOut::fill{(char)vp_i8()} << BufferedOut::width{vp_i32()} << BufferedOut::precision{vp_i32()};
    out.clear();
    vp_assert(out.size() == 0, "clear-empty");
    int v = vp_i32();
    char ref[24];
    size_t len = std::to_chars(ref, ref + sizeof ref, v).ptr - ref;
    out << v;
    vp_assert(out.size() == 0 || out.size() == len, "clear-resets-width");
    vp_reach("cleared");
}
extern "C" void drv_clear_fill()
{
    size_t n = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    out << BufferedOut::fill{(char)vp_i8()} << BufferedOut::width{vp_i32()} << BufferedOut::precision{vp_i32()};
    out.clear();
    int v = vp_i32(), w = vp_i32();
    char ref[24];
    size_t len = std::to_chars(ref, ref + sizeof ref, v).ptr - ref;
    vp_assume(w > (int)len && (size_t)w <= n);
    size_t k = vp_range(0, MAXCAP);
    vp_assume(k < w - len);
    vp_pin(' ');
    vp_watch(&buf[k]);
    out << BufferedOut::width{w} << v;
    vp_reach("cleared-fill");
    vp_assert(out.size() == (size_t)w, "clear-width-works");
    vp_assert(buf[k] == ' ', "clear-resets-fill");
}
extern "C" void drv_clear_float()
{
    size_t n = vp_range(0, MAXCAP);
    char* buf = (char*)vp_alloc_raw(n);
    BufferedOut out(MemoryView<char>(buf, n));
    out << BufferedOut::precision{vp_i32()};
    out.clear();
    out << vp_f32();
    vp_reach("cleared-float");
    vp_assert(out.size() <= 11, "clear-resets-precision");
}
