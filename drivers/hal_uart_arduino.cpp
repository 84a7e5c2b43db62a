#include "vp.h"
#include "PacketUartImpl.h"
// The UART, as any driver and any wire could behave; the clock starts anywhere and may wrap.
using embedded::PacketUart;
static uint32_t clockStart, deadline;       // deadline: milliseconds after the first look at the clock; 0: none
static bool looked;
uint8_t vp_gs_late;                         // a wait of the UART's own has run out
uint8_t vp_gs_expired;                      // the clock has been seen at or behind the deadline
static size_t delivered, mark;              // bytes taken from the UART; the one that is followed
static uint8_t marked;                      // its value
uint8_t vp_gs_seen;                         // it has arrived
static unsigned long wanted;                // the timeout that has to be in force while waiting
static int skipTo = -1;                     // bytes before this one do not count
uint32_t millis()
{
    uint32_t e = vp_u32();
    if (!looked) { looked = true; e = 0; }
    if (deadline && e >= deadline) vp_gs_expired = 1;
    return clockStart + e;
}
void delay(uint32_t) {}
static void arrive(uint8_t* data, size_t n)
{
    vp_havoc(data, n);
    if (mark >= delivered && mark < delivered + n)
    {
        data[mark - delivered] = marked;
        vp_gs_seen = 1;
    }
    delivered += n;
}
int HardwareSerial::read()
{
#ifdef VP_DEADLINE
    vp_assert(!vp_gs_expired, "poll-after-deadline");
#endif
    if (vp_bool()) return -1;
    uint8_t v;
    if (skipTo >= 0)
    {
        v = vp_u8();
        if (v != skipTo) return v;
        skipTo = -1;
        if (mark == 0) vp_gs_seen = 1;
        ++delivered;
        return v;
    }
    arrive(&v, 1);
    return v;
}
size_t HardwareSerial::readBytes(uint8_t* data, size_t n)
{
#ifdef VP_DEADLINE
    vp_assert(limit == wanted, "timeout-in-force");
#endif
    size_t r = vp_range(0, n);
    if (r < n) vp_gs_late = 1;
    arrive(data, r);
    return r;
}
size_t HardwareSerial::readBytesUntil(char end, uint8_t* data, size_t n)
{
#ifdef VP_DEADLINE
    vp_assert(limit == wanted, "timeout-in-force");
#endif
    size_t r = vp_range(0, n);
    if (mark >= delivered && mark < delivered + r) vp_assume(marked != (uint8_t)end);
    arrive(data, r);
    if (r < n)
    {
        uint8_t e;
        if (vp_bool())
        {
            arrive(&e, 1);
            vp_assume(e == (uint8_t)end);
        }
        else vp_gs_late = 1;
    }
    return r;
}
int HardwareSerial::available() { return vp_u16(); }
size_t HardwareSerial::write(const uint8_t* data, size_t n)
{
#ifdef VP_DEADLINE
    vp_assert(limit == wanted, "timeout-in-force");
#endif
    vp_assert(n == delivered && data == (const uint8_t*)mark, "sent-all");
    return vp_range(0, n);
}
void HardwareSerial::flush() {}
void HardwareSerial::flush(bool) {}

// the followed byte and the end byte
#if VP_REL == 0
#define RELATION vp_assume(kth < end);
#elif VP_REL == 1
#define RELATION vp_assume(kth > end);
#else
#define RELATION vp_assume(kth == end);
#endif
#ifdef VP_BYTES     // one byte of the buffer is followed
#define PICK vp_assume(k < size); vp_watch(buffer + k);
#else               // none of them
#define PICK vp_assume(k >= size);
#endif
// (plain locals: they stay the same symbols over the loops)
#define SET \
    const unsigned long old = vp_u32(); \
    const uint16_t size = vp_u16(), timeout = vp_u16(); \
    PacketUart::UartDevice dev(1); \
    dev.setTimeout(old); \
    PacketUart uart(dev); \
    uint8_t* buffer = (uint8_t*)vp_alloc(size); \
    clockStart = vp_u32(); \
    wanted = timeout ? timeout : old; \
    const size_t k = vp_range(0, 65535); \
    const uint8_t kth = vp_u8(); \
    marked = kth; \
    PICK \
    mark = k
#define CHECK(n) \
    vp_assert(n <= size, "count"); \
    vp_assert(n == delivered, "nothing-lost"); \
    vp_assert(dev.getTimeout() == old, "timeout-restored"); \
    if (k < n) \
    { \
        vp_reach("got"); \
        vp_assert(vp_gs_seen && buffer[k] == kth, "bytes"); \
    }
extern "C" void drv_receive()
{
    SET;
    deadline = timeout;
    if (!deadline) vp_gs_expired = 1;
    const size_t n = uart.Receive(buffer, size, timeout);
    CHECK(n);
#ifdef VP_DEADLINE
    vp_assert(n == size || vp_gs_expired, "waited");
#endif
}
extern "C" void drv_until()
{
    SET;
    const uint8_t end = vp_u8();
    RELATION
    const size_t n = uart.ReceiveUntil(buffer, size, end, timeout);
    CHECK(n);
    if (k + 1 < n) vp_assert(buffer[k] != end, "stops-at-end");
    if (k + 1 == n && n < size && !vp_gs_late) vp_assert(buffer[k] == end, "goes-on-to-end");
    if (n == 0 && size) vp_assert(vp_gs_late, "waits");
}
extern "C" void drv_between()
{
    SET;
    const uint8_t begin = vp_u8(), end = vp_u8();
    RELATION
#ifdef VP_FIRST
    vp_assume(k == 0 && kth == begin);
#else
    vp_assume(k > 0);
#endif
    skipTo = begin;
    deadline = timeout;
    const size_t n = uart.ReceiveBetween(buffer, size, begin, end, timeout);
    CHECK(n);
    if (k == 0 && n) vp_assert(buffer[k] == begin, "starts");
    if (k > 0 && k + 1 < n) vp_assert(buffer[k] != end, "stops-at-end");
    if (k > 0 && k + 1 == n && n < size && !vp_gs_late) vp_assert(buffer[k] == end, "goes-on-to-end");
    if (n == 0 && size >= 2) vp_assert(vp_gs_expired, "waited");
}
extern "C" void drv_send()
{
    SET;
    delivered = size;
    mark = (size_t)buffer;
    const uint32_t t = vp_u32();
    wanted = t ? t : old;
    vp_freeze(buffer);
    const size_t n = uart.Send(buffer, size, t);
    vp_reach("sent");
    vp_assert(n <= size, "sent-count");
    vp_assert(dev.getTimeout() == old, "timeout-restored");
}
