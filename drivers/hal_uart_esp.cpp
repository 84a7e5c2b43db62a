#include "vp.h"
#include "PacketUartImpl.h"
#include "Delays.h"
#include <driver/uart.h>
// The UART driver of ESP-IDF, as it could behave; the clock starts anywhere and may wrap.
using embedded::PacketUart;
static uint32_t clockStart, last, deadline; // last: milliseconds of the last look at the clock
static bool looked, bounded;
static size_t delivered, mark;              // bytes taken from the UART; the one that is followed
static uint8_t marked;                      // its value
uint8_t vp_gs_seen;                         // it has arrived
uint8_t vp_gs_late;                         // a read got less than it asked for
uint8_t vp_gs_over;                         // the clock has been seen at or behind the deadline
static const uint8_t* sent;
static size_t sentSize;
static int skipTo = -1;                     // bytes before this one do not count
static int port;
uint32_t embedded::getMillisecondTicks()
{
    uint32_t e = vp_u32();
    if (!looked) { looked = true; e = 0; }
#ifdef VP_DEADLINE
    last = e;
#endif
    if (bounded && e >= deadline) vp_gs_over = 1;
    return clockStart + e;
}
void vp_esp_abort() { vp_assert(false, "esp-abort"); }
int uart_read_bytes(uart_port_t p, void* to, uint32_t n, TickType_t ticks)
{
    vp_assert(p == port, "port");
#ifdef VP_DEADLINE
    if (bounded) vp_assert(last <= deadline && (uint64_t)ticks * portTICK_PERIOD_MS <= deadline - last, "wait-behind-deadline");
#endif
    if (vp_bool()) { vp_gs_late = 1; return -1; }
    uint8_t* data = (uint8_t*)to;
    size_t r = vp_range(0, n);
    if (r < n) vp_gs_late = 1;
    if (skipTo >= 0)
    {
        // (the start byte is looked for one byte at a time)
        vp_assert(n == 1, "one-by-one");
        if (r == 0) return 0;
        const uint8_t v = vp_u8();
        data[0] = v;
        if (v == skipTo)
        {
            skipTo = -1;
            if (mark == 0) vp_gs_seen = 1;
            delivered = 1;
        }
        return 1;
    }
    vp_havoc(data, r);
    if (mark >= delivered && mark < delivered + r)
    {
        data[mark - delivered] = marked;
        vp_gs_seen = 1;
    }
    delivered += r;
    return r;
}
int uart_write_bytes(uart_port_t p, const void* data, size_t n)
{
    vp_assert(p == port, "port");
    vp_assert(n == sentSize && data == sent, "sent-all");
    if (vp_bool()) return -1;
    return vp_range(0, n);
}
esp_err_t uart_wait_tx_done(uart_port_t p, TickType_t) { vp_assert(p == port, "port"); return vp_i32(); }
bool uart_is_driver_installed(uart_port_t) { return vp_bool(); }
esp_err_t uart_param_config(uart_port_t, const uart_config_t*) { return vp_i32(); }
esp_err_t uart_set_pin(uart_port_t, int, int, int, int) { return vp_i32(); }
esp_err_t uart_driver_install(uart_port_t, int, int, int, void*, int) { return vp_i32(); }

#if VP_REL == 0
#define RELATION vp_assume(kth < end);
#elif VP_REL == 1
#define RELATION vp_assume(kth > end);
#else
#define RELATION vp_assume(kth == end);
#endif
#ifdef VP_BYTES     // one byte of the buffer is followed
#define PICK vp_assume(k < size); vp_watch(buffer + k);
#else               // none of them
#define PICK vp_assume(k >= size);
#endif
#ifdef VP_BYTES
#define PORT 1
#else
#define PORT (int)vp_range(0, 2)
#endif
#ifdef VP_FOREVER
#define TIMEOUT 0
#elif defined(VP_LIMITED)
#define TIMEOUT (uint16_t)vp_range(1, 65535)
#else
#define TIMEOUT vp_u16()
#endif
#define SET \
    const uint16_t size = vp_u16(), timeout = TIMEOUT; \
    port = PORT; \
    PacketUart::UartDevice dev(port); \
    PacketUart uart(dev); \
    uint8_t* buffer = (uint8_t*)vp_alloc(size); \
    clockStart = vp_u32(); \
    const size_t k = vp_range(0, 65535); \
    const uint8_t kth = vp_u8(); \
    marked = kth; \
    PICK \
    mark = k
#define CHECK(n) \
    vp_assert(n <= size, "count"); \
    vp_assert(n == delivered, "nothing-lost"); \
    if (k < n) \
    { \
        vp_reach("got"); \
        vp_assert(vp_gs_seen && buffer[k] == kth, "bytes"); \
    }
extern "C" void drv_receive()
{
    SET;
    deadline = timeout;
    bounded = true;
    const size_t n = uart.Receive(buffer, size, timeout);
    CHECK(n);
}
extern "C" void drv_until()
{
    SET;
    const uint8_t end = vp_u8();
    RELATION
    deadline = timeout;
    bounded = timeout != 0;
    const size_t n = uart.ReceiveUntil(buffer, size, end, timeout);
    CHECK(n);
    if (k + 1 < n) vp_assert(buffer[k] != end, "stops-at-end");
    if (k + 1 == n && n < size && !vp_gs_over) vp_assert(buffer[k] == end, "goes-on-to-end");
    if (n == 0 && size) vp_assert(vp_gs_over, "waits");
}
extern "C" void drv_between()
{
    SET;
    const uint8_t begin = vp_u8(), end = vp_u8();
    RELATION
#ifdef VP_FIRST
    vp_assume(k == 0 && kth == begin);
#else
    vp_assume(k > 0);
#endif
    skipTo = begin;
    deadline = timeout;
    bounded = true;
    const size_t n = uart.ReceiveBetween(buffer, size, begin, end, timeout);
    CHECK(n);
    if (k == 0 && n) vp_assert(buffer[k] == begin, "starts");
    if (k > 0 && k + 1 < n) vp_assert(buffer[k] != end, "stops-at-end");
    if (k > 0 && k + 1 == n && n < size && !vp_gs_over) vp_assert(buffer[k] == end, "goes-on-to-end");
}
extern "C" void drv_send()
{
    SET;
    vp_freeze(buffer);
    sent = buffer;
    sentSize = size;
    const size_t n = uart.Send(buffer, size, vp_u32());
    vp_reach("sent");
    vp_assert(n <= size, "sent-count");
}
