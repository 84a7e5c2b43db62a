#include "vp.h"
#include "SerialOut.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
// Serial output: what has been inserted leaves in order, once.  PacketUart is the environment here.
using namespace embedded;
static size_t sent, mark;
static uint8_t marked;
uint8_t vp_gs_done;
uint16_t PacketUart::Send(const uint8_t* data, uint16_t n, uint32_t) const
{
    vp_touch(data, n);
    if (mark >= sent && mark < sent + n)
    {
        vp_assert(data[mark - sent] == marked, "byte");
        vp_gs_done = 1;
    }
    sent += n;
    return n;
}
// everything is sent, once: 2 m + VP_ODD characters
extern "C" void drv()
{
    const size_t size = vp_range(VP_LEAST, 1u << 30);
    char* buffer = (char*)vp_alloc(size);
    PacketUart::UartDevice* device = nullptr;
    PacketUart uart(*device);
    SerialOut out(MemoryView<char>(buffer, size), uart);
    const size_t m = vp_range(0, 1u << 29), n = 2 * m + VP_ODD;
    vp_assume(n <= size);
    mark = 1u << 31;
    out << ConstBytesView((const uint8_t*)vp_alloc(m), m);
    if (VP_ODD) out << (const char*)"x";
    vp_reach("filled");
#if VP_LINE
    out << SerialOut::endl{};
    vp_assert(sent == n + (size != 0), "all-sent");
#else
    out << SerialOut::end{};
    vp_assert(sent == n, "all-sent");
#endif
    // nothing is left in the buffer
    sent = 0;
    out << SerialOut::end{};
    vp_assert(sent == 0, "emptied");
    vp_reach("emptied");
}
// each byte is sent as it stands in the buffer, in its place
extern "C" void drv_bytes()
{
    const size_t size = vp_range(1, 1u << 30), m = vp_range(0, 1u << 30), k = vp_range(0, 1u << 30);
    vp_assume(k < size);
    char* buffer = (char*)vp_alloc(size);
    PacketUart::UartDevice* device = nullptr;
    PacketUart uart(*device);
    SerialOut out(MemoryView<char>(buffer, size), uart);
    char* text = (char*)vp_alloc(m + 1);
    text[m] = 0;
    out << (const char*)text;
    vp_watch(buffer + k);
    const uint8_t kth = buffer[k];
    mark = k;
    marked = kth;
    out << SerialOut::end{};
    vp_reach("bytes");
    vp_assert(mark == k && marked == kth, "environment");
    vp_assert(vp_gs_done || sent <= k, "sent-byte");
}
// the end of a line, at any fill level
extern "C" void drv_line()
{
    const size_t size = vp_range(1, 1u << 30);
    char* buffer = (char*)vp_alloc(size);
    PacketUart::UartDevice* device = nullptr;
    PacketUart uart(*device);
    SerialOut out(MemoryView<char>(buffer, size), uart);
    const size_t m = vp_range(0, 1u << 29), n = 2 * m + VP_ODD;
    vp_assume(n <= size);
    out << ConstBytesView((const uint8_t*)vp_alloc(m), m);
    if (VP_ODD) out << (const char*)"x";
    mark = n;
    marked = '\n';
    out << SerialOut::endl{};
    vp_reach("line");
    vp_assert(mark == n && sent == n + 1 && vp_gs_done, "newline-last");
}
