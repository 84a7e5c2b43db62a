#include "vp.h"
#include "I2CDevice.h"
#include "I2CBus.h"
using namespace embedded;
uint8_t vp_gs_open, vp_gs_ended, vp_gs_asked, vp_gs_seen;
static uint16_t address;
static size_t size, taken, accepted, got, mark;
static uint8_t answer, status;
static const uint8_t* data;
void TwoWire::beginTransmission(uint16_t a)
{
    vp_assert(!vp_gs_open && !vp_gs_ended, "one-transmission");
    vp_assert(a == address, "address");
    vp_gs_open = 1;
}
uint8_t TwoWire::endTransmission(bool) { vp_assert(vp_gs_open, "open"); vp_gs_open = 0; vp_gs_ended = 1; return status; }
size_t TwoWire::write(uint8_t) { vp_assert(vp_gs_open, "open"); return vp_choose(2); }
size_t TwoWire::write(const uint8_t* d, size_t n)
{
    vp_assert(vp_gs_open, "open");
    vp_assert(d == data && n == size, "all-data");
    return accepted;
}
size_t TwoWire::requestFrom(uint16_t a, size_t n, bool)
{
    vp_assert(!vp_gs_asked, "one-request");
    vp_assert(a == address && n == size, "request");
    vp_gs_asked = 1;
    vp_assume(got <= n);
    return got;
}
int TwoWire::read()
{
    vp_assert(vp_gs_asked, "asked");
    if (taken >= got) return -1;
    uint8_t v = vp_u8();
    if (taken == mark) { v = answer; vp_gs_seen = 1; }
    ++taken;
    return v;
}
size_t TwoWire::readBytes(uint8_t* to, size_t n)
{
    vp_assert(vp_gs_asked, "asked");
    size_t r = n <= got - taken ? n : got - taken;
    vp_havoc(to, r);
    if (mark >= taken && mark < taken + r) { to[mark - taken] = answer; vp_gs_seen = 1; }
    taken += r;
    return r;
}
int TwoWire::available() { return got - taken; }
#define SET \
    const uint16_t n = vp_u16(); \
    TwoWire wire; \
    I2CBus bus(wire); \
    address = vp_u16() & 0x7F; \
    I2CDevice device(bus, address, vp_u32()); \
    size = n; \
    uint8_t* buffer = (uint8_t*)vp_alloc(n); \
    data = buffer
extern "C" void drv_send()
{
    SET;
    vp_freeze(buffer);
    accepted = vp_range(0, 65535);
    vp_assume(accepted <= n);
    status = vp_u8();
    const bool ok = device.sendSync(buffer, n);
    vp_reach("sent");
    vp_assert(!vp_gs_open && vp_gs_ended, "closed");
    vp_assert(ok == (status == 0 && accepted == size), "error-reported");
}
extern "C" void drv_receive()
{
    SET;
    got = vp_range(0, 255);
    const uint8_t kth = vp_u8();
    const size_t k = vp_range(0, 65534);
    answer = kth;
    mark = k;
#ifdef VP_BYTES
    vp_assume(k < n);
    vp_watch(buffer + k);
#else
    vp_assume(k >= n);
#endif
    const bool ok = device.receiveSync(buffer, n);
    vp_reach("received");
    vp_prove(mark == k && answer == kth, "environment");
    vp_assert(ok == (got == n), "error-reported");
    if (ok) vp_assert(taken == n, "all-taken");
#ifdef VP_BYTES
    if (ok) vp_assert(buffer[k] == kth, "byte");
#endif
}
