#include "vp.h"
#include "SpiDevice.h"
#include "SpiBus.h"
// The SPI peripheral.  The byte number 'mark' of the transfer is followed.
using namespace embedded;
uint8_t vp_gs_open, vp_gs_brackets;
static size_t moved, mark;
static uint8_t sendByte, answer;
static bool sending;
static uint32_t frequency;
static const uint32_t EXPECT = 4000000;
void SPIClass::beginTransaction(SPISettings s)
{
    vp_assert(!vp_gs_open && !vp_gs_brackets, "one-bracket");
    vp_assert(s.clock == frequency && s.order == MSBFIRST && s.mode == SPI_MODE0, "settings");
    vp_gs_open = 1;
    vp_gs_brackets = 1;
}
void SPIClass::endTransaction() { vp_assert(vp_gs_open, "bracket-open"); vp_gs_open = 0; }
uint8_t SPIClass::transfer(uint8_t data)
{
    vp_assert(vp_gs_open, "outside-bracket");
    uint8_t r = vp_u8();
    if (moved == mark)
    {
        if (sending) vp_assert(data == sendByte, "sent-byte");
        r = answer;
    }
    ++moved;
    return r;
}
void SPIClass::transferBytes(const uint8_t* in, uint8_t* out, uint32_t n)
{
    vp_assert(vp_gs_open, "outside-bracket");
    if (in) vp_touch(in, n);
    if (sending) vp_assert(in != nullptr, "sent-block");
    if (mark >= moved && mark < moved + n && sending) vp_assert(in[mark - moved] == sendByte, "sent-byte");
    if (out)
    {
        vp_havoc(out, n);
        if (mark >= moved && mark < moved + n) out[mark - moved] = answer;
    }
    moved += n;
}
void SPIClass::write(uint8_t d) { transfer(d); }
void SPIClass::writeBytes(const uint8_t* d, uint32_t n) { transferBytes(d, nullptr, n); }

extern "C" void drv()
{
    const size_t size = vp_u16();
    frequency = EXPECT;
    SPIClass spi;
    SpiBus bus(spi);
    SpiDevice device(bus);
    const uint8_t kth = vp_u8(), got = vp_u8();
    const size_t k = vp_range(0, 65534);
    uint8_t* tx = (uint8_t*)vp_alloc(size);
#if VP_MODE == 3    // in place
    uint8_t* rx = tx;
#else
    uint8_t* rx = (uint8_t*)vp_alloc(size);
#endif
#ifdef VP_BYTES
    vp_assume(k < size);
    vp_watch(tx + k);
    if (VP_MODE != 3) vp_watch(rx + k);
    tx[k] = kth;
#else
    vp_assume(k >= size);
#endif
    if (VP_MODE != 3) vp_freeze(tx);
    mark = k;
    sendByte = kth;
    answer = got;
    sending = VP_MODE != 1;
#if VP_MODE == 0
    const bool ok = device.sendSync(tx, size, vp_u32());
#elif VP_MODE == 1
    const bool ok = device.receiveSync(rx, size, vp_u32());
#else
    const bool ok = device.sendAndReceive(tx, rx, size, vp_u32());
#endif
    vp_prove(mark == k && sendByte == kth && answer == got, "environment");   // (keeps these values known)
    vp_reach("moved");
    vp_assert(!vp_gs_open, "bracket-closed");
    vp_assert(ok, "success");
    vp_assert(moved == size, "whole-length");
#ifdef VP_BYTES
    if (VP_MODE) vp_assert(rx[k] == got, "received-byte");
#endif
}
