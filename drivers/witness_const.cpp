// Programs that must be accepted (VP_OK) or rejected (VP_BAD) by the compiler; each is compiled on its own.
#include "MemoryView.h"
#include "BufferedOut.h"
#include "PersistentStorage.h"
using namespace embedded;
struct Pod { int a; char b[4]; };
extern MemoryView<uint8_t> wr;
extern MemoryView<const uint8_t> rd;
extern MemoryView<char> wc;
extern MemoryView<const char> rc;
extern MemoryView<Pod> wp;
extern MemoryView<const Pod> rp;
extern std::array<uint8_t, 4> wa;
extern const std::array<uint8_t, 4> ra;
extern uint8_t cwa[4];
extern const uint8_t cra[4];
extern BufferedOut out;
extern const BufferedOut cout_;
void take(MemoryView<uint8_t>);
void takeConst(MemoryView<const uint8_t>);
void f()
{
#if VP_OK == 1
    takeConst(wr);                      // adding const is fine
#elif VP_OK == 2
    wr[0] = 1; wr.front() = 2; wr.back() = 3; *wr.begin() = 4; *wr.data() = 5; *wr.rbegin() = 6;
#elif VP_OK == 3
    wp.as_writable_bytes()[0] = 1;
#elif VP_OK == 4
    MemoryView<uint8_t> a(wa), b(cwa); MemoryView<const uint8_t> d(cra);
#elif VP_OK == 5
    wr.subspan(1)[0] = 1; wr.first(1)[0] = 1; wr.last(1)[0] = 1;
#elif VP_OK == 6
    BufferedOut o(wc); PersistentStorage p(wr);
#elif VP_OK == 7
    out.data()[0] = 1; (void)cout_.data()[0];
#elif VP_OK == 8
    std::string_view s = rc, t = wc;
#elif VP_OK == 9
    (void)(uint8_t*)out; (void)(const uint8_t*)cout_;
#elif VP_BAD == 1
    take(rd);
#elif VP_BAD == 2
    rd[0] = 1;
#elif VP_BAD == 3
    rd.front() = 1;
#elif VP_BAD == 4
    rd.back() = 1;
#elif VP_BAD == 5
    *rd.begin() = 1;
#elif VP_BAD == 6
    *rd.data() = 1;
#elif VP_BAD == 7
    *rd.rbegin() = 1;
#elif VP_BAD == 8
    *wr.cbegin() = 1;
#elif VP_BAD == 9
    *wr.crbegin() = 1;
#elif VP_BAD == 10
    rd.as_writable_bytes();
#elif VP_BAD == 11
    rp.as_writable_bytes();
#elif VP_BAD == 12
    wp.as_bytes()[0] = 1;
#elif VP_BAD == 13
    rd.subspan(1)[0] = 1;
#elif VP_BAD == 14
    rd.first(1)[0] = 1;
#elif VP_BAD == 15
    rd.last(1)[0] = 1;
#elif VP_BAD == 16
    MemoryView<uint8_t> v(ra);
#elif VP_BAD == 17
    MemoryView<uint8_t> v(cra);
#elif VP_BAD == 18
    MemoryView<uint8_t> v = rd;
#elif VP_BAD == 19
    wr = rd;
#elif VP_BAD == 20
    MemoryView<uint8_t> v(wc);          // another element type
#elif VP_BAD == 21
    MemoryView<const uint8_t> v(rc);
#elif VP_BAD == 22
    MemoryView<uint8_t> v(rd.begin(), rd.size());
#elif VP_BAD == 23
    BufferedOut o(rc);
#elif VP_BAD == 24
    PersistentStorage p(rd);
#elif VP_BAD == 25
    cout_.data()[0] = 1;
#elif VP_BAD == 26
    const_cast<const BufferedOut&>(out) << 'c';
#elif VP_BAD == 27
    (void)static_cast<uint8_t*>(cout_);
#elif VP_BAD == 28
    const_cast<char&>(out.asStringView()[0]); out.asStringView()[0] = 'c';
#elif VP_BAD == 29
    for (auto& x : rd) x = 0;
#elif VP_BAD == 30
    cout_.addChar('c');
#endif
}
