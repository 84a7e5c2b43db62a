// Vocabulary of the analysis drivers.  None of this is ever executed: the abstract interpreter gives each function its
// meaning (see models.py).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
bool vp_bool();                         // any value of the type
uint8_t vp_u8();
uint16_t vp_u16();
uint32_t vp_u32();
uint64_t vp_u64();
int8_t vp_i8();
int16_t vp_i16();
int32_t vp_i32();
int64_t vp_i64();
float vp_f32();
size_t vp_range(size_t lo, size_t hi);  // any value of [lo, hi]
size_t vp_choose(size_t n);              // 0 ... n-1, each analysed on its own
void vp_assume(bool);
void vp_assert(bool, const char* id);   // obligation
void vp_prove(bool, const char* id);    // obligation that is not assumed afterwards
void vp_reach(const char* id);          // non-vacuity: this point must be reachable in the analysis
void vp_split(bool);                    // case distinction
void* vp_alloc(size_t);                 // object of n bytes with arbitrary content
void* vp_alloc_raw(size_t);             // object of n bytes, each carrying the mark "never written"
void vp_kill(void*);                    // the object does not exist any more
void vp_freeze(void*);                  // from here on, each write to the object is a violation
void vp_watch(const void*);             // follow this one byte exactly
bool vp_written(const void*);           // the byte has been written since vp_alloc_raw
void vp_touch(const void*, size_t);     // an environment function reads n bytes here
void vp_havoc(void*, size_t);           // an environment function writes n arbitrary bytes here
bool vp_same_object(const void*, const void*);
size_t vp_offset(const void*);          // offset inside its object
void vp_pin(int64_t);                   // cells holding exactly this value are told apart from other cells
void vp_records(void*);                 // the object holds a chain of records, each starting with its own 16-bit length
void vp_forget(void*, size_t);          // the analysis drops what it knows about these bytes (no access)
}
#define vp_any(n) (vp_u8() < (n))
