// Run-time side of -fsanitize=thread instrumentation: every access is a potential preemption point.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
namespace ds { void memPoint(); }
#define P ds::memPoint()
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64; typedef unsigned __int128 a128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { P; }
void __tsan_vptr_read(void**) { P; }
void __tsan_read_range(void*, unsigned long) { P; }
void __tsan_write_range(void*, unsigned long) { P; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { P; return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { P; return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { P; return memset(d, c, n); }
void __tsan_read1(void*) { P; }
void __tsan_unaligned_read1(void*) { P; }
void __tsan_volatile_read1(void*) { P; }
void __tsan_unaligned_volatile_read1(void*) { P; }
void __tsan_write1(void*) { P; }
void __tsan_unaligned_write1(void*) { P; }
void __tsan_volatile_write1(void*) { P; }
void __tsan_unaligned_volatile_write1(void*) { P; }
void __tsan_read_write1(void*) { P; }
void __tsan_unaligned_read_write1(void*) { P; }
void __tsan_read2(void*) { P; }
void __tsan_unaligned_read2(void*) { P; }
void __tsan_volatile_read2(void*) { P; }
void __tsan_unaligned_volatile_read2(void*) { P; }
void __tsan_write2(void*) { P; }
void __tsan_unaligned_write2(void*) { P; }
void __tsan_volatile_write2(void*) { P; }
void __tsan_unaligned_volatile_write2(void*) { P; }
void __tsan_read_write2(void*) { P; }
void __tsan_unaligned_read_write2(void*) { P; }
void __tsan_read4(void*) { P; }
void __tsan_unaligned_read4(void*) { P; }
void __tsan_volatile_read4(void*) { P; }
void __tsan_unaligned_volatile_read4(void*) { P; }
void __tsan_write4(void*) { P; }
void __tsan_unaligned_write4(void*) { P; }
void __tsan_volatile_write4(void*) { P; }
void __tsan_unaligned_volatile_write4(void*) { P; }
void __tsan_read_write4(void*) { P; }
void __tsan_unaligned_read_write4(void*) { P; }
void __tsan_read8(void*) { P; }
void __tsan_unaligned_read8(void*) { P; }
void __tsan_volatile_read8(void*) { P; }
void __tsan_unaligned_volatile_read8(void*) { P; }
void __tsan_write8(void*) { P; }
void __tsan_unaligned_write8(void*) { P; }
void __tsan_volatile_write8(void*) { P; }
void __tsan_unaligned_volatile_write8(void*) { P; }
void __tsan_read_write8(void*) { P; }
void __tsan_unaligned_read_write8(void*) { P; }
void __tsan_read16(void*) { P; }
void __tsan_unaligned_read16(void*) { P; }
void __tsan_volatile_read16(void*) { P; }
void __tsan_unaligned_volatile_read16(void*) { P; }
void __tsan_write16(void*) { P; }
void __tsan_unaligned_write16(void*) { P; }
void __tsan_volatile_write16(void*) { P; }
void __tsan_unaligned_volatile_write16(void*) { P; }
void __tsan_read_write16(void*) { P; }
void __tsan_unaligned_read_write16(void*) { P; }
a8 __tsan_atomic8_load(const volatile a8* a, int) { P; return __atomic_load_n(a, 5); }
void __tsan_atomic8_store(volatile a8* a, a8 v, int) { P; __atomic_store_n(a, v, 5); }
a8 __tsan_atomic8_exchange(volatile a8* a, a8 v, int) { P; return __atomic_exchange_n(a, v, 5); }
a8 __tsan_atomic8_fetch_add(volatile a8* a, a8 v, int) { P; return __atomic_fetch_add(a, v, 5); }
a8 __tsan_atomic8_fetch_sub(volatile a8* a, a8 v, int) { P; return __atomic_fetch_sub(a, v, 5); }
a8 __tsan_atomic8_fetch_and(volatile a8* a, a8 v, int) { P; return __atomic_fetch_and(a, v, 5); }
a8 __tsan_atomic8_fetch_or(volatile a8* a, a8 v, int) { P; return __atomic_fetch_or(a, v, 5); }
a8 __tsan_atomic8_fetch_xor(volatile a8* a, a8 v, int) { P; return __atomic_fetch_xor(a, v, 5); }
a8 __tsan_atomic8_fetch_nand(volatile a8* a, a8 v, int) { P; return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic8_compare_exchange_strong(volatile a8* a, a8* c, a8 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
int __tsan_atomic8_compare_exchange_weak(volatile a8* a, a8* c, a8 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
a8 __tsan_atomic8_compare_exchange_val(volatile a8* a, a8 c, a8 v, int, int) { P; __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
a16 __tsan_atomic16_load(const volatile a16* a, int) { P; return __atomic_load_n(a, 5); }
void __tsan_atomic16_store(volatile a16* a, a16 v, int) { P; __atomic_store_n(a, v, 5); }
a16 __tsan_atomic16_exchange(volatile a16* a, a16 v, int) { P; return __atomic_exchange_n(a, v, 5); }
a16 __tsan_atomic16_fetch_add(volatile a16* a, a16 v, int) { P; return __atomic_fetch_add(a, v, 5); }
a16 __tsan_atomic16_fetch_sub(volatile a16* a, a16 v, int) { P; return __atomic_fetch_sub(a, v, 5); }
a16 __tsan_atomic16_fetch_and(volatile a16* a, a16 v, int) { P; return __atomic_fetch_and(a, v, 5); }
a16 __tsan_atomic16_fetch_or(volatile a16* a, a16 v, int) { P; return __atomic_fetch_or(a, v, 5); }
a16 __tsan_atomic16_fetch_xor(volatile a16* a, a16 v, int) { P; return __atomic_fetch_xor(a, v, 5); }
a16 __tsan_atomic16_fetch_nand(volatile a16* a, a16 v, int) { P; return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic16_compare_exchange_strong(volatile a16* a, a16* c, a16 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
int __tsan_atomic16_compare_exchange_weak(volatile a16* a, a16* c, a16 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
a16 __tsan_atomic16_compare_exchange_val(volatile a16* a, a16 c, a16 v, int, int) { P; __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
a32 __tsan_atomic32_load(const volatile a32* a, int) { P; return __atomic_load_n(a, 5); }
void __tsan_atomic32_store(volatile a32* a, a32 v, int) { P; __atomic_store_n(a, v, 5); }
a32 __tsan_atomic32_exchange(volatile a32* a, a32 v, int) { P; return __atomic_exchange_n(a, v, 5); }
a32 __tsan_atomic32_fetch_add(volatile a32* a, a32 v, int) { P; return __atomic_fetch_add(a, v, 5); }
a32 __tsan_atomic32_fetch_sub(volatile a32* a, a32 v, int) { P; return __atomic_fetch_sub(a, v, 5); }
a32 __tsan_atomic32_fetch_and(volatile a32* a, a32 v, int) { P; return __atomic_fetch_and(a, v, 5); }
a32 __tsan_atomic32_fetch_or(volatile a32* a, a32 v, int) { P; return __atomic_fetch_or(a, v, 5); }
a32 __tsan_atomic32_fetch_xor(volatile a32* a, a32 v, int) { P; return __atomic_fetch_xor(a, v, 5); }
a32 __tsan_atomic32_fetch_nand(volatile a32* a, a32 v, int) { P; return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic32_compare_exchange_strong(volatile a32* a, a32* c, a32 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
int __tsan_atomic32_compare_exchange_weak(volatile a32* a, a32* c, a32 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
a32 __tsan_atomic32_compare_exchange_val(volatile a32* a, a32 c, a32 v, int, int) { P; __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
a64 __tsan_atomic64_load(const volatile a64* a, int) { P; return __atomic_load_n(a, 5); }
void __tsan_atomic64_store(volatile a64* a, a64 v, int) { P; __atomic_store_n(a, v, 5); }
a64 __tsan_atomic64_exchange(volatile a64* a, a64 v, int) { P; return __atomic_exchange_n(a, v, 5); }
a64 __tsan_atomic64_fetch_add(volatile a64* a, a64 v, int) { P; return __atomic_fetch_add(a, v, 5); }
a64 __tsan_atomic64_fetch_sub(volatile a64* a, a64 v, int) { P; return __atomic_fetch_sub(a, v, 5); }
a64 __tsan_atomic64_fetch_and(volatile a64* a, a64 v, int) { P; return __atomic_fetch_and(a, v, 5); }
a64 __tsan_atomic64_fetch_or(volatile a64* a, a64 v, int) { P; return __atomic_fetch_or(a, v, 5); }
a64 __tsan_atomic64_fetch_xor(volatile a64* a, a64 v, int) { P; return __atomic_fetch_xor(a, v, 5); }
a64 __tsan_atomic64_fetch_nand(volatile a64* a, a64 v, int) { P; return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic64_compare_exchange_strong(volatile a64* a, a64* c, a64 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
int __tsan_atomic64_compare_exchange_weak(volatile a64* a, a64* c, a64 v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }
a64 __tsan_atomic64_compare_exchange_val(volatile a64* a, a64 c, a64 v, int, int) { P; __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
void __tsan_atomic_thread_fence(int) { P; }
void __tsan_atomic_signal_fence(int) {}
}
