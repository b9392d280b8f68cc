// The run-time side of gcc's -fsanitize=thread instrumentation: every access is a possible switch.
#include "vrt.h"
#include <stdint.h>
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *) { vrt::mem_access(); } \
    void __tsan_write##n(void *) { vrt::mem_access(); } \
    void __tsan_unaligned_read##n(void *) { vrt::mem_access(); } \
    void __tsan_unaligned_write##n(void *) { vrt::mem_access(); } \
    void __tsan_volatile_read##n(void *) { vrt::mem_access(); } \
    void __tsan_volatile_write##n(void *) { vrt::mem_access(); } \
    void __tsan_unaligned_volatile_read##n(void *) { vrt::mem_access(); } \
    void __tsan_unaligned_volatile_write##n(void *) { vrt::mem_access(); } \
    void __tsan_read##n##_pc(void *, void *) { vrt::mem_access(); } \
    void __tsan_write##n##_pc(void *, void *) { vrt::mem_access(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { vrt::mem_access(); }
void __tsan_write_range(void *, unsigned long) { vrt::mem_access(); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { vrt::mem_access(); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { vrt::mem_access(); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { vrt::mem_access(); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) \
    { vrt::mem_access(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) \
    { vrt::mem_access(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) \
    { vrt::mem_access(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { vrt::mem_access(); }
void __tsan_atomic_signal_fence(int) {}
}
