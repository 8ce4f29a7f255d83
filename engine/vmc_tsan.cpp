// Receives the compiler's memory access callbacks (-fsanitize=thread without the tsan runtime).
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
void vmc_access(uint64_t a, size_t n, int wr);
void vmc_access_rmw(uint64_t a, size_t n);

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
 void __tsan_read##n(void* a) { vmc_access((uint64_t)a, n, 0); } \
 void __tsan_write##n(void* a) { vmc_access((uint64_t)a, n, 1); } \
 void __tsan_unaligned_read##n(void* a) { vmc_access((uint64_t)a, n, 0); } \
 void __tsan_unaligned_write##n(void* a) { vmc_access((uint64_t)a, n, 1); } \
 void __tsan_volatile_read##n(void* a) { vmc_access((uint64_t)a, n, 0); } \
 void __tsan_volatile_write##n(void* a) { vmc_access((uint64_t)a, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void* a) { vmc_access((uint64_t)a, n, 0); } \
 void __tsan_unaligned_volatile_write##n(void* a) { vmc_access((uint64_t)a, n, 1); } \
 void __tsan_read_write##n(void* a) { vmc_access((uint64_t)a, n, 0); vmc_access((uint64_t)a, n, 1); } \
 void __tsan_unaligned_read_write##n(void* a) { vmc_access((uint64_t)a, n, 0); vmc_access((uint64_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { vmc_access((uint64_t)a, n, 0); }
void __tsan_write_range(void* a, size_t n) { vmc_access((uint64_t)a, n, 1); }

#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { vmc_access((uint64_t)a, sizeof(T), 0); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { vmc_access((uint64_t)a, sizeof(T), 1); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = (T)(o + v); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = (T)(o - v); return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { vmc_access_rmw((uint64_t)a, sizeof(T)); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

// replacements for boost's inline-assembly atomics (see engine/override)
uint32_t vmc_atomic_read32(volatile uint32_t* a) { vmc_access((uint64_t)a, 4, 0); return *a; }
void vmc_atomic_write32(volatile uint32_t* a, uint32_t v) { vmc_access((uint64_t)a, 4, 1); *a = v; }
uint32_t vmc_atomic_cas32(volatile uint32_t* a, uint32_t with, uint32_t cmp) { vmc_access_rmw((uint64_t)a, 4); uint32_t o = *a; if (o == cmp) *a = with; return o; }
uint32_t vmc_atomic_add32(volatile uint32_t* a, uint32_t v) { vmc_access_rmw((uint64_t)a, 4); uint32_t o = *a; *a = o + v; return o; }
}
