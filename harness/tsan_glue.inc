// The calls that code compiled with -fsanitize=thread makes, for a runtime that defines acc(), atb() and ate().
extern "C" {
#define RA __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, 1, 0, RA); else acc(p, 8, 0, 0, RA); } void __tsan_vptr_read(void** p) { acc(p, 8, 0, 0, RA); }
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, 0, 0, RA); } void __tsan_write_range(void* p, unsigned long n) { acc(p, n, 1, 0, RA); }
#define RW(N) void __tsan_read##N(void* p) { acc(p, N, 0, 0, RA); } void __tsan_write##N(void* p) { acc(p, N, 1, 0, RA); } void __tsan_unaligned_read##N(void* p) { acc(p, N, 0, 0, RA); } void __tsan_unaligned_write##N(void* p) { acc(p, N, 1, 0, RA); } \
  void __tsan_volatile_read##N(void* p) { acc(p, N, 0, 0, RA); } void __tsan_volatile_write##N(void* p) { acc(p, N, 1, 0, RA); } void __tsan_read##N##_pc(void* p, void* q) { acc(p, N, 0, 0, q); } void __tsan_write##N##_pc(void* p, void* q) { acc(p, N, 1, 0, q); }
RW(1) RW(2) RW(4) RW(8) RW(16)
}
extern "C" {
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* a, int mo) { atb(a, sizeof(T), 0, mo, RA); return *a; } \
 void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo == 5 ? 3 : mo, RA); *a = v; ate(a, 1, mo); } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_exchange_n(a, v, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_fetch_add(a, v, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_fetch_sub(a, v, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_fetch_and(a, v, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_fetch_or(a, v, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atb(a, sizeof(T), 1, mo, RA); T o = __atomic_fetch_xor(a, v, 5); ate(a, 1, mo); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { atb(a, sizeof(T), 1, mo, RA); int o = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); ate(a, 1, mo); return o; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { atb(a, sizeof(T), 1, mo, RA); int o = __atomic_compare_exchange_n(a, e, v, 0, 5, 5); ate(a, 1, mo); return o; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { atb(a, sizeof(T), 1, mo, RA); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); ate(a, 1, mo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
