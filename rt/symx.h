// Harness API.  In the solver-checked build these calls are interpreted by the
// symbolic executor; in the native build (native.cc) they replay concrete values.
#pragma once
#include <cstdint>
#include <cstring>
extern "C" {
int32_t symx_i32(const char* name);
uint32_t symx_u32(const char* name);
int64_t symx_i64(const char* name);
uint64_t symx_u64(const char* name);
uint8_t symx_u8(const char* name);
uint16_t symx_u16(const char* name);
bool symx_bool(const char* name);
float symx_f32(const char* name);
double symx_f64(const char* name);
int64_t symx_range(const char* name, int64_t lo, int64_t hi);
int32_t symx_irange(const char* name, int32_t lo, int32_t hi);
float symx_f32_range(const char* name, float lo, float hi);
double symx_f64_range(const char* name, double lo, double hi);
int symx_choose(const char* name, int n);        // explores every value 0..n-1
void symx_assume(bool c);
void symx_assert(bool c, const char* label);
void symx_reach(const char* label);              // vacuity witness
void symx_observe(const char* name, uint64_t v); // compared with the native run
int symx_is_symbolic();
int symx_is_real();                              // real-arithmetic reading active
uint64_t symx_concretize(uint64_t v);
void symx_expect_crash_begin(const char* label); // from here the program must abort
void symx_expect_crash_end(const char* label);
void symx_crash_ok(int on);                      // aborts end the path without verdict
void symx_print(const char* s, uint64_t v);
// threads (used by the absl::Mutex shim and the std::thread model)
void symx_mutex_lock(void* m);
void symx_mutex_unlock(void* m);
bool symx_mutex_held(void* m);
void symx_await(void* m, int first);
bool symx_await_timed(void* m, int first);
int symx_thread_create(void (*fn)(void*), void* arg);
void symx_thread_join(int id);
int symx_thread_self();
void symx_yield();
[[noreturn]] void symx_check_failed(const char* what);
void symx_main();
}
static inline void symx_observe_d(const char* n, double d) { uint64_t b; memcpy(&b, &d, 8); symx_observe(n, b); }
static inline void symx_observe_f(const char* n, float d) { uint32_t b; memcpy(&b, &d, 4); symx_observe(n, b); }
#define SYMX_ASSERT(c) symx_assert((c), #c)
