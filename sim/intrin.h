// Included ahead of every source file of the library image: the memory operands of these builtins are not
// instrumented by g++ -fsanitize=thread, so the accesses are reported to the simulator here.
#pragma once
#if defined(__x86_64__)
#include <immintrin.h>
#ifdef __cplusplus
extern "C" {
#endif
__attribute__((visibility("default"))) void __tsan_read8(void*);
__attribute__((visibility("default"))) void __tsan_read16(void*);
__attribute__((visibility("default"))) void __tsan_read_range(void*, unsigned long);
__attribute__((visibility("default"))) void __tsan_write8(void*);
__attribute__((visibility("default"))) void __tsan_write16(void*);
__attribute__((visibility("default"))) void __tsan_write_range(void*, unsigned long);
#ifdef __cplusplus
}
#endif
#define _mm256_broadcast_pd(...) ({ auto p_ = (__VA_ARGS__); __tsan_read16((void*)p_); _mm256_broadcast_pd(p_); })
#define _mm256_broadcast_sd(...) ({ auto p_ = (__VA_ARGS__); __tsan_read8((void*)p_); _mm256_broadcast_sd(p_); })
#define _mm_stream_pd(p, ...) ({ auto p_ = (p); __tsan_write16((void*)p_); _mm_stream_pd(p_, __VA_ARGS__); })
#define _mm_stream_si128(p, ...) ({ auto p_ = (p); __tsan_write16((void*)p_); _mm_stream_si128(p_, __VA_ARGS__); })
#define _mm256_stream_pd(p, ...) ({ auto p_ = (p); __tsan_write_range((void*)p_, 32); _mm256_stream_pd(p_, __VA_ARGS__); })
#define _mm256_stream_si256(p, ...) ({ auto p_ = (p); __tsan_write_range((void*)p_, 32); _mm256_stream_si256(p_, __VA_ARGS__); })
#endif
