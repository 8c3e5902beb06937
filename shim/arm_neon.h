// The few NEON intrinsics the code uses, with their architectural meaning, on generic vectors (gcc).
#ifndef SHIM_NEON_H
#define SHIM_NEON_H
#include <stdint.h>
typedef uint8_t __Uint8x8_t __attribute__((vector_size(8)));
typedef uint8_t __Uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t __Uint16x4_t __attribute__((vector_size(8)));
typedef uint16_t __Uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t __Uint32x2_t __attribute__((vector_size(8)));
typedef uint32_t __Uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t __Uint64x1_t __attribute__((vector_size(8)));
typedef uint64_t __Uint64x2_t __attribute__((vector_size(16)));
typedef __Uint8x16_t uint8x16_t; typedef __Uint8x8_t uint8x8_t; typedef __Uint16x8_t uint16x8_t; typedef __Uint64x2_t uint64x2_t;
#define SH static inline __attribute__((always_inline))
SH __Uint8x16_t vld1q_u8(const uint8_t *p) { __Uint8x16_t v; __builtin_memcpy(&v, p, 16); return v; }
SH void vst1q_u8(uint8_t *p, __Uint8x16_t v) { __builtin_memcpy(p, &v, 16); }
SH __Uint8x16_t vaddq_u8(__Uint8x16_t a, __Uint8x16_t b) { return a + b; }
SH __Uint16x8_t vaddq_u16(__Uint16x8_t a, __Uint16x8_t b) { return a + b; }
SH __Uint64x2_t vaddq_u64(__Uint64x2_t a, __Uint64x2_t b) { return a + b; }
SH __Uint8x16_t vsubq_u8(__Uint8x16_t a, __Uint8x16_t b) { return a - b; }
SH __Uint16x8_t vsubq_u16(__Uint16x8_t a, __Uint16x8_t b) { return a - b; }
SH __Uint16x8_t vmulq_u16(__Uint16x8_t a, __Uint16x8_t b) { return a * b; }
SH __Uint16x8_t vshrq_n_u16(__Uint16x8_t a, int n) { return a >> n; }
SH __Uint16x8_t vshlq_n_u16(__Uint16x8_t a, int n) { return a << n; }
SH __Uint8x16_t vandq_u8(__Uint8x16_t a, __Uint8x16_t b) { return a & b; }
SH __Uint8x16_t vorrq_u8(__Uint8x16_t a, __Uint8x16_t b) { return a | b; }
SH __Uint8x16_t veorq_u8(__Uint8x16_t a, __Uint8x16_t b) { return a ^ b; }
SH __Uint8x16_t vdupq_n_u8(uint8_t x) { return x - (__Uint8x16_t){}; }
SH __Uint16x8_t vdupq_n_u16(uint16_t x) { return x - (__Uint16x8_t){}; }
SH __Uint8x16_t vzip1q_u8(__Uint8x16_t a, __Uint8x16_t b) { __Uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[i]; r[2 * i + 1] = b[i]; } return r; }
SH __Uint8x16_t vzip2q_u8(__Uint8x16_t a, __Uint8x16_t b) { __Uint8x16_t r; for (int i = 0; i < 8; i++) { r[2 * i] = a[8 + i]; r[2 * i + 1] = b[8 + i]; } return r; }
SH __Uint8x8_t vget_low_u8(__Uint8x16_t a) { __Uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
SH __Uint8x8_t vget_high_u8(__Uint8x16_t a) { __Uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[8 + i]; return r; }
SH __Uint16x8_t vmovl_u8(__Uint8x8_t a) { __Uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
SH __Uint8x16_t vqtbl1q_u8(__Uint8x16_t t, __Uint8x16_t x) { __Uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = x[i] < 16 ? t[x[i]] : 0; return r; }
#define vqtbl1q_s8 vqtbl1q_u8
#endif
