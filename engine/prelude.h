#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64; typedef __int128 s128;
typedef void *ptr;
#ifndef VF_COVERMODE
#define VF_COVER(c,n) ((void)0)
#else
#define VF_COVER(c,n) __CPROVER_assert(!(c), "COVER " n)
#endif
#define VF_UNREACHABLE do { __CPROVER_assert(0, "unreachable code or exception path reached"); __CPROVER_assume(0); } while(0)
#define VF_EXTERNAL(n) do { __CPROVER_assert(0, "EXTERNAL function without contract reached: " n); __CPROVER_assume(0); } while(0)
#define VF_DIV(c) __CPROVER_assert(c, "division by zero")
static inline double vf_bits2d(u64 b) { double d; *(u64*)&d = b; return d; }
static inline u64 vf_d2bits(double d) { return *(u64*)&d; }
static inline u32 vf_f2bits(float d) { return *(u32*)&d; }
#define vf_isnan(x) __CPROVER_isnand(x)
static inline double vf_fabs(double d) { return vf_bits2d(vf_d2bits(d) & 0x7fffffffffffffffull); }
static inline double vf_copysign(double a, double b) { return vf_bits2d((vf_d2bits(a) & 0x7fffffffffffffffull) | (vf_d2bits(b) & 0x8000000000000000ull)); }
double trunc(double); double floor(double); double ceil(double); double round(double);
#define vf_trunc trunc
#define vf_floor floor
#define vf_ceil ceil
#define vf_round round
static inline _Bool vf_fpclass(double d, unsigned m) {
  u64 b = vf_d2bits(d), e = (b >> 52) & 0x7ff, f = b & 0xfffffffffffffull; _Bool s = b >> 63;
  unsigned c;
  if (e == 0x7ff) c = f ? ((f >> 51) ? 2u : 1u) : (s ? 4u : 512u);
  else if (e == 0) c = f ? (s ? 16u : 128u) : (s ? 32u : 64u);
  else c = s ? 8u : 256u;
  return (c & m) != 0;
}
static inline u16 vf_bswap16(u16 x) { return (u16)((x >> 8) | (x << 8)); }
static inline u32 vf_bswap32(u32 x) { return (x >> 24) | ((x >> 8) & 0xff00u) | ((x << 8) & 0xff0000u) | (x << 24); }
static inline u64 vf_bswap64(u64 x) { return ((u64)vf_bswap32((u32)x) << 32) | vf_bswap32((u32)(x >> 32)); }
static inline u32 vf_fshl32(u32 a, u32 b, u32 c) { c &= 31; return c ? (a << c) | (b >> (32 - c)) : a; }
static inline u64 vf_fshl64(u64 a, u64 b, u64 c) { c &= 63; return c ? (a << c) | (b >> (64 - c)) : a; }
static inline u8 vf_fshl8(u8 a, u8 b, u8 c) { c &= 7; return (u8)(c ? (a << c) | (b >> (8 - c)) : a); }
static inline u32 vf_fshr32(u32 a, u32 b, u32 c) { c &= 31; return c ? (a << (32 - c)) | (b >> c) : b; }
static inline u32 vf_ctpop32(u32 x) { u32 r = 0; for (int i = 0; i < 32; i++) r += (x >> i) & 1; return r; }
static inline u8 vf_ctpop8(u8 x) { u8 r = 0; for (int i = 0; i < 8; i++) r += (x >> i) & 1; return r; }
static inline u64 vf_ctlz64(u64 x) { u64 r = 0; for (int i = 63; i >= 0; i--) { if ((x >> i) & 1) break; r++; } return r; }
static inline u32 vf_ctlz32(u32 x) { u32 r = 0; for (int i = 31; i >= 0; i--) { if ((x >> i) & 1) break; r++; } return r; }
#ifdef VF_LOOPMEM
static inline void vf_memcpy(ptr d, ptr s, u64 n) { for (u64 i = 0; i < n; i++) ((u8*)d)[i] = ((u8*)s)[i]; }
static inline void vf_memmove(ptr d, ptr s, u64 n) { if ((u8*)d <= (u8*)s) for (u64 i = 0; i < n; i++) ((u8*)d)[i] = ((u8*)s)[i]; else for (u64 i = n; i > 0; i--) ((u8*)d)[i-1] = ((u8*)s)[i-1]; }
static inline void vf_memset(ptr d, u8 c, u64 n) { for (u64 i = 0; i < n; i++) ((u8*)d)[i] = c; }
#elif defined(VF_WATCHP)
/* As VF_WATCH, with up to two watched addresses set by the harness instead of one offset common to all blocks. */
u8 *vf_wp[2];
#define VF_BASE(p) ((u8*)(p) - __CPROVER_POINTER_OFFSET(p))
static inline void vf_blockset(ptr d, ptr s, u8 c, u64 n) {
  u8 *b = VF_BASE(d); u64 o = __CPROVER_POINTER_OFFSET(d); u8 keep[2]; _Bool in[2]; u64 q[2];
  for (int j = 0; j < 2; j++) {
    in[j] = vf_wp[j] != 0 && __CPROVER_same_object(vf_wp[j], d);
    q[j] = __CPROVER_POINTER_OFFSET(vf_wp[j]);
    in[j] = in[j] && q[j] < __CPROVER_OBJECT_SIZE(d);
    keep[j] = 0;
    if (in[j]) keep[j] = q[j] >= o && q[j] - o < n ? (s ? ((u8*)s)[q[j] - o] : c) : b[q[j]]; }
  __CPROVER_havoc_object(b);
  for (int j = 0; j < 2; j++) if (in[j]) __CPROVER_assume(b[q[j]] == keep[j]); }
static inline void vf_memcpy(ptr d, ptr s, u64 n) {
  if (!n) return;
  if (!__CPROVER_DYNAMIC_OBJECT(d)) { memcpy(d, s, n); return; }
  __CPROVER_assert(n <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d) && n <= __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s), "block copy within its blocks");
  vf_blockset(d, s, 0, n); }
#define vf_memmove vf_memcpy
static inline void vf_memset(ptr d, u8 c, u64 n) {
  if (!n) return;
  if (!__CPROVER_DYNAMIC_OBJECT(d)) { memset(d, c, n); return; }
  __CPROVER_assert(n <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d), "block fill within its block");
  vf_blockset(d, 0, c, n); }
#elif defined(VF_WATCH)
/* Contracts of the block operations on heap blocks of unbounded size, instantiated at the eight bytes from the watched
   offset on (the harness watches an arbitrary offset); every other byte of the destination block becomes arbitrary, which
   over-approximates the real effect. */
u64 vf_watch_off;
#define VF_BASE(p) ((u8*)(p) - __CPROVER_POINTER_OFFSET(p))
static inline void vf_memcpy(ptr d, ptr s, u64 n) {
  if (!n) return;
  if (!__CPROVER_DYNAMIC_OBJECT(d)) { memcpy(d, s, n); return; }
  __CPROVER_assert(n <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d) && n <= __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s), "block copy within its blocks");
  u8 *b = VF_BASE(d); u64 o = __CPROVER_POINTER_OFFSET(d), z = __CPROVER_OBJECT_SIZE(d); u8 keep[8];
  for (int j = 0; j < 8; j++) { u64 q = vf_watch_off + j; keep[j] = q < z ? (q >= o && q - o < n ? ((u8*)s)[q - o] : b[q]) : 0; }
  __CPROVER_havoc_object(b);
  for (int j = 0; j < 8; j++) { u64 q = vf_watch_off + j; if (q < z) __CPROVER_assume(b[q] == keep[j]); } }
#define vf_memmove vf_memcpy
static inline void vf_memset(ptr d, u8 c, u64 n) {
  if (!n) return;
  if (!__CPROVER_DYNAMIC_OBJECT(d)) { memset(d, c, n); return; }
  __CPROVER_assert(n <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d), "block fill within its block");
  u8 *b = VF_BASE(d); u64 o = __CPROVER_POINTER_OFFSET(d), z = __CPROVER_OBJECT_SIZE(d); u8 keep[8];
  for (int j = 0; j < 8; j++) { u64 q = vf_watch_off + j; keep[j] = q < z ? (q >= o && q - o < n ? c : b[q]) : 0; }
  __CPROVER_havoc_object(b);
  for (int j = 0; j < 8; j++) { u64 q = vf_watch_off + j; if (q < z) __CPROVER_assume(b[q] == keep[j]); } }
#else
static inline void vf_memcpy(ptr d, ptr s, u64 n) { if (n) memcpy(d, s, n); }
static inline void vf_memmove(ptr d, ptr s, u64 n) { if (n) memmove(d, s, n); }
static inline void vf_memset(ptr d, u8 c, u64 n) { if (n) memset(d, c, n); }
#endif
