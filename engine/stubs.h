/* Trusted models of the C/C++ runtime (the list of names is read from this file by the engine; every one that is used is
   reported as an assumption). */
u8 vf_log_u8; u16 vf_log_u16; u32 vf_log_u32; u64 vf_log_u64;
u8 nondet_vf_u8(void); u16 nondet_vf_u16(void); u32 nondet_vf_u32(void); u64 nondet_vf_u64(void);
u8 F_nd_u8(void) { u8 vf_nd8 = nondet_vf_u8(); return vf_nd8; }
u16 F_nd_u16(void) { u16 vf_nd16 = nondet_vf_u16(); return vf_nd16; }
u32 F_nd_u32(void) { u32 vf_nd32 = nondet_vf_u32(); return vf_nd32; }
u64 F_nd_u64(void) { u64 vf_nd64 = nondet_vf_u64(); return vf_nd64; }
#ifndef VF_P0
#define VF_P0 0
#endif
#ifndef VF_P1
#define VF_P1 0
#endif
#ifndef VF_P2
#define VF_P2 0
#endif
#ifndef VF_P3
#define VF_P3 0
#endif
u32 F_vf_param(u32 k) { return k == 0 ? VF_P0 : k == 1 ? VF_P1 : k == 2 ? VF_P2 : VF_P3; }
void F_vf_nocall(ptr w) { __CPROVER_assert(0, "function outside the contract was called"); }
ptr F_malloc(u64 n) { ptr p = malloc(n); return p; }
ptr F_vf_block(u64 n) { ptr p = malloc(n); return p; }
void F_free(ptr p) { }
#ifdef VF_WATCH
void F_vf_watch(u64 off) { vf_watch_off = off; }
ptr F_realloc(ptr p, u64 n) { u8 *q = malloc(n); if (p) for (int j = 0; j < 8; j++) { u64 w = vf_watch_off + j; if (w < n && w < __CPROVER_OBJECT_SIZE(p)) __CPROVER_assume(q[w] == ((u8*)p)[w]); } return q; }
#else
void F_vf_watch(u64 off) { }
#endif
#ifdef VF_WATCHP
void F_vf_watchp(u32 k, ptr p) { vf_wp[k] = p; }
void F_vf_blockhavoc(ptr p) { __CPROVER_havoc_object(p); }
#else
void F_vf_watchp(u32 k, ptr p) { }
void F_vf_blockhavoc(ptr p) { }
#endif
ptr F__Znwm(u64 n) { ptr p = malloc(n); return p; }
ptr F__Znam(u64 n) { ptr p = malloc(n); return p; }
void F__ZdlPv(ptr p) { free(p); }
void F__ZdaPv(ptr p) { free(p); }
void F__ZdlPvm(ptr p, u64 n) { free(p); }
u64 F_strlen(ptr s) { u64 i = 0; while (((u8*)s)[i]) i++; return i; }
ptr F_memcpy(ptr d, ptr s, u64 n) { vf_memcpy(d, s, n); return d; }
ptr F_memmove(ptr d, ptr s, u64 n) { vf_memmove(d, s, n); return d; }
ptr F_memset(ptr d, u32 c, u64 n) { vf_memset(d, (u8)c, n); return d; }
u32 F_memcmp(ptr a, ptr b, u64 n) { for (u64 i = 0; i < n; i++) if (((u8*)a)[i] != ((u8*)b)[i]) return (u32)((s32)((u8*)a)[i] - (s32)((u8*)b)[i]); return 0; }
u32 F_bcmp(ptr a, ptr b, u64 n) { return F_memcmp(a, b, n); }
u32 F_strcmp(ptr a, ptr b) { u64 i = 0; while (((u8*)a)[i] && ((u8*)a)[i] == ((u8*)b)[i]) i++; return (u32)((s32)((u8*)a)[i] - (s32)((u8*)b)[i]); }
ptr F_strcpy(ptr d, ptr s) { u64 i = 0; while ((((u8*)d)[i] = ((u8*)s)[i])) i++; return d; }
/* C locale */
u32 F_toupper(u32 c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
u32 F_tolower(u32 c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
u32 F_strcasecmp(ptr a, ptr b) { u64 i = 0; while (((u8*)a)[i] && F_tolower(((u8*)a)[i]) == F_tolower(((u8*)b)[i])) i++; return (u32)((s32)F_tolower(((u8*)a)[i]) - (s32)F_tolower(((u8*)b)[i])); }
u32 F_isalpha(u32 c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
u32 F_isdigit(u32 c) { return c >= '0' && c <= '9'; }
u32 F_isalnum(u32 c) { return F_isalpha(c) || F_isdigit(c); }

/* once-only initialisation of function-local statics, destructors at exit */
u32 F___cxa_guard_acquire(ptr g) { return *(u8*)g == 0; }
void F___cxa_guard_release(ptr g) { *(u8*)g = 1; }
u32 F___cxa_atexit(ptr f, ptr a, ptr d) { return 0; }
ptr F__ZNSo3putEc(ptr o, u8 c) { return o; }
/* text written to the trace stream (standard output) is not part of any contract */
ptr F__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(ptr o, ptr s, u64 n) { return o; }
ptr F__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(ptr o, ptr s) { return o; }
ptr F__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(ptr o, u8 c) { return o; }
ptr F__ZNSolsEi(ptr o, u32 n) { return o; }
ptr F__ZNSo9_M_insertIdEERSoT_(ptr o, double d) { return o; }
