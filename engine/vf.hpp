// Contract vocabulary shared by all harnesses. The same harness text is (a) compiled by clang to LLVM IR, translated to C
// and discharged by CBMC for all values of the nd_*() inputs, and (b) compiled natively against the real code to replay
// counterexamples (VF_NATIVE).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void vf_assert( bool c, const char *name );// ensures / invariant clause
void vf_assume( bool c );                  // requires clause
void vf_cover( bool c, const char *name ); // vacuity guard: must be reachable with c true
uint8_t nd_u8( void );
uint16_t nd_u16( void );
uint32_t nd_u32( void );
uint64_t nd_u64( void );
void vf_havoc( void *p );                  // the whole object p points to (a named global) becomes arbitrary
void vf_nocall( const char *what );
int vf_param( int k );                    // harness parameter k (fixed per obligation)
}
inline int nd_int() { return (int) nd_u32(); }
inline bool nd_bool() { return ( nd_u8() & 1 ) != 0; }
inline double nd_double() { uint64_t u = nd_u64(); double d; __builtin_memcpy( &d, &u, 8 ); return d; }
inline uint64_t vf_bits( double d ) { uint64_t u; __builtin_memcpy( &u, &d, 8 ); return u; }
#ifdef VF_NATIVE
extern "C" int64_t vf_native_range( int64_t lo, int64_t hi );
inline int nd_range( int lo, int hi ) { return (int) vf_native_range( lo, hi ); }
inline uint64_t nd_choice( uint64_t n ) { return (uint64_t) vf_native_range( 0, (int64_t) n - 1 ); }
#else
inline int nd_range( int lo, int hi ) { int x = nd_int(); vf_assume( ( x >= lo ) & ( x <= hi ) ); return x; }
#endif
#define ENSURES( c, name ) vf_assert( ( c ), name )
#define REQUIRES( c ) vf_assume( ( c ) )
#define COVER( c, name ) vf_cover( ( c ), name )
