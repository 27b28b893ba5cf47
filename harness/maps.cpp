// Contracts of the growing containers below the tables: user number mapping and bit sets, for every index and any state.
#include "common.hpp"
#include "gdlib/gmsobj.hpp"
#ifdef VF_NATIVE
static void vf_watch( uint64_t ) {}
static void *mk( size_t n ) { auto *p = (uint8_t *) malloc( n ? n : 1 ); for( size_t i = 0; i < n; i++ ) p[i] = (uint8_t) ( i * 37 + 11 ); return p; }
#else
extern "C" void vf_watch( uint64_t off );
extern "C" void *vf_block( uint64_t n );// a fresh block of n arbitrary bytes
static void *mk( size_t n ) { return vf_block( n ); }
#endif
// requires: a well formed mapping of any capacity; ensures: the assignment takes effect, every other index keeps its value,
// indices never assigned are unmapped, the highest index is the maximum of the indices assigned
extern "C" void c_intmap()
{
   VF_OBJ( TIntegerMapping, M );
#ifdef VF_NATIVE
   const int64_t cap = nd_range( 0, 1 << 20 );
#else
   const int64_t cap = (int64_t) ( nd_u64() & 0xffffffffu );
#endif
   REQUIRES( cap == 0 || ( cap >= 1024 && cap <= (int64_t) INT32_MAX + 1 ) );
   M.FCapacity = cap;
   M.FMapBytes = cap * 4;
   M.FMAXCAPACITY = (int64_t) INT32_MAX + 1;
   M.PMap = cap ? (int *) mk( (size_t) cap * 4 ) : nullptr;
   M.FHighestIndex = nd_range( 0, INT32_MAX );
   REQUIRES( M.FHighestIndex < cap || ( M.FHighestIndex == 0 && cap == 0 ) );
#ifdef VF_NATIVE
   const int F = nd_range( 0, 1 << 22 ), k = nd_range( 0, 1 << 22 );
#else
   const int F = nd_range( 0, INT32_MAX ), k = nd_range( 0, INT32_MAX );
#endif
   const int T = nd_int();
   vf_watch( (uint64_t) k * 4 );
   const int h = M.GetHighestIndex(), o = M.GetMapping( k );
   ENSURES( k < cap || o == -1, "an index beyond the capacity is unmapped" );
   M.SetMapping( F, T );
   ENSURES( M.GetMapping( F ) == T, "the assigned index has its value" );
   if( k != F ) ENSURES( M.GetMapping( k ) == o, "every other index keeps its value" );
   ENSURES( M.GetHighestIndex() == ( F > h ? F : h ), "highest index" );
   ENSURES( F < M.FCapacity && M.FCapacity <= (int64_t) INT32_MAX + 1 && M.FCapacity >= cap && M.FMapBytes == M.FCapacity * 4 && M.PMap, "well formed again" );
   ENSURES( M.GetMapping( -nd_range( 1, INT32_MAX ) ) == -1, "negative indices are unmapped" );
   COVER( F >= cap && cap > 5000000, "grown" );
   COVER( F < cap && k < cap, "in place" );
}
// requires: a well formed bit set of any size; ensures: the bit takes its value, every other bit keeps its own, bits never
// set are clear. The growth loop is followed for indices up to 30 times the present size (30*256 bytes for an empty set).
extern "C" void c_bitset()
{
   VF_OBJ( gdlib::gmsobj::TBooleanBitArray, B );
#ifdef VF_NATIVE
   const int alloc = nd_range( 0, 1 << 14 );
#else
   const int alloc = nd_range( 0, 1 << 28 );
#endif
   REQUIRES( alloc == 0 || alloc >= 256 );
   B.FAllocated = alloc;
   B.PData = alloc ? (uint8_t *) mk( (size_t) alloc ) : nullptr;
   const int64_t bits = 8 * (int64_t) alloc, lim = 30 * ( alloc ? bits / 4 : 2048 );
   B.FHighIndex = nd_range( -1, INT32_MAX );
   REQUIRES( B.FHighIndex < bits );
   const int N = nd_range( INT32_MIN, INT32_MAX - 8 ), k = nd_range( INT32_MIN, INT32_MAX - 8 );
   REQUIRES( N < lim );
   const bool V = nd_bool();
   vf_watch( k >= 0 ? (uint64_t) ( k >> 3 ) : 0 );
   const int h = B.GetHighIndex();
   if( k > B.FHighIndex && k < bits ) REQUIRES( ( B.PData[k >> 3] & ( 1 << ( k & 7 ) ) ) == 0 );// bits beyond the high index are clear
   const bool o = B.GetBit( k );
   ENSURES( ( k >= 0 && k <= h ) || !o, "outside the range no bit is set" );
   B.SetBit( N, V );
   ENSURES( B.GetBit( k ) == ( k == N && N >= 0 ? V : o ), "exactly the assigned bit changes" );
   ENSURES( B.GetHighIndex() == ( V && N > h ? N : h ), "high index" );
   ENSURES( B.FAllocated >= alloc && B.GetHighIndex() < 8 * (int64_t) B.FAllocated, "well formed again" );
   if( k > B.FHighIndex && k < 8 * (int64_t) B.FAllocated ) ENSURES( ( B.PData[k >> 3] & ( 1 << ( k & 7 ) ) ) == 0, "bits beyond the high index stay clear" );
   COVER( N >= bits && V && alloc > 100000 && k < N && k >= 0, "grown" );
   COVER( N < bits && k == N && !V, "cleared" );
}
// requires: a well formed filter; ensures: membership is exactly the registered numbers up to the filter's maximum
extern "C" void c_filter()
{
   VF_OBJ( TDFilter, D, 1, 1 );
   const int alloc = nd_range( 0, 1 << 12 );
   REQUIRES( alloc == 0 || alloc >= 256 );
   D.FiltMap.FAllocated = alloc;
   D.FiltMap.PData = alloc ? (uint8_t *) mk( (size_t) alloc ) : nullptr;
   D.FiltMap.FHighIndex = nd_range( -1, 1 << 15 );
   REQUIRES( D.FiltMap.FHighIndex < 8 * (int64_t) alloc );
   D.FiltMaxUel = nd_range( 0, INT32_MAX );
   const int N = nd_range( 0, 1 << 11 ), k = nd_int();
   vf_watch( k >= 0 ? (uint64_t) ( k >> 3 ) : 0 );
   if( k > D.FiltMap.FHighIndex && k < 8 * (int64_t) alloc ) REQUIRES( ( D.FiltMap.PData[k >> 3] & ( 1 << ( k & 7 ) ) ) == 0 );
   const bool o = D.InFilter( k );
   ENSURES( !o || ( k >= 0 && k <= D.FiltMaxUel ), "nothing outside the user numbers is in a filter" );
   D.SetFilter( N, true );
   ENSURES( D.InFilter( k ) == ( k == N ? N <= D.FiltMaxUel : o ), "exactly the registered number is added" );
   COVER( o, "member" );
}
