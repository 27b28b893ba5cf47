// Contracts of the record list behind unordered writes and mapped reads (TLinkedData).
#include "common.hpp"
#include "gdlib/datastorage.hpp"
using LD = gdlib::datastorage::TLinkedData<int, double>;
// Sorting: parameter 0: dimension, 1: number of records, 2: keys range over that many numbers (bounded: lists of that length)
extern "C" void c_sort()
{
   const int dim = vf_param( 0 ), n = vf_param( 1 ), range = vf_param( 2 );
   static uint64_t mem[( sizeof( LD ) + 7 ) / 8];
   LD &L = *new( mem ) LD( dim, 8 );
   static LD::RecType n0, n1, n2, n3;
   LD::RecType *const node[4] = { &n0, &n1, &n2, &n3 };
   int k[4][3];
   for( int i = 0; i < n; i++ )
   {
      for( int d = 0; d < dim; d++ ) node[i]->RecKeys[d] = k[i][d] = nd_range( 1, range );
      node[i]->RecNext = i + 1 < n ? node[i + 1] : nullptr;
   }
   L.FHead = node[0];
   L.FTail = node[n - 1];
   L.FCount = n;
   L.FMinKey = 1;
   L.FMaxKey = range;
   L.Sort();
   // what the list must be: record i is at the place given by the number of records that come before it, ties in the order of writing
   LD::RecType *at[4], *q = L.FHead;
   for( int i = 0; i < n; i++ )
   {
      at[i] = q;
      ENSURES( q != nullptr, "no record is lost" );
      if( q ) q = q->RecNext;
   }
   ENSURES( q == nullptr, "no record more" );
   for( int i = 0; i < n; i++ )
   {
      int before = 0;
      for( int j = 0; j < n; j++ )
      {
         int c = 0;
         for( int d = dim - 1; d >= 0; d-- ) c = k[j][d] < k[i][d] ? -1 : k[j][d] > k[i][d] ? 1 : c;
         before += ( c < 0 ) | ( ( c == 0 ) & ( j < i ) );
      }
      ENSURES( at[before] == node[i], "every record is at its place in the ascending order" );
      bool same = true;
      for( int d = 0; d < dim; d++ ) same = same & ( node[i]->RecKeys[d] == k[i][d] );
      ENSURES( same, "the keys of a record stay" );
   }
   COVER( true, "end" );
}
// one more record on a list of any length: it goes behind the last, the key range widens as needed
extern "C" void c_add()
{
   const int dim = vf_param( 0 );
   static uint64_t mem[( sizeof( LD ) + 7 ) / 8];
   LD &L = *new( mem ) LD( dim, 8 );
   LD::RecType h, t;
   h.RecNext = nullptr;
   t.RecNext = nullptr;
   const int lo = nd_range( 1, INT32_MAX ), hi = nd_range( 1, INT32_MAX ), c = nd_range( 0, INT32_MAX - 1 );
   if( c )
   {
      L.FHead = &h;
      L.FTail = c == 1 ? &h : &t;
      L.FMinKey = lo;
      L.FMaxKey = hi;
   }
   L.FCount = c;
   int k[20];
   int mn = L.FMinKey, mx = L.FMaxKey;
   for( int d = 0; d < dim; d++ )
   {
      k[d] = nd_range( 1, INT32_MAX );
      if( k[d] < mn ) mn = k[d];
      if( k[d] > mx ) mx = k[d];
   }
   const double v = nd_double();
   auto *tail = L.FTail;
   auto *r = L.AddItem( k, &v );
   ENSURES( L.FCount == c + 1, "counted" );
   ENSURES( L.FTail == r && r->RecNext == nullptr, "it is the last" );
   ENSURES( c == 0 ? L.FHead == r : L.FHead == &h && tail->RecNext == r, "behind the former last" );
   bool same = true;
   for( int d = 0; d < dim; d++ ) same = same & ( r->RecKeys[d] == k[d] );
   uint64_t u;
   memcpy( &u, r->RecData + 4 * dim, 8 );
   ENSURES( same && u == vf_bits( v ), "with its keys and values" );
   ENSURES( dim == 0 || ( L.FMinKey == mn && L.FMaxKey == mx ), "key range" );
   COVER( c > 5, "end" );
}
