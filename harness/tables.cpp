// Contracts of the name table (TXStrHashList): hash and equality agree; look-up, insertion and renaming on short chains with
// arbitrary names, whatever the hash function does (it is replaced by its contract: equal for names that differ in case only).
// VF-REPLACE gdlib::utils::toupper => stub_upper
// VF-REPLACE gdlib::strhash::TXStrHashList<int>::HashAll => stub_HashAll
#include "common.hpp"
using Base = gdlib::strhash::TXStrHashList<int>;
using Bucket = gdlib::strhash::THashBucket<int>;
extern "C" void stub_HashAll( Base * ) { ENSURES( false, "the table is built anew only when it is missing or full" ); }
static char up( char c ) { return c >= 'a' && c <= 'z' ? (char) ( c - 32 ) : c; }
#define LEN 3
struct Name { char s[LEN + 1]; };
static bool eq( const Name &a, const Name &b )
{
   bool e = true, end = false;
   for( int i = 0; i < LEN; i++ )
   {
      e = e & ( end | ( up( a.s[i] ) == up( b.s[i] ) ) );
      end = end | ( a.s[i] == 0 );
   }
   return e;
}
static bool same( const char *p, const Name &b )
{
   bool e = true, end = false;
   for( int i = 0; i <= LEN; i++ )
      if( !end ) { e = e & ( p[i] == b.s[i] ); end = b.s[i] == 0; }
   return e;
}
static void any( Name &n, int len )
{
   for( int i = 0; i <= LEN; i++ ) n.s[i] = i < len ? (char) nd_u8() : 0;
}
// toupper: for every character (used by the hash through this contract)
static const char *g_cur;
static char *g_up;
static int g_at;
extern "C" char stub_upper( char c )
{
#ifndef VF_NATIVE
   if( g_cur && g_at < 63 && c == g_cur[g_at] ) return g_up[g_at++];// the upper case form, once per position
#endif
   return up( c );
}
#define MAXLEN 63
static void anylong( char *s, int len )
{
   for( int i = 0; i <= MAXLEN; i++ ) s[i] = i < len ? (char) nd_u8() : 0;
}
// parameter 0: longest name; equality is equality up to letter case
extern "C" void c_equal()
{
   static uint64_t mem[( sizeof( Base ) + 7 ) / 8];
   Base &L = *new( mem ) Base();
   static char a[MAXLEN + 1], b[MAXLEN + 1];
   anylong( a, vf_param( 0 ) );
   anylong( b, vf_param( 0 ) );
   bool e = true, end = false;
   for( int i = 0; i < MAXLEN; i++ )
   {
      e = e & ( end | ( up( a[i] ) == up( b[i] ) ) );
      end = end | ( a[i] == 0 );
   }
   ENSURES( L.EntryEqual( a, b ) == e, "names are equal exactly when they differ in letter case only" );
   COVER( e && a[0] != b[0], "case" );
}
// parameter 0: length, 1: table size; the hash value is a place in the table and the same for names that differ in case only
extern "C" void c_hash()
{
   static uint64_t mem[( sizeof( Base ) + 7 ) / 8];
   Base &L = *new( mem ) Base();
   const int len = vf_param( 0 );
   L.HashTableSize = vf_param( 1 );
   static char a[MAXLEN + 1], b[MAXLEN + 1], u[MAXLEN + 1];
   for( int i = 0; i < len; i++ )
   {
      a[i] = (char) nd_u8();
      b[i] = (char) nd_u8();
      REQUIRES( a[i] != 0 && b[i] != 0 && up( a[i] ) == up( b[i] ) );
      u[i] = up( a[i] );
   }
   g_up = u;
   g_cur = a;
   g_at = 0;
   const int h = L.Hash( a );
   g_cur = b;
   g_at = 0;
   const int g = L.Hash( b );
   g_cur = nullptr;
   ENSURES( h >= 0 && h < L.HashTableSize, "the hash value is a place in the table" );
   ENSURES( h == g, "names that differ in letter case only have the same hash value" );
   COVER( a[0] != b[0], "case" );
}
struct List : Base
{
   int Hash( const char *s ) override { return up( s[0] ) & 1; }
};
// parameter 0: operation, 1: entries, 2: position (rename), length of the new name (add)
extern "C" void c_table()
{
   static uint64_t mem[( sizeof( List ) + 7 ) / 8];
   List &L = *new( mem ) List();
   const int op = vf_param( 0 ), n = vf_param( 1 );
   static Bucket b0, b1, b2;
   Bucket *const b[3] { &b0, &b1, &b2 };
   static Name nm[3], s;
   L.OneBased = true;
   L.PHashTable = std::make_unique<std::vector<Bucket *>>( 2 );
   L.HashTableSize = 2;
   L.ReHashCnt = INT32_MAX;
   L.Buckets.reserve( 4 );
   for( int i = 0; i < n; i++ )
   {
      any( nm[i], 2 );
      for( int j = 0; j < i; j++ ) REQUIRES( !eq( nm[i], nm[j] ) );
      b[i]->StrP = nm[i].s;
      b[i]->StrNr = i;
      b[i]->Obj = 100 + i;
      const int h = up( nm[i].s[0] ) & 1;
      b[i]->NextBucket = ( *L.PHashTable )[h];
      ( *L.PHashTable )[h] = b[i];
      L.Buckets.emplace_back( b[i] );
      L.FCount++;
   }
   const int sl = op == 1 ? vf_param( 2 ) : 2;
   any( s, sl );
   if( op == 1 )
      for( int i = 0; i < sl; i++ ) REQUIRES( s.s[i] != 0 );
   int at = -1;
   for( int i = 0; i < n; i++ ) if( eq( nm[i], s ) ) at = i + 1;
   if( op == 0 ) ENSURES( L.IndexOf( s.s ) == at, "look-up by name" );
   if( op == 1 )
   {
      const int r = L.AddObject( s.s, sl, 7 );
      ENSURES( r == ( at > 0 ? at : n + 1 ), "an existing name keeps its number, a new one gets the next" );
      ENSURES( L.FCount == n + ( at < 0 ) && L.Buckets.size() == (size_t) L.FCount, "a name is entered once" );
      if( at < 0 ) ENSURES( same( L.GetString( n + 1 ), s ) && *L.GetObject( n + 1 ) == 7, "with its spelling and object" );
      ENSURES( L.IndexOf( s.s ) == r, "and is found" );
   }
   if( op == 2 )
   {
      const int k = vf_param( 2 );
      REQUIRES( at < 0 );
      static Name old;
      old = nm[k - 1];
      L.RenameEntry( k, s.s );
      ENSURES( same( L.GetString( k ), s ), "the new name" );
      ENSURES( L.IndexOf( s.s ) == k, "found under the new name" );
      ENSURES( L.IndexOf( old.s ) == -1, "and no longer under the old" );
      ENSURES( L.FCount == n && *L.GetObject( k ) == 99 + k, "it stays the same entry" );
   }
   for( int i = 0; i < n; i++ )
      if( op != 2 || i + 1 != vf_param( 2 ) )
      {
         ENSURES( same( L.GetString( i + 1 ), nm[i] ) && *L.GetObject( i + 1 ) == 100 + i, "the other entries stay" );
         if( op ) ENSURES( L.IndexOf( nm[i].s ) == i + 1, "and are found" );
      }
   COVER( op != 0 || at == n, "end" );
}

// A chain of any length: the first entry and one arbitrary later entry are followed; at the third comparison the loop is at an
// arbitrary later entry again (induction over the chain). Equality is used through its contract: it tells for each entry.
static Bucket ch0, ch1, ch2;
static Bucket *const chp[3] { &ch0, &ch1, &ch2 };
#define ch( i ) ( *chp[i] )
static int g_cmp;
static bool g_res[3];
static const char *g_s;
struct Chain : Base
{
   int HV {};
   int Hash( const char *s ) override
   {
      ENSURES( s == g_s, "the name looked for is hashed" );
      return HV;
   }
   bool EntryEqual( const char *a, const char *b ) override
   {
      const char *const e = g_cmp < 3 ? ch( g_cmp ).StrP : nullptr;
      ENSURES( g_cmp < 3 && ( ( a == e && b == g_s ) || ( a == g_s && b == e ) ), "the entries of the chain are compared in turn" );
      REQUIRES( g_cmp < 2 );// the state at the third entry is that at the second one: covered
      return g_res[g_cmp++];
   }
};
static void chain( Chain &L, Bucket **tab, Bucket **arr )
{
   static char nm[3][2];
   L.OneBased = nd_bool();
   L.HV = nd_range( 0, 7 );
   for( int i = 0; i < 8; i++ ) tab[i] = nullptr;
   const int n = nd_range( 0, 3 );
   for( int i = 0; i < 3; i++ )
   {
      ch( i ).StrP = nm[i];
      ch( i ).StrNr = nd_range( 0, INT32_MAX - 2 );
      ch( i ).Obj = nd_int();
      ch( i ).NextBucket = i + 1 < n ? &ch( i + 1 ) : nullptr;
      g_res[i] = nd_bool();
   }
   g_cmp = 0;
   if( n ) tab[L.HV] = &ch( 0 );
}
// parameter 0: 0 look-up, 1 entering a name, 1: length of the name
extern "C" void c_chain()
{
#ifdef VF_NATIVE
   vf_assume( false );
#endif
   static uint64_t mem[( sizeof( Chain ) + 7 ) / 8];
   Chain &L = *new( mem ) Chain();
   static std::vector<Bucket *> V;
   static Bucket *tab[8], *arr[4];
   ( (Bucket ***) &V )[0] = tab;
   ( (Bucket ***) &V )[1] = ( (Bucket ***) &V )[2] = tab + 8;
   *(void **) &L.PHashTable = &V;
   ( (Bucket ***) &L.Buckets )[0] = arr;
   ( (Bucket ***) &L.Buckets )[1] = arr + 1;
   ( (Bucket ***) &L.Buckets )[2] = arr + 4;
   L.HashTableSize = 8;
   chain( L, tab, arr );
   Bucket *const head = tab[L.HV];
   const int base = L.OneBased ? 1 : 0, n = L.FCount = nd_range( 0, INT32_MAX - 2 ), len = vf_param( 1 );
   L.ReHashCnt = nd_range( 1, INT32_MAX );
   REQUIRES( n < L.ReHashCnt );
   static char s[MAXLEN + 1];
   for( int i = 0; i < len; i++ )
   {
      s[i] = (char) nd_u8();
      REQUIRES( s[i] != 0 );
   }
   g_s = s;
   const int o = nd_int(), other = nd_range( 0, 7 );
   Bucket *const oh = tab[other];
   const int r = vf_param( 0 ) ? L.AddObject( s, (size_t) len, o ) : L.IndexOf( s );
   int at = -1;
   if( ch( 0 ).NextBucket && head && !g_res[0] && g_res[1] ) at = 1;
   if( head && g_res[0] ) at = 0;
   if( at >= 0 )
   {
     
      ENSURES( r == ch( at ).StrNr + base, "a name in the table is found under its number" );
      ENSURES( L.FCount == n && tab[L.HV] == head, "and the table stays" );
   }
   else if( !vf_param( 0 ) ) ENSURES( r == -1, "a name that is in no entry of the chain is not found" );
   else
   {
      ENSURES( r == n + base && L.FCount == n + 1, "a new name gets the next number" );
      Bucket *const nb = arr[1];
      ENSURES( ( (Bucket ***) &L.Buckets )[1] == arr + 2 && tab[L.HV] == nb && nb != head && nb->NextBucket == head, "it is linked in front of the chain of its hash value and added to the list" );
      ENSURES( nb->StrNr == n && nb->Obj == o, "with its number and object" );
      bool same = true;
      for( int i = 0; i <= len; i++ ) same = same & ( nb->StrP[i] == s[i] );
      ENSURES( same, "and its spelling" );
   }
   if( other != L.HV ) ENSURES( tab[other] == oh, "other chains stay" );
   COVER( at < 0 && head, "new" );
   COVER( at == 1, "found" );
   ( (Bucket ***) &L.Buckets )[0] = ( (Bucket ***) &L.Buckets )[1] = ( (Bucket ***) &L.Buckets )[2] = nullptr;
   *(void **) &L.PHashTable = nullptr;
}
