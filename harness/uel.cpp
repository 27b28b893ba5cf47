// Contracts of the element table above the name table: user numbers. The name table and the number map are used through their
// contracts (a name gets some entry; the map is an arbitrary finite function), so tables and maps of any size are covered.
// VF-REPLACE gdx::TUELTable::AddObject => stub_Add
// VF-REPLACE gdx::TIntegerMapping::GetHighestIndex => stub_High
// VF-REPLACE gdx::TIntegerMapping::SetMapping => stub_Set
// VF-REPLACE gdx::TIntegerMapping::GetMapping => stub_Get
#include "common.hpp"
#ifdef VF_NATIVE
#define NATIVE_SKIP vf_assume( false )
#else
#define NATIVE_SKIP
#endif
using Bucket = gdlib::strhash::THashBucket<int>;
static int g_en, g_adds, g_addmap, g_high, g_k, g_mk, g_q, g_mq, g_sets, g_from, g_to;
static const char *g_name;
static size_t g_len;
extern "C" int stub_Add( TUELTable *, const char *s, size_t n, int map )
{
   g_adds++;
   g_name = s;
   g_len = n;
   g_addmap = map;
   return g_en;
}
extern "C" int stub_High( const TIntegerMapping * ) { return g_high; }
extern "C" int stub_Get( const TIntegerMapping *, int i ) { return i < 0 ? -1 : i == g_k ? g_mk : i == g_q ? g_mq : i > g_high ? -1 : nd_int(); }
extern "C" void stub_Set( TIntegerMapping *, int from, int to )
{
   g_sets++;
   g_from = from;
   g_to = to;
   if( from == g_k ) g_mk = to;
   if( from == g_q ) g_mq = to;
   if( from > g_high ) g_high = from;
}
// parameter 0: 0 number for a known element, 1 registration by string, 2 registration with a number
extern "C" void c_user()
{
   NATIVE_SKIP;
   VF_OBJ( TUELTable, U );
   static Bucket b0, b1, b2, b3;
   static Bucket *arr[4] { &b0, &b1, &b2, &b3 };
   *(void **) &U.Buckets = arr;
   ( (Bucket ***) &U.Buckets )[1] = arr + 4;
   ( (Bucket ***) &U.Buckets )[2] = arr + 4;
   U.OneBased = true;
   U.FCount = 4;
   static uint64_t mem[( sizeof( TIntegerMapping ) + 7 ) / 8];
   *(void **) &U.UsrUel2Ent = mem;
   const int op = vf_param( 0 ), other = nd_range( 1, 4 );
   for( auto p: arr ) p->Obj = nd_range( -1, INT32_MAX );
   g_en = nd_range( 1, 4 );
   g_adds = g_sets = 0;
   const int h = g_high = nd_range( 0, INT32_MAX - 1 ), k = g_k = nd_range( 0, INT32_MAX ), Q = nd_int();
   g_q = Q;
   g_mk = nd_range( -1, INT32_MAX );
   g_mq = k == Q ? g_mk : Q < 0 ? -1 : nd_range( -1, INT32_MAX );
   REQUIRES( k <= h || g_mk == -1 );
   REQUIRES( Q <= h || g_mq == -1 );
   const int mk = g_mk, mq = g_mq, u = *U.GetObject( g_en ), o = *U.GetObject( other );
   static char nm[64];
   const size_t len = nd_u64() & 63;
   U.FMapToUserStatus = (TUELUserMapStatus) nd_range( 0, 4 );
   const int r = op == 0 ? U.NewUsrUel( g_en ) : op == 1 ? U.AddUsrNew( nm, len ) : U.AddUsrIndxNew( nm, len, Q );
   ENSURES( op == 0 ? g_adds == 0 : g_adds == 1 && g_name == nm && g_len == len && g_addmap == -1, "the name is entered in the table once, without a number" );
   int want = u, now = u;
   if( op < 2 )
   {
      if( u < 0 ) want = now = h + 1;
   }
   else if( u >= 0 ) want = u == Q ? u : -1;
   else if( Q < 0 || mq >= 0 ) want = -1;
   else want = now = Q;
   ENSURES( r == want, "the number given: the existing one, the next free one, the requested one, or a refusal" );
   ENSURES( *U.GetObject( g_en ) == now, "the element has that number" );
   if( other != g_en ) ENSURES( *U.GetObject( other ) == o, "no other element changes its number" );
   const bool set = u < 0 && now >= 0;
   ENSURES( g_mk == ( set && k == now ? g_en : mk ), "the number leads to the element and no other number changes" );
   ENSURES( g_sets == ( set ? 1 : 0 ) && ( !set || ( g_from == now && g_to == g_en ) ), "the map is changed at that number only" );
   if( r >= 0 && set ) ENSURES( U.FMapToUserStatus == TUELUserMapStatus::map_unknown, "the order status is computed anew" );
   ENSURES( U.GetUserMap( g_en ) == now, "the number is reported" );
   *(void **) &U.UsrUel2Ent = nullptr;
   ( (Bucket ***) &U.Buckets )[0] = ( (Bucket ***) &U.Buckets )[1] = ( (Bucket ***) &U.Buckets )[2] = nullptr;
   COVER( set, "given" );
   COVER( !set, "kept" );
}
// parameter 0: number of elements; the status tells whether numbers grow with the elements
extern "C" void c_status()
{
   static uint64_t mem[( sizeof( TUELTable ) + 7 ) / 8];
   TUELTable &U = *new( mem ) TUELTable();
   static Bucket b[8];
   const int n = vf_param( 0 );
   U.Buckets.reserve( 8 );
   for( int i = 0; i < n; i++ )
   {
      b[i].Obj = nd_range( -1, INT32_MAX );
      U.Buckets.emplace_back( &b[i] );
   }
   U.FCount = n;
   const auto s = U.GetMapToUserStatus();
   bool up = true, all = true, prefix = true;
   int last = -1;
   for( int i = 0; i < n; i++ )
      if( b[i].Obj < 0 ) all = false;
      else
      {
         if( b[i].Obj <= last ) up = false;
         if( !all ) prefix = false;
         last = b[i].Obj;
      }
   ENSURES( ( s == TUELUserMapStatus::map_unsorted ) == !up, "unsorted exactly when the numbers do not grow with the elements" );
   ENSURES( ( s == TUELUserMapStatus::map_sortfull ) == ( up && all ), "full exactly when every element has a number and they grow" );
   ENSURES( ( s == TUELUserMapStatus::map_sortgrow ) == ( up && !all && prefix ), "growing exactly when the numbered elements come first and their numbers grow" );
   ENSURES( ( s == TUELUserMapStatus::map_sorted ) == ( up && !prefix ), "sorted otherwise" );
   ENSURES( U.GetMapToUserStatus() == s, "asked again" );
   U.Buckets.clear();
   COVER( up && !prefix, "end" );
}
