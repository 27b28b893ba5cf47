// Contracts of the reading methods above the raw reader. The raw reader is used through its contract: it delivers a record that
// differs from the previous one first at the reported position, or ends. Element tables, filters and slice maps are arbitrary.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
// VF-REPLACE gdx::TGXFileObj::DoRead => stub_DoRead
// VF-REPLACE gdx::TGXFileObj::AddToErrorListDomErrs => stub_DomErr
// VF-REPLACE gdx::TDFilter::InFilter => stub_InFilter
// VF-REPLACE gdx::TUELTable::NewUsrUel => stub_NewUsr
// VF-REPLACE gdx::TIntegerMapping::GetMapping => stub_Get
// VF-REPLACE gdx::TGXFileObj::gdxDataReadDone => stub_Done
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
#ifdef VF_NATIVE
#define NATIVE_SKIP vf_assume( false )
#else
#define NATIVE_SKIP
#endif
using Bucket = gdlib::strhash::THashBucket<int>;
#define NE 3
#define MD 20
static Bucket b0, b1, b2;
static Bucket *arr[NE] { &b0, &b1, &b2 };
static int g_d, g_reads, g_nrec, g_rec[3][MD], g_errs, g_done, g_next, g_news, g_chg[3];
static bool g_first, g_in[MD][NE], g_off[2][MD];
static double g_val[3];
static uint64_t g_filt[MD][( sizeof( TDFilter ) + 7 ) / 8];
static TGXFileObj *g_w;
// delivers the records of g_rec in turn, then ends
extern "C" bool stub_DoRead( TGXFileObj *W, double *vals, int &dim )
{
   if( g_reads >= g_nrec ) return false;
   const int c = g_chg[g_reads];// the first changed position (0: scalar)
   for( int i = 0; i < g_d; i++ )
   {
      if( i + 1 < c ) REQUIRES( W->LastElem[i] == g_rec[g_reads][i] );
      if( i + 1 == c && !g_first ) REQUIRES( W->LastElem[i] != g_rec[g_reads][i] );
      W->LastElem[i] = g_rec[g_reads][i];
   }
   dim = c;
   g_first = false;
   vals[0] = g_val[g_reads];
   g_reads++;
   return true;
}
extern "C" void stub_DomErr( TGXFileObj *, const std::array<int, GLOBAL_MAX_INDEX_DIM> &e, const double *v )
{
   const int k = g_errs++;
   bool ok = k < 2 && k == g_reads - 1;
   if( ok )
      for( int i = 0; i < g_d; i++ ) ok = ok & ( e[i] == ( g_off[k][i] ? -g_rec[k][i] : g_rec[k][i] ) );
   ENSURES( ok && vf_bits( v[0] ) == vf_bits( g_val[g_reads - 1] ), "a record left out is reported once, with its values and the offending elements marked" );
}
static int usr( int e ) { return arr[e - 1]->Obj; }
extern "C" bool stub_InFilter( const TDFilter *f, int v )
{
   if( v < 0 ) return false;
   bool r = false;
   for( int i = 0; i < g_d; i++ )
      if( (const void *) f == (const void *) g_filt[i] )
         for( int e = 0; e < NE; e++ )
            if( arr[e]->Obj == v ) r = g_in[i][e];
   return r;
}
extern "C" int stub_NewUsr( TUELTable *, int e )
{
   ENSURES( e >= 1 && e <= NE, "an element of the table" );
   if( arr[e - 1]->Obj < 0 )
   {
      arr[e - 1]->Obj = g_next++;
      g_news++;
   }
   return arr[e - 1]->Obj;
}
static int g_k, g_mk;
static const void *g_map[MD];
extern "C" int stub_Get( const TIntegerMapping *m, int i )
{
   int r = nd_int();
   for( int d = 0; d < g_d; d++ )
      if( (const void *) m == g_map[d] ) r = i >= 1 && i <= NE ? ( i * 5 + d * 31 ) : -1;
   return r;
}
extern "C" int stub_Done( TGXFileObj * )
{
   g_done++;
   return true;
}
static void table( TGXFileObj &W, TUELTable &U )
{
   *(void **) &U.Buckets = arr;
   ( (Bucket ***) &U.Buckets )[1] = arr + NE;
   ( (Bucket ***) &U.Buckets )[2] = arr + NE;
   U.OneBased = true;
   U.FCount = NE;
   *(void **) &W.UELTable = &U;
   for( int i = 0; i < NE; i++ )
   {
      arr[i]->Obj = nd_range( -1, 1 << 30 );
      for( int j = 0; j < i; j++ ) REQUIRES( arr[i]->Obj < 0 || arr[i]->Obj != arr[j]->Obj );
   }
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   W.CurSyPtr = nullptr;
   W.FCurrentDim = g_d;
   g_w = &W;
   g_reads = g_errs = g_done = g_news = 0;
   g_first = false;
   for( int r = 0; r < 3; r++ )
   {
      for( int i = 0; i < g_d; i++ ) g_rec[r][i] = nd_range( 1, NE );
      g_val[r] = nd_double();
   }
}
static void release( TGXFileObj &W, TUELTable &U )
{
   *(void **) &W.UELTable = nullptr;
   ( (Bucket ***) &U.Buckets )[0] = ( (Bucket ***) &U.Buckets )[1] = ( (Bucket ***) &U.Buckets )[2] = nullptr;
}
static bool passes( const TGXFileObj &W, int d, int e )
{
   switch( W.DomainList[d].DAction )
   {
      case TgdxDAction::dm_filter: return usr( e ) >= 0 && g_in[d][e - 1];
      case TgdxDAction::dm_strict: return usr( e ) >= 0;
      default: return true;
   }
}
// parameter 0: dimension, 1: records left out before the one delivered, 2: first changed position of each record (5 bits each;
// 0 for the first: first read of the symbol), 3: action per position (2 bits each: unmapped, filter, strict, expand; negative: any)
extern "C" void c_mapped()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TUELTable, U );
   g_d = vf_param( 0 );
   const int skip = vf_param( 1 );
   table( W, U );
   const bool first = ( vf_param( 2 ) & 31 ) == 0;
   for( int r = 0; r < 3; r++ ) g_chg[r] = ( vf_param( 2 ) >> ( 5 * r ) ) & 31;
   if( first ) g_chg[0] = 1;
   W.fmode = fr_mapr_data;
   g_first = first;
   g_nrec = skip + 1;
   g_next = nd_range( 0, 1 << 30 );
   for( int i = 0; i < NE; i++ ) REQUIRES( arr[i]->Obj < g_next );
   int prev[MD], act[MD], before[NE];
   for( int i = 0; i < NE; i++ ) before[i] = arr[i]->Obj;
   for( int i = 0; i < g_d; i++ )
   {
      const int a = act[i] = vf_param( 3 ) < 0 ? nd_range( 0, 3 ) : ( vf_param( 3 ) >> ( 2 * i ) ) & 3;
      W.DomainList[i].DAction = a == 0 ? TgdxDAction::dm_unmapped : a == 1 ? TgdxDAction::dm_filter : a == 2 ? TgdxDAction::dm_strict : TgdxDAction::dm_expand;
      W.DomainList[i].DFilter = a == 1 ? (TDFilter *) g_filt[i] : nullptr;
      for( int e = 0; e < NE; e++ ) g_in[i][e] = nd_bool();
      if( first )
      {
         W.LastElem[i] = nd_int();
         prev[i] = -1;
      }
      else
      {
         // the previous record was delivered: its elements passed and have their numbers
         const int e = nd_range( 1, NE );
         W.LastElem[i] = e;
         REQUIRES( passes( W, i, e ) && ( a == 0 || usr( e ) >= 0 ) );
         prev[i] = a == 0 ? e : usr( e );
      }
      W.PrevElem[i] = prev[i];
   }
   for( int r = 0; r <= skip; r++ )
   {
      bool ok = true;
      for( int i = 0; i < g_d; i++ )
      {
         const bool p = passes( W, i, g_rec[r][i] );
         if( r < skip ) g_off[r][i] = !p;
         ok = ok & p;
      }
      REQUIRES( ok == ( r == skip ) );
   }
   const int next = g_next, added = W.NrMappedAdded;
   int key[MD], dim = nd_int();
   double v[5];
   const int rc = W.gdxDataReadMap( 0, key, v, dim );
   ENSURES( rc, "the next record that passes is delivered" );
   ENSURES( g_reads == skip + 1 && g_errs == skip, "every record is read once and those left out are reported" );
   ENSURES( vf_bits( v[0] ) == vf_bits( g_val[skip] ), "with its value" );
   // expected numbers: existing ones, or the next free ones in the order of the positions
   int n = next, dw = 0;
   bool keys = true, prevs = true, lasts = true;
   int now[NE];
   for( int i = 0; i < NE; i++ ) now[i] = before[i];
   for( int i = 0; i < g_d; i++ )
   {
      const int e = g_rec[skip][i];
      int x = e;
      if( act[i] != 0 )
      {
         if( now[e - 1] < 0 ) now[e - 1] = n++;
         x = now[e - 1];
      }
      keys = keys & ( key[i] == x );
      prevs = prevs & ( W.PrevElem[i] == x );
      lasts = lasts & ( W.LastElem[i] == e );
      if( dw == 0 && prev[i] != x ) dw = i + 1;
   }
   ENSURES( keys, "the keys are the numbers asked for: the element, its user number, or a new number" );
   ENSURES( dim == dw, "the first changed position refers to the keys delivered before" );
   ENSURES( prevs && lasts, "the state for the next call" );
   ENSURES( g_next == n && g_news == n - next && W.NrMappedAdded - added == n - next, "new numbers are consecutive, one per element" );
   release( W, U );
   COVER( true, "end" );
}
// parameter 0: dimension, 1: first changed position; reading in raw mode and with strings deliver the record of the raw reader
extern "C" void c_raw()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TUELTable, U );
   g_d = vf_param( 0 );
   table( W, U );
   W.fmode = fr_raw_data;
   g_nrec = nd_range( 0, 1 );
   for( int i = 0; i < g_d; i++ ) W.LastElem[i] = nd_int();
   int key[MD], dim = nd_int(), want = vf_param( 1 );
   g_chg[0] = want;
   const int guard = key[MD - 1] = nd_int();
   double v[5];
   const int rc = W.gdxDataReadRaw( key, v, dim );
   ENSURES( !!rc == ( g_nrec == 1 ), "a record is delivered exactly when there is one" );
   ENSURES( g_done == ( rc ? 0 : 1 ), "the read is finished at the end" );
   if( rc )
   {
      bool ok = vf_bits( v[0] ) == vf_bits( g_val[0] ) && dim == want;
      for( int i = 0; i < g_d; i++ ) ok = ok & ( key[i] == g_rec[0][i] );
      ENSURES( ok, "the record of the reader" );
      if( g_d < MD ) ENSURES( key[MD - 1] == guard, "nothing beyond the keys is written" );
   }
   release( W, U );
   COVER( rc, "end" );
}
// parameter 0: dimension; a mapped read from the sorted list: the record, and the first position that differs from the last one
extern "C" void c_sorted()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   g_d = vf_param( 0 );
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   W.CurSyPtr = nullptr;
   W.FCurrentDim = g_d;
   W.fmode = fr_map_data;
   using List = LinkedDataType;
   static uint64_t mem[( sizeof( List ) + 7 ) / 8];
   List &L = *(List *) mem;
   *(void **) &W.SortList = mem;
   *(int *) &L.FKeySize = 4 * g_d;
   *(int *) &L.FDataSize = 8;
   static struct Cell { void *next; uint8_t data[8 * MD + 40]; } c0, c1;
   auto *r0 = (std::remove_reference_t<decltype( *L.FHead )> *) &c0;
   auto *r1 = (std::remove_reference_t<decltype( *L.FHead )> *) &c1;
   const bool more = nd_bool(), any = nd_bool();
   r0->RecNext = more ? r1 : nullptr;
   int want = 0, key[MD], rec[MD], dim = nd_int();
   const double x = nd_double();
   for( int i = 0; i < g_d; i++ )
   {
      rec[i] = nd_int();
      std::memcpy( r0->RecData + 4 * i, &rec[i], 4 );
      if( want == 0 && W.PrevElem[i] != rec[i] ) want = i + 1;
   }
   std::memcpy( r0->RecData + 4 * g_d, &x, 8 );
   W.ReadPtr = std::nullopt;
   if( any ) W.ReadPtr = r0;
   double v[5];
   const int rc = W.gdxDataReadMap( 0, key, v, dim );
   ENSURES( !!rc == any, "a record is delivered exactly when there is one" );
   if( rc )
   {
      bool ok = vf_bits( v[0] ) == vf_bits( x ), prev = true;
      for( int i = 0; i < g_d; i++ )
      {
         ok = ok & ( key[i] == rec[i] );
         prev = prev & ( W.PrevElem[i] == rec[i] );
      }
      ENSURES( ok, "the record of the list" );
      ENSURES( dim == want, "the first changed position" );
      ENSURES( prev && *W.ReadPtr == ( more ? r1 : nullptr ), "the next call goes on with the next record" );
   }
   *(void **) &W.SortList = nullptr;
   COVER( rc, "end" );
}
