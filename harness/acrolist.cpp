// Contracts of the acronym list operations, for lists of a fixed length (parameter 0) with arbitrary numbers and mappings.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
// VF-GLOBALS AnyWriteMode AnyReadMode
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
#include "gclgms.h"
extern "C" void vf_init_globals();
#ifdef VF_NATIVE
extern "C" void vf_init_globals() {}
#endif
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
static uint64_t E0[( sizeof( TAcronym ) + 7 ) / 8], E1[( sizeof( TAcronym ) + 7 ) / 8], E2[( sizeof( TAcronym ) + 7 ) / 8];
static TAcronym *const ent[3] { (TAcronym *) E0, (TAcronym *) E1, (TAcronym *) E2 };
static void build( TAcronymList &L, int n )
{
   for( int i = 0; i < n; i++ )
   {
      new( ent[i] ) TAcronym();
      ent[i]->AcrMap = nd_range( 1, INT32_MAX );
      ent[i]->AcrReadMap = nd_range( -1, INT32_MAX );
      ent[i]->AcrAutoGen = nd_bool();
      L.FList.Add( ent[i] );
   }
}
extern "C" void c_find()
{
   const int n = vf_param( 0 );
   static NoDtor<TAcronymList> LL;
   TAcronymList &L = LL.v;
   build( L, n );
   const int m = nd_int();
   int want = -1;
   for( int i = n - 1; i >= 0; i-- ) if( ent[i]->AcrMap == m ) want = i;
   ENSURES( L.FindEntry( m ) == want, "the entry with that number" );
   ENSURES( L.FList.GetCount() == n, "nothing changes" );
   for( int i = 0; i < n; i++ ) ENSURES( &L[i] == ent[i], "entries keep their places" );
   COVER( n == 0 || want == n - 1, "last" );
}
static void setup( TGXFileObj &W )
{
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   W.LastError = 0;
   W.ErrCnt = W.ErrCntTotal = 0;
   *(void **) &W.FFile = nullptr;
   *(void **) &W.NameList = nullptr;
}
// query of one entry by its position, for every position asked for
extern "C" void c_getmap()
{
   const int n = vf_param( 0 );
   static NoDtor<TAcronymList> LL;
   build( LL.v, n );
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   *(void **) &W.AcronymList = &LL.v;
   const int at = nd_int();
   int o = 5, w = 6, a = 7;
   const bool ok = W.gdxAcronymGetMapping( at, o, w, a ) != 0;
   const bool in = at >= 1 && at <= n;
   ENSURES( ok == in, "exactly the entries of the table" );
   ENSURES( W.ErrCntTotal == !in, "a wrong position is reported" );
   for( int i = 0; i < n; i++ )
      ENSURES( at != i + 1 || ( o == ent[i]->AcrMap && w == ent[i]->AcrReadMap && a == (int) ent[i]->AcrAutoGen ), "the mapping of the entry" );
   ENSURES( W.gdxAcronymCount() == n, "count" );
   COVER( n == 0 || at == n, "end" );
   *(void **) &W.AcronymList = nullptr;
}
// the reader maps an acronym of the file to another number; parameter 1: 1 the name given is that of the entry
extern "C" void c_setmap()
{
   vf_init_globals();
   const int n = vf_param( 0 ), same = vf_param( 1 );
   static NoDtor<TAcronymList> LL;
   build( LL.v, n );
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   W.fmode = TgxFileMode::fr_init;
   W.fstatus = TGXFileObj::stat_read;
   *(void **) &W.AcronymList = &LL.v;
   for( int i = 0; i < n; i++ ) ent[i]->AcrAutoGen = false;
   const int at = nd_int(), nw = nd_range( 1, INT32_MAX );
   int rm[3];
   bool taken = false, own = false;
   for( int i = 0; i < n; i++ )
   {
      rm[i] = ent[i]->AcrReadMap;
      taken |= rm[i] == nw;
      own |= at == i + 1 && rm[i] == nw;
   }
   const bool ok = W.gdxAcronymSetInfo( at, same ? "" : "x", "", nw ) != 0;
   const bool in = at >= 1 && at <= n;
   ENSURES( ok == ( in && ( own || ( same && !taken ) ) ), "accepted exactly for an acronym of the file, by its name, with a number not given to another" );
   ENSURES( W.ErrCntTotal == !ok, "a refusal is reported" );
   for( int i = 0; i < n; i++ )
      ENSURES( ent[i]->AcrReadMap == ( ok && at == i + 1 ? nw : rm[i] ), "only the mapping of that acronym changes" );
   COVER( !in || ok == same, "end" );
   *(void **) &W.AcronymList = nullptr;
}
