// Contract of the mode guard of the API functions: outside its allowed modes a function refuses, records an error, and
// changes neither the mode nor the error state otherwise. Parameter 0: the function; every mode outside its allowed ones is tried.
// VF-GLOBALS AnyWriteMode AnyReadMode
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
// VF-REPLACE gdx::GetEnvCompressFlag => stub_Env
#include "common.hpp"
extern "C" void vf_init_globals();
#ifdef VF_NATIVE
extern "C" void vf_init_globals() {}
#endif
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
extern "C" int stub_Env() { return nd_bool(); }
static int call( TGXFileObj &W )
{
   static int ki[20];
   static double v[5];
   static const char *ks[20];
   static char buf[20][256];
   static char *kb[20];
   for( int i = 0; i < 20; i++ ) { ki[i] = 1; ks[i] = "a"; kb[i] = buf[i]; }
   int a = 0, b = 0;
   switch( vf_param( 0 ) )
   {
      case 0: return W.gdxDataWriteDone();
      case 1: return W.gdxDataWriteStr( ks, v );
      case 2: return W.gdxDataWriteRaw( ki, v );
      case 3: return W.gdxDataWriteMap( ki, v );
      case 4: return W.gdxDataReadStr( kb, v, a );
      case 5: return W.gdxDataReadRaw( ki, v, a );
      case 6: return W.gdxDataReadMap( 1, ki, v, a );
      case 7: return W.gdxDataReadDone();
      case 8: return W.gdxAddAlias( "a", "b" );
      case 9: return W.gdxDataErrorRecord( 1, ki, v );
      case 10: return W.gdxSymbolSetDomain( ks );
      case 11: return W.gdxUELRegisterDone();
      case 12: return W.gdxUELRegisterRaw( "a" );
      case 13: return W.gdxUELRegisterRawStart();
      case 14: return W.gdxUELRegisterStr( "a", a );
      case 15: return W.gdxUELRegisterStrStart();
      case 16: return W.gdxUELRegisterMapStart();
      case 17: return W.gdxUELRegisterMap( 1, "a" );
      case 18: return W.gdxFilterExists( 1 );
      case 19: return W.gdxFilterRegisterStart( 1 );
      case 20: return W.gdxFilterRegister( 1 );
      case 21: return W.gdxFilterRegisterDone();
      case 22: return W.gdxDataSliceUELS( ki, kb );
      case 23: return W.gdxSymbIndxMaxLength( 1, ki );
      case 24: return W.gdxSymbolAddComment( 1, "a" );
      case 25: return W.gdxDataReadRawStart( 1, a );
      case 26: return W.gdxDataReadMapStart( 1, a );
      case 27: return W.gdxDataReadStrStart( 1, a );
      case 28: return W.gdxDataReadFilteredStart( 1, ki, a );
      case 29: return W.gdxDataReadSliceStart( 1, ki );
      case 30: return W.gdxDataWriteRawStart( "a", "", 1, 1, 0 );
      case 31: return W.gdxDataWriteMapStart( "a", "", 1, 1, 0 );
      case 32: return W.gdxDataWriteStrStart( "a", "", 1, 1, 0 );
      case 33: return W.gdxOpenWrite( "f", "p", a );
      case 34: return W.gdxOpenWriteEx( "f", "p", 0, a );
      case 35: return W.gdxOpenRead( "f", a );
      case 36: return W.gdxOpenReadEx( "f", 0, a );
      case 37: return W.gdxDataReadSlice( ks, a, nullptr );
      default: return 1;
   }
}

#define M( m ) ( 1u << ( m ) )
static unsigned allowed( int f )
{
   const unsigned anyWrite = M( fw_init ) | M( fw_dom_raw ) | M( fw_dom_map ) | M( fw_dom_str ) | M( fw_raw_data ) | M( fw_map_data ) | M( fw_str_data );
   const unsigned anyRead = M( fr_init ) | M( fr_raw_data ) | M( fr_map_data ) | M( fr_mapr_data ) | M( fr_str_data );
   switch( f )
   {
      case 0: return anyWrite & ~M( fw_init );
      case 1: return M( fw_dom_str ) | M( fw_str_data );
      case 2: return M( fw_dom_raw ) | M( fw_raw_data );
      case 3: return M( fw_dom_map ) | M( fw_map_data );
      case 4: return M( fr_str_data );
      case 5: return M( fr_raw_data );
      case 6: return M( fr_map_data ) | M( fr_mapr_data );
      case 7: return anyRead | M( fr_slice );
      case 8: case 24: return anyWrite;
      case 9: return M( fr_init ) | M( fw_init ) | M( fr_map_data ) | M( fr_mapr_data ) | M( fw_raw_data ) | M( fw_map_data ) | M( fw_str_data );
      case 10: return M( fw_dom_raw ) | M( fw_dom_map ) | M( fw_dom_str );
      case 11: return M( f_raw_elem ) | M( f_map_elem ) | M( f_str_elem );
      case 12: return M( f_raw_elem );
      case 13: case 30: case 31: case 32: return M( fw_init );
      case 14: return M( f_str_elem );
      case 15: case 16: return M( fr_init ) | M( fw_init );
      case 17: return M( f_map_elem );
      case 18: case 25: case 26: case 27: case 28: case 29: return anyRead;
      case 19: case 23: return M( fr_init );
      case 20: case 21: return M( fr_filter );
      case 22: case 37: return M( fr_slice );
      default: return M( f_not_open );
   }
}
extern "C" void c_mode()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   vf_init_globals();
   const int f = vf_param( 0 );
   const unsigned al = allowed( f );
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   new( &W.MajContext ) std::string();
   W.MajContext.reserve( 120 );
   const bool reads = f == 7 || ( f >= 25 && f <= 29 );
   for( int m = 0; m < tgxfilemode_count; m++ )
   {
      if( al & M( m ) ) continue;
      const bool rd = m == fr_init || m >= fr_raw_data, wr = m >= fw_init && m <= fw_str_data;
      bool asRead = m != f_not_open && nd_bool();
      if( rd ) asRead = true;
      if( wr ) asRead = false;
      W.fmode = (TgxFileMode) m;
      W.fstatus = m == f_not_open ? TGXFileObj::stat_notopen : asRead ? TGXFileObj::stat_read : TGXFileObj::stat_write;
      const int e0 = nd_range( -200000, 0 ), n0 = nd_range( 0, 1000000 ), t0 = nd_range( 0, 1000000 );
      W.LastError = e0;
      W.ErrCnt = n0;
      W.ErrCntTotal = t0;
      const int rc = call( W );
      ENSURES( rc <= 0, "a call outside its modes is refused" );
      if( f < 33 || f == 37 )
      {
         ENSURES( W.LastError == ( e0 ? e0 : -100002 ), "the refusal is reported as the last error unless an earlier one is pending" );
         ENSURES( W.ErrCnt == n0 + 1 && W.ErrCntTotal == t0 + 1, "the refusal is counted" );
      }
      ENSURES( W.fmode == ( reads && asRead ? fr_init : (TgxFileMode) m ), "the mode is unchanged (a refused read start or end leaves a file opened for reading in its initial mode)" );
      ENSURES( W.fstatus == ( m == f_not_open ? TGXFileObj::stat_notopen : asRead ? TGXFileObj::stat_read : TGXFileObj::stat_write ), "the file stays open as it was" );
   }
   COVER( true, "end" );
}
