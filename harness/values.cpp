// Contracts of the special value tables and of the value part of the record writer and reader.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::ReportError(int) => stub_ReportError
// VF-REPLACE gdx::TGXFileObj::AddToErrorList(int const*, double const*) => stub_AddErr
// VF-REPLACE gdx::TGXFileObj::AddToErrorListDomErrs => stub_AddErrD
// VF-REPLACE gdx::TAcronymList::CheckEntry => stub_CheckEntry
// VF-REPLACE gdx::TGXFileObj::AcronymRemap(double) => stub_AcrRemap
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
#include "gclgms.h"
static int nErr, lastErr;
extern "C" void stub_ReportError( TGXFileObj *, int n ) { nErr++; lastErr = n; }
extern "C" void stub_AddErr( TGXFileObj *, const int *, const double * ) { nErr++; }
extern "C" void stub_AddErrD( TGXFileObj *, const std::array<int,20> &, const double * ) { nErr++; }
extern "C" bool stub_CheckEntry( void *, int ) { nErr++; return true; }
extern "C" double stub_AcrRemap( void *, double d ) { nErr++; return d; }
static void prep( TGXFileObj &X )
{
   *(bool *) &X.verboseTrace = false;
   X.gdxResetSpecialValues();
}
static bool distinct( const double *a )// a[GMS_SVIDX_*]
{
   for( int i = 0; i < 5; i++ ) for( int j = i + 1; j < 5; j++ ) if( vf_bits( a[i] ) == vf_bits( a[j] ) ) return false;
   return true;
}
static int firstOf( const double *a, double v )// which special value of table a the value is, -1 none
{
   // precedence in the order undef, na, +inf, -inf, eps
   static const int ord[5] { GMS_SVIDX_UNDEF, GMS_SVIDX_NA, GMS_SVIDX_PINF, GMS_SVIDX_MINF, GMS_SVIDX_EPS };
   for( int i = 0; i < 5; i++ ) if( vf_bits( a[ord[i]] ) == vf_bits( v ) ) return ord[i];
   return -1;
}
static const double DEF[7] { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS, 0, 0 };
// ensures: a table of five distinct values is accepted and reported back; a table with a repeated value is refused, reported
// as such, and changes nothing; classification follows the table in force
extern "C" void c_table()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   prep( W );
   double A[7], B[7], g[7], v = nd_double();
   for( int i = 0; i < 7; i++ ) { A[i] = nd_double(); B[i] = nd_double(); }
   const bool okA = W.gdxSetSpecialValues( A ) != 0, dA = distinct( A );
   ENSURES( okA == dA, "a table is accepted exactly when its values are distinct" );
   const int e0 = nErr;
   const double *cur = dA ? A : DEF;
   const bool okB = W.gdxSetSpecialValues( B ) != 0, dB = distinct( B );
   ENSURES( okB == dB, "a second table is accepted exactly when its values are distinct" );
   if( !dB ) ENSURES( nErr == e0 + 1 && lastErr == -100014, "a refused table is reported" );
   if( dB ) ENSURES( nErr == e0, "an accepted table is no error" );
   if( dB ) cur = B;
   W.gdxGetSpecialValues( g );
   for( int i = 0; i < 5; i++ ) ENSURES( vf_bits( g[i] ) == vf_bits( cur[i] ), "the table in force is reported back" );
   int sv = -1;
   const bool is = W.gdxMapValue( v, sv ) != 0;
   const int want = firstOf( cur, v );
   ENSURES( is == ( want >= 0 ), "a value is special exactly when it is in the table in force" );
   ENSURES( sv == ( want >= 0 ? want : (int) GMS_SVIDX_NORMAL ), "classification of a value" );
   COVER( dA && !dB && want == GMS_SVIDX_EPS, "refused after accepted" );
   W.gdxResetSpecialValues();
   W.gdxGetSpecialValues( g );
   for( int i = 0; i < 5; i++ ) ENSURES( vf_bits( g[i] ) == vf_bits( DEF[i] ), "reset restores the default table" );
   COVER( true, "end" );
}
// one record, table A in force when writing, table B when reading (set for both directions or for reading only)
extern "C" void c_value()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TGXFileObj, R, vf_noname );
   VF_OBJ( TgdxSymbRecord, SW );
   VF_OBJ( TgdxSymbRecord, SR );
   NoDtor<GhostStream> GG;
   GhostStream &G = GG.v;
   const int nv = vf_param( 0 ), how = vf_param( 1 );
   prep( W );
   prep( R );
   double A[7], B[7], v[5], r[5];
   for( int i = 0; i < 7; i++ ) { A[i] = nd_double(); B[i] = nd_double(); }
   const double *wt = DEF, *rt = DEF;
   if( how & 1 ) { REQUIRES( distinct( A ) ); W.gdxSetSpecialValues( A ); wt = A; }
   if( how & 2 ) { REQUIRES( distinct( B ) ); R.gdxSetSpecialValues( B ); rt = B; }
   if( how & 4 ) { R.gdxSetReadSpecialValues( B ); rt = B; }
   W.FCurrentDim = R.FCurrentDim = 0;
   W.DeltaForWrite = 254;
   R.DeltaForRead = 1;
   W.DataSize = R.DataSize = nv;
   W.LastDataField = R.LastDataField = nv == 5 ? valscale : vallevel;
   for( int i = 0; i < nv; i++ ) { v[i] = nd_double(); REQUIRES( !( v[i] >= 10e300 ) || firstOf( wt, v[i] ) >= 0 || vf_bits( v[i] ) == 0x7ff0000000000000ull ); }
   W.CurSyPtr = &SW; R.CurSyPtr = &SR;
   SW.SDataType = SR.SDataType = dt_par;
   SR.SScalarFrst = false;
   R.ReadUniverse = false;
   W.DataCount = 0;
   *(void **) &W.FFile = &G;
   *(void **) &R.FFile = &G;
   *(void **) &R.MapSetText = nullptr;
   ENSURES( W.DoWrite( nullptr, v ), "accepted" );
   int fdim = 0;
   ENSURES( R.DoRead( r, fdim ), "read" );
   for( int i = 0; i < nv; i++ )
   {
      const uint64_t b = vf_bits( v[i] );
      const int k = firstOf( wt, v[i] );
      const bool small = b == vf_bits( 0.0 ) || b == vf_bits( 1.0 ) || b == vf_bits( -1.0 ) || b == vf_bits( 0.5 ) || b == vf_bits( 2.0 );
      const uint64_t e = b & 0x7ff0000000000000ull, f = b & 0x000fffffffffffffull;
      double want;
      if( k >= 0 ) want = rt[k];
      else if( small ) want = v[i];
      else if( b == 0x8000000000000000ull ) want = 0;
      else if( e == 0x7ff0000000000000ull ) want = f ? rt[GMS_SVIDX_NA] : b >> 63 ? rt[GMS_SVIDX_MINF] : rt[GMS_SVIDX_PINF];
      else want = v[i];
      ENSURES( vf_bits( r[i] ) == vf_bits( want ), "value read back" );
      if( i == 0 ) { COVER( k == GMS_SVIDX_NA, "special" ); COVER( k < 0 && !small && e != 0x7ff0000000000000ull, "ordinary" ); }
   }
   ENSURES( nErr == 0, "no error" );
   ENSURES( G.wpos == G.rpos, "all consumed" );
   COVER( true, "end" );
}
