// Contracts of error recording and reporting, for any prior error state.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
using List = TTblGamsDataImpl<double>;
static void setup( TGXFileObj &W )
{
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   W.LastError = nd_int();
   W.ErrCnt = nd_range( 0, INT32_MAX - 4 );
   W.ErrCntTotal = nd_range( 0, INT32_MAX - 4 );
   *(void **) &W.FFile = nullptr;
   *(void **) &W.ErrorList = nullptr;
}
// recording one failure; parameter 0: which function
extern "C" void c_record()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   const int e = W.LastError, n = W.ErrCnt, t = W.ErrCntTotal, c = nd_int();
   REQUIRES( c != 0 );
   bool bad = true;
   if( vf_param( 0 ) == 0 ) W.SetError( c );
   else if( vf_param( 0 ) == 1 ) W.ReportError( c );
   else
   {
      const bool ok = nd_bool();
      bad = W.ErrorCondition( ok, c );
      ENSURES( bad == !ok, "the condition is reported" );
   }
   ENSURES( W.LastError == ( e || !bad ? e : c ), "the first pending error is kept" );
   ENSURES( W.ErrCnt == n + bad && W.ErrCntTotal == t + bad, "a failure is counted once" );
   ENSURES( W.gdxErrorCount() == t + bad, "the count is reported" );
   COVER( bad, "end" );
}
// querying the last error; parameter 0: 0 no file, 1 file open
extern "C" void c_query()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   NoDtor<GhostStream> GG;
   int io = 0;
   if( vf_param( 0 ) )
   {
      *(void **) &W.FFile = &GG.v;
      io = GG.v.FLastIOResult = nd_int();
   }
   const int e = W.LastError, t = W.gdxErrorCount();
   const int r = W.gdxGetLastError();
   ENSURES( r == ( io ? io : e ), "the query returns the first failure since the last query" );
   const int r2 = W.gdxGetLastError();
   ENSURES( r2 == ( io ? e : 0 ), "the query clears what it returned" );
   ENSURES( W.gdxGetLastError() == 0, "nothing is left" );
   ENSURES( W.gdxErrorCount() == t, "the query leaves the count" );
   if( vf_param( 0 ) ) *(void **) &W.FFile = nullptr;
   COVER( r && r2 == 0, "end" );
}
// the list of refused records; parameter 0: records already listed, parameter 1: dimension
extern "C" void c_list()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   const int have = vf_param( 0 ), dim = vf_param( 1 );
   W.FCurrentDim = dim;
   W.DataSize = 2;
   int k[13][20];
   double v[13][5];
   for( int i = 0; i <= have; i++ )
   {
      for( int d = 0; d < dim; d++ ) k[i][d] = nd_range( 1, INT32_MAX );
      for( int d = 0; d < 2; d++ ) v[i][d] = nd_double();
      W.AddToErrorList( k[i], v[i] );
   }
   const int n = have + 1 > 11 ? 11 : have + 1;
   ENSURES( W.gdxDataErrorCount() == n, "the first eleven refused records are listed" );
   W.fmode = fw_init;
   int rk[20];
   double rv[5];
   for( int i = 0; i < n; i++ )
   {
      ENSURES( W.gdxDataErrorRecord( i + 1, rk, rv ) == 1, "a listed record is retrievable" );
      bool same = true;
      for( int d = 0; d < dim; d++ ) same = same & ( rk[d] == k[i][d] );
      for( int d = 0; d < 2; d++ ) same = same & ( vf_bits( rv[d] ) == vf_bits( v[i][d] ) );
      ENSURES( same, "a listed record is retrieved with its keys and values" );
   }
   const int t = W.gdxErrorCount(), bad = nd_int();
   REQUIRES( bad < 1 || bad > n );
   ENSURES( W.gdxDataErrorRecord( bad, rk, rv ) == 0, "a number outside the list is refused" );
   ENSURES( W.gdxErrorCount() == t + 1, "the refusal is counted" );
   COVER( true, "end" );
}
