// Contracts of the record writer and reader step (one record), over arbitrary coupled writer/reader states.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::ReportError(int) => stub_ReportError
// VF-REPLACE gdx::TGXFileObj::AddToErrorList(int const*, double const*) => stub_AddErr
// VF-REPLACE gdx::TGXFileObj::AddToErrorListDomErrs => stub_AddErrD
// VF-REPLACE gdx::TAcronymList::CheckEntry => stub_CheckEntry
// VF-REPLACE gdx::TGXFileObj::AcronymRemap(double) => stub_AcrRemap
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
static int nErr;
extern "C" void stub_ReportError( TGXFileObj *, int ) { nErr++; }
extern "C" void stub_AddErr( TGXFileObj *, const int *, const double * ) { nErr++; }
extern "C" void stub_AddErrD( TGXFileObj *, const std::array<int,20> &, const double * ) { nErr++; }
extern "C" bool stub_CheckEntry( void *, int ) { nErr++; return true; }
extern "C" double stub_AcrRemap( void *, double d ) { nErr++; return d; }

// requires: 1 <= dim <= 20 keys within the announced element range of each position, writer and reader agree on the last
// record; ensures: the record is accepted, read back with the same keys and the same values, and the states agree again.
extern "C" void rec_step()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TGXFileObj, R, vf_noname );
   VF_OBJ( TgdxSymbRecord, SW );
   VF_OBJ( TgdxSymbRecord, SR );
   NoDtor<GhostStream> GG;
   GhostStream &G = GG.v;
   const int dim = vf_param( 0 ), nv = vf_param( 1 );
   const bool symVals = vf_param( 2 ) != 0;// false: the value is a fixed ordinary number, only the keys are arbitrary
   int e[20];
   for( int d = 0; d < dim; d++ )
   {
      const int lo = nd_range( 1, INT32_MAX ), hi = nd_range( 1, INT32_MAX );
      e[d] = nd_range( 1, INT32_MAX - 256 );
      const int last = nd_range( -256, INT32_MAX );
      REQUIRES( ( lo <= e[d] ) & ( e[d] <= hi ) );
      REQUIRES( ( last == -256 ) | ( last >= 1 ) );
      W.MinElem[d] = R.MinElem[d] = lo;
      W.MaxElem[d] = R.MaxElem[d] = hi;
      W.LastElem[d] = R.LastElem[d] = last;
      const int ty = vf_param( 3 ) < 3 ? vf_param( 3 ) : vf_param( 3 ) < 6 ? ( d + vf_param( 3 ) ) % 3 : nd_range( 0, 2 );
      W.ElemType[d] = R.ElemType[d] = ty == 0 ? TgdxElemSize::sz_byte : ty == 1 ? TgdxElemSize::sz_word : TgdxElemSize::sz_integer;
      REQUIRES( ty != 0 || (int64_t) hi - lo <= 255 );
      REQUIRES( ty != 1 || (int64_t) hi - lo <= 65535 );
      W.WrBitMaps[d] = nullptr;
   }
   W.FCurrentDim = R.FCurrentDim = dim;
   W.DeltaForWrite = 255 - dim - 1;
   R.DeltaForRead = dim;
   W.DataSize = R.DataSize = nv;
   W.LastDataField = R.LastDataField = nv == 5 ? valscale : vallevel;
   double v[5], r[5];
   if( symVals )
   {
      for( int i = 0; i < nv; i++ ) v[i] = nd_double();
      for( int i = 0; i < vm_count; i++ )
      {
         W.intlValueMapDbl[i] = nd_double();
         W.intlValueMapI64[i] = vf_bits( W.intlValueMapDbl[i] );
         R.readIntlValueMapDbl[i] = W.intlValueMapDbl[i];
      }
   }
   else
   {
      v[0] = R.readIntlValueMapDbl[0] = W.intlValueMapDbl[0] = 17.5;
      W.intlValueMapI64[0] = vf_bits( 17.5 );
   }
   W.Zvalacr = R.Zvalacr = 1e301;
   if( symVals ) for( int i = 0; i < nv; i++ ) REQUIRES( !( v[i] >= 1e301 ) );
   W.CurSyPtr = &SW; R.CurSyPtr = &SR;
   SW.SDataType = SR.SDataType = dt_par;
   SR.SScalarFrst = false;
   R.ReadUniverse = false;
   W.DataCount = nd_range( 0, INT32_MAX - 1 );
   *(bool *) &W.verboseTrace = *(bool *) &R.verboseTrace = false;
   *(void **) &W.FFile = &G;
   *(void **) &R.FFile = &G;
   *(void **) &R.MapSetText = nullptr;
   unsigned sorted = 1, dup = 1;// spec: strictly greater than the last record in lexicographic order (branch-free)
   for( int d = 0; d < dim; d++ )
   {
      const unsigned ne = e[d] != W.LastElem[d], gt = e[d] > W.LastElem[d];
      sorted &= ~( dup & ne ) | gt;
      dup &= 1u ^ ne;
   }
   REQUIRES( ( sorted & ( ( dup ^ 1 ) | ( dim == 0 ) ) ) != 0 );
   const bool ok = W.DoWrite( e, v );
   ENSURES( ok, "accepted" );
   int fdim = 0;
   const bool ok2 = R.DoRead( r, fdim );
   ENSURES( ok2, "read" );
   for( int d = 0; d < dim; d++ ) ENSURES( R.LastElem[d] == e[d], "key" );
   for( int d = 0; d < dim; d++ ) ENSURES( W.LastElem[d] == e[d], "inv" );
   ENSURES( G.wpos == G.rpos, "all consumed" );
   for( int i = 0; i < nv; i++ ) ENSURES( vf_bits( r[i] ) == vf_bits( v[i] ) || v[i] == 0 || std::isinf( v[i] ) || std::isnan( v[i] ), "value" );
   COVER( true, "end" );
}

// requires: the state after n >= 0 accepted records, any key; ensures: a key that is not strictly greater than the last one
// is refused and reported, and the refusal leaves the state, the record count and the file as they were; any other key is
// accepted and counted
extern "C" void rec_reject()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TgdxSymbRecord, SW );
   NoDtor<GhostStream> GG;
   GhostStream &G = GG.v;
   const int dim = vf_param( 0 );
   int e[20], last[20];
   const bool first = nd_bool();
   W.DataCount = first ? 0 : nd_range( 1, INT32_MAX - 1 );
   const int cnt = W.DataCount;
   for( int d = 0; d < dim; d++ )
   {
      e[d] = nd_range( 1, INT32_MAX - 256 );
      last[d] = first ? -256 : nd_range( 1, INT32_MAX - 256 );
      W.LastElem[d] = last[d];
      W.MinElem[d] = 1; W.MaxElem[d] = INT32_MAX;
      W.ElemType[d] = TgdxElemSize::sz_integer;
      W.WrBitMaps[d] = nullptr;
   }
   W.FCurrentDim = dim;
   W.DeltaForWrite = 255 - dim - 1;
   W.DataSize = 1;
   W.LastDataField = vallevel;
   double v[1] { 17.5 };
   W.intlValueMapDbl[0] = 17.5;
   W.intlValueMapI64[0] = vf_bits( 17.5 );
   W.Zvalacr = 1e301;
   W.CurSyPtr = &SW;
   SW.SDataType = dt_par;
   *(bool *) &W.verboseTrace = false;
   *(void **) &W.FFile = &G;
   unsigned greater = 0, eq = 1;
   for( int d = 0; d < dim; d++ )
   {
      greater |= eq & (unsigned) ( e[d] > last[d] );
      eq &= (unsigned) ( e[d] == last[d] );
   }
   nErr = 0;
   const bool ok = W.DoWrite( e, v );
   ENSURES( ok == ( greater != 0 ), "a record is accepted exactly when its key is greater than the last one" );
   if( !ok )
   {
      ENSURES( nErr >= 1, "a refusal is reported" );
      ENSURES( G.wpos == 0, "a refused record leaves the file as it was" );
      ENSURES( W.DataCount == cnt, "a refused record is not counted" );
      for( int d = 0; d < dim; d++ ) ENSURES( W.LastElem[d] == last[d], "a refused record leaves the last key as it was" );
   }
   else
   {
      ENSURES( nErr == 0, "no error" );
      ENSURES( W.DataCount == cnt + 1, "an accepted record is counted" );
      for( int d = 0; d < dim; d++ ) ENSURES( W.LastElem[d] == e[d], "an accepted record becomes the last one" );
   }
   COVER( !ok && !eq, "unsorted" );
   COVER( ok && !first, "accepted" );
   COVER( eq && !first, "duplicate" );
}
