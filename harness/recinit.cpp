// Contract of the data header writer.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdlib::gmsstrm::TXStream::WriteString(std::basic_string_view => stub_WriteString
#define GHOST_CAP 48
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
extern "C" void stub_WriteString( void *, std::string_view ) {}
// requires: any element range per position; ensures: the header carries the ranges, every key in range fits the chosen
// number of bytes, and the state is the initial one the record contract requires
extern "C" void rec_init()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   VF_OBJ( TgdxSymbRecord, SW );
   NoDtor<GhostStream> GG;
   GhostStream &G = GG.v;
   const int dim = vf_param( 0 );
   W.FCurrentDim = dim;
   W.CurSyPtr = &SW;
   *(void **) &W.FFile = &G;
   const int64_t at = W.NextWritePosition;
   int lo[20], hi[20];
   for( int d = 0; d < dim; d++ ) { lo[d] = W.MinElem[d] = nd_int(); hi[d] = W.MaxElem[d] = nd_int(); }
   const int n = nd_range( 0, INT32_MAX );
   W.InitDoWrite( n );
   ENSURES( SW.SPosition == at, "the symbol's data begins where the next symbol is due" );
   ENSURES( W.DataCount == 0, "no record yet" );
   const int o = G.wpos - 2 * dim - 2;// the text mark may or may not be part of the ghost log
   ENSURES( o >= 0 && G.val[o] == (uint64_t) dim && G.siz[o] == 1, "dimension in the header" );
   ENSURES( G.val[o + 1] == (uint64_t) n && G.siz[o + 1] == 4, "record count in the header" );
   for( int d = 0; d < dim; d++ )
   {
      ENSURES( W.LastElem[d] == -256, "no last record" );
      ENSURES( G.val[o + 2 + 2 * d] == (uint64_t) (uint32_t) lo[d] && G.val[o + 3 + 2 * d] == (uint64_t) (uint32_t) hi[d] && G.siz[o + 2 + 2 * d] == 4 && G.siz[o + 3 + 2 * d] == 4, "element range in the header" );
      const int64_t r = (int64_t) hi[d] - lo[d];
      if( r >= 0 ) ENSURES( W.ElemType[d] != TgdxElemSize::sz_byte || r <= 255, "a byte holds every element in range" );
      if( r >= 0 ) ENSURES( W.ElemType[d] != TgdxElemSize::sz_word || r <= 65535, "a word holds every element in range" );
   }
   COVER( true, "end" );
}
