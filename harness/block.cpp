// Contract of a compressed section of the buffered stream: a block flushed by one stream is loaded unchanged by another.
// The compressor is a contract: it produces some bytes, within its bound, from which the decompressor restores the input.
// VF-REPLACE rtl::p3utils::p3FileRead => stub_FileRead
// VF-REPLACE rtl::p3utils::p3FileWrite => stub_FileWrite
// VF-REPLACE rtl::p3utils::p3FileOpen => stub_FileOpen
#include "common.hpp"
using namespace gdlib::gmsstrm;
static int64_t fpos, fsize;
static int64_t wat[4];// watched file positions: the block header and one arbitrary position of the payload
static uint8_t fval[4];
static bool have[4];
extern "C" int stub_FileOpen( const std::string &, rtl::p3utils::Tp3FileOpenAction, rtl::p3utils::Tp3FileHandle &h ) { return 0; }
extern "C" int stub_FileRead( rtl::p3utils::Tp3FileHandle, char *b, uint32_t n, uint32_t &res )
{
   const int64_t left = fsize > fpos ? fsize - fpos : 0;
   res = (int64_t) n < left ? n : (uint32_t) left;
   for( int k = 0; k < 4; k++ )
      if( wat[k] >= fpos && wat[k] < fpos + (int64_t) res )
         b[wat[k] - fpos] = (char) fval[k];
   fpos += res;
   return 0;
}
extern "C" int stub_FileWrite( rtl::p3utils::Tp3FileHandle, const char *b, uint32_t n, uint32_t &res )
{
   res = n;
   for( int k = 0; k < 4; k++ )
      if( wat[k] >= fpos && wat[k] < fpos + (int64_t) n )
      {
         fval[k] = (uint8_t) b[wat[k] - fpos];
         have[k] = true;
      }
   fpos += n;
   if( fpos > fsize ) fsize = fpos;
   return 0;
}
static uint32_t w, y, clen, plen;// watched offset of the plain block and of the compressed block, their lengths
static uint8_t pbyte, cbyte;
static bool packed, onPlain;
#ifndef VF_NATIVE
extern "C" int compress( Bytef *dst, uLongf *dl, const Bytef *src, uLong n )
{
   vf_assert( *dl >= n + ( n >> 12 ) + ( n >> 14 ) + ( n >> 25 ) + 13, "room for the worst case of the compressor" );
   clen = nd_u32();
   REQUIRES( clen >= 1 && clen <= n + ( n >> 12 ) + ( n >> 14 ) + ( n >> 25 ) + 13 );
   plen = (uint32_t) n;
   pbyte = src[w];
   cbyte = nd_u8();
   if( y < clen ) dst[y] = cbyte;
   *dl = clen;
   packed = true;
   return 0;
}
extern "C" int uncompress( Bytef *dst, uLongf *dl, const Bytef *src, uLong n )
{
   vf_assert( packed && n == clen, "the whole compressed block is handed to the decompressor" );
   if( y < clen && !onPlain ) vf_assert( src[y] == cbyte, "the compressed block is handed over unchanged" );
   vf_assert( *dl >= plen, "room for the plain block" );
   dst[w] = pbyte;
   *dl = plen;
   return 0;
}
#endif
#ifdef VF_NATIVE
static void *vf_block( uint64_t n ) { return calloc( n, 1 ); }
#else
extern "C" void *vf_block( uint64_t n );
#endif
static uint32_t bound( uint32_t n ) { return n + ( n >> 12 ) + ( n >> 14 ) + ( n >> 25 ) + 13; }
static std::string nm;
#ifdef VF_NATIVE
#define NATIVE_SKIP vf_assume( false )
#else
#define NATIVE_SKIP
#endif
// the sizes and the initial state that c_block and the stream contracts start from
extern "C" void c_ctor()
{
   TBufferedFileStream &S = *new( malloc( sizeof( TBufferedFileStream ) ) ) TBufferedFileStream( nm, fmOpenRead );
   ENSURES( S.BufSize == S.BufPtr.size() && S.BufSize >= 1 && S.BufSize <= 65535, "a block length fits the block header" );
   ENSURES( S.CBufSize >= bound( S.BufSize ) + sizeof( TCompressHeader ), "room for the worst case of the compressor" );
   ENSURES( S.NrWritten == 0 && S.NrLoaded == 0 && S.NrRead == 0 && S.PhysPosition == 0 && !S.FCompress && S.FCanCompress && S.CBufPtr, "initial state" );
   COVER( true, "end" );
}
static void setup( TBufferedFileStream &S )
{
   S.BufSize = (uint32_t) nd_range( 1, 65535 );
   S.CBufSize = (uint32_t) nd_range( 1, 1 << 20 );
   REQUIRES( S.CBufSize >= bound( S.BufSize ) + sizeof( TCompressHeader ) );
   auto **v = (uint8_t **) &S.BufPtr;
   v[0] = (uint8_t *) vf_block( S.BufSize );
   v[1] = v[2] = v[0] + S.BufSize;
   S.CBufPtr = (PCompressBuffer) vf_block( S.CBufSize + 3 );
   new( (void *) &S.FPassWord ) std::string();
   S.NrLoaded = S.NrRead = S.NrWritten = 0;
   S.FCompress = S.FCanCompress = true;
}
extern "C" void c_block()
{
   NATIVE_SKIP;
   VF_OBJ( TBufferedFileStream, S, nm, 0 );
   VF_OBJ( TBufferedFileStream, R, nm, 0 );
   setup( S );
   setup( R );
   REQUIRES( S.BufSize == R.BufSize && S.CBufSize == R.CBufSize );
   const int64_t P = (int64_t) ( nd_u64() & 0xffffffffffull );
   const uint32_t n = (uint32_t) nd_range( 1, 65535 );
   REQUIRES( n <= S.BufSize );
   w = (uint32_t) nd_range( 0, 65535 );
   y = (uint32_t) nd_range( 0, 65535 );
   REQUIRES( w < n );
   packed = false;
   S.NrWritten = n;
   S.BufPtr[w] = nd_u8();
   fpos = S.PhysPosition = P;
   fsize = P;
   for( int k = 0; k < 3; k++ ) wat[k] = P + k;
   onPlain = nd_bool();// the watched payload position is a plain byte or a byte of the compressed form
   wat[3] = P + 3 + ( onPlain ? w : y );
   const uint8_t v = S.BufPtr[w];
   const bool ok = S.FlushBuffer();
   ENSURES( ok && S.NrWritten == 0 && S.NrLoaded == 0 && S.NrRead == 0, "flushed" );
   ENSURES( S.PhysPosition == fpos && fpos > P, "position follows the file" );
   const int64_t e = fpos;
   if( nd_bool() ) fsize += nd_u16();// more data may follow
   fpos = R.PhysPosition = P;
   R.NrLoaded = R.NrRead = 0;
   const bool got = R.FillBuffer();
   ENSURES( got && R.NrLoaded == n && R.NrRead == 0, "the block is loaded with its length" );
   if( onPlain || R.CBufPtr->cxHeader.cxTyp ) ENSURES( R.BufPtr[w] == v, "the block is loaded with its bytes" );
   ENSURES( R.PhysPosition == e && fpos == e, "the reader stands behind the block" );
   COVER( packed && clen < n, "compressed" );
   COVER( clen >= n, "stored" );
}
