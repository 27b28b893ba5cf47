// Contracts of the buffered file stream over a ghost file. All blocks (the buffer, the caller's data, the file) have
// arbitrary size and contents; the contracts speak about one arbitrary watched file position X, hence about all.
// VF-REPLACE rtl::p3utils::p3FileRead => stub_FileRead
// VF-REPLACE rtl::p3utils::p3FileWrite => stub_FileWrite
// VF-REPLACE rtl::p3utils::p3FileSetPointer => stub_SetPointer
#include "common.hpp"
#include "ghoststubs.hpp"
using namespace gdlib::gmsstrm;
#ifdef VF_NATIVE
static std::string vf_noname { "/dev/null" };
static void vf_watchp( unsigned, void * ) {}
static void vf_blockhavoc( void * ) {}
static void *vf_block( uint64_t n ) { return calloc( n, 1 ); }
#else
extern std::string vf_noname;
extern "C" void vf_watchp( unsigned k, void *p );
extern "C" void vf_blockhavoc( void *p );
extern "C" void *vf_block( uint64_t n );
#endif
static int64_t nd_pos() { return (int64_t) ( nd_u64() & 0xffffffffffull ); }
static int64_t fpos, fsize, X;// ghost file: position, size, watched position
static uint8_t fval;          // and the byte there
static uint8_t *buf;          // the stream's buffer and its size
static uint32_t bufsize;
static void watchBuf( int64_t start )// the buffer holds the file from start on
{
   vf_watchp( 0, X >= start && X - start < (int64_t) bufsize ? buf + ( X - start ) : nullptr );
}
extern "C" int stub_FileRead( rtl::p3utils::Tp3FileHandle, char *b, uint32_t n, uint32_t &res )
{
   const int64_t left = fsize > fpos ? fsize - fpos : 0;
   res = (int64_t) n < left ? n : (uint32_t) left;
   vf_assert( (uint8_t *) b == buf, "UNDECIDED reads past the buffer" );
   vf_assert( n <= bufsize, "the buffer is filled within its size" );
   vf_blockhavoc( b );
   watchBuf( fpos );
   if( X >= fpos && X < fpos + (int64_t) res ) REQUIRES( (uint8_t) b[X - fpos] == fval );
   fpos += res;
   return 0;
}
extern "C" int stub_FileWrite( rtl::p3utils::Tp3FileHandle, const char *b, uint32_t n, uint32_t &res )
{
   res = n;
   if( X >= fpos && X < fpos + (int64_t) n ) fval = (uint8_t) b[X - fpos];
   fpos += n;
   if( fpos > fsize ) fsize = fpos;
   watchBuf( fpos );
   return 0;
}
extern "C" int stub_SetPointer( rtl::p3utils::Tp3FileHandle, int64_t d, int64_t &np, uint32_t )
{
   fpos = np = d;
   watchBuf( d );
   return 0;
}
static int64_t lpos( const TBufferedFileStream &S ) { return S.NrWritten ? S.PhysPosition + S.NrWritten : S.PhysPosition - S.NrLoaded + S.NrRead; }
static int64_t lsize( const TBufferedFileStream &S ) { const int64_t e = S.PhysPosition + S.NrWritten; return S.NrWritten && e > fsize ? e : fsize; }
static uint8_t lbyte( const TBufferedFileStream &S )
{
   return S.NrWritten && X >= S.PhysPosition && X < S.PhysPosition + (int64_t) S.NrWritten ? buf[X - S.PhysPosition] : fval;
}
static bool inv( const TBufferedFileStream &S )
{
   bool ok = ( S.BufSize == bufsize ) & ( S.NrWritten <= bufsize ) & ( S.NrRead <= S.NrLoaded ) & ( S.NrLoaded <= bufsize ) & ( S.NrWritten == 0 || S.NrLoaded == 0 ) & ( S.PhysPosition == fpos ) &
             ( fpos >= (int64_t) S.NrLoaded ) & ( S.NrLoaded == 0 || fpos <= fsize );
   const int64_t st = S.PhysPosition - S.NrLoaded;
   if( ok && S.NrLoaded && X >= st && X < st + (int64_t) S.NrLoaded ) ok = buf[X - st] == fval;
   return ok;
}
static void setup( TBufferedFileStream &S )
{
   bufsize = (uint32_t) nd_range( 1, 1 << 20 );
   buf = (uint8_t *) vf_block( bufsize );
   auto **v = (uint8_t **) &S.BufPtr;
   v[0] = buf;
   v[1] = v[2] = buf + bufsize;
   new( (void *) &S.FPassWord ) std::string();
   S.FCompress = false;
   S.BufSize = bufsize;
   fpos = nd_pos();
   fsize = nd_pos();
   X = nd_pos();
   fval = nd_u8();
   S.PhysPosition = fpos;
   S.NrLoaded = (uint32_t) nd_range( 0, 1 << 20 );
   S.NrRead = (uint32_t) nd_range( 0, 1 << 20 );
   S.NrWritten = (uint32_t) nd_range( 0, 1 << 20 );
   REQUIRES( inv( S ) );
   REQUIRES( lpos( S ) <= lsize( S ) );// positioning beyond the end is not part of the contract
   watchBuf( S.NrWritten ? S.PhysPosition : S.PhysPosition - S.NrLoaded );
}
#ifdef VF_NATIVE
#define NATIVE_SKIP vf_assume( false )
#else
#define NATIVE_SKIP
#endif
// parameter 0: the call writes at most that many buffers full
extern "C" void c_write()
{
   NATIVE_SKIP;
   VF_OBJ( TBufferedFileStream, S, vf_noname, 0 );
   setup( S );
   const uint32_t n = (uint32_t) nd_range( 0, 1 << 24 );
   REQUIRES( n <= (uint64_t) vf_param( 0 ) * bufsize );
   auto *u = (uint8_t *) vf_block( n ? n : 1 );
   const int64_t p = lpos( S ), z = lsize( S );
   const uint8_t o = lbyte( S ), w = X >= p && X < p + (int64_t) n ? u[X - p] : 0;
   const uint32_t r = S.Write( u, n );
   ENSURES( r == n, "all bytes are taken" );
   ENSURES( lpos( S ) == p + n, "the position advances by the bytes written" );
   ENSURES( lsize( S ) == ( p + (int64_t) n > z ? p + (int64_t) n : z ), "the size reflects the bytes written" );
   ENSURES( lbyte( S ) == ( X >= p && X < p + (int64_t) n ? w : o ), "the bytes written are in place, all others unchanged" );
   ENSURES( inv( S ), "stream invariant" );
   COVER( S.NrWritten == 1 && n > 1, "flushed" );
}
// parameter 1: 0 after reading, 1 after writing
extern "C" void c_read()
{
   NATIVE_SKIP;
   VF_OBJ( TBufferedFileStream, S, vf_noname, 0 );
   setup( S );
   REQUIRES( vf_param( 1 ) == 0 ? S.NrWritten == 0 : S.NrWritten > 0 );
   const uint32_t n = (uint32_t) nd_range( 0, 1 << 24 );
   REQUIRES( n <= (uint64_t) vf_param( 0 ) * bufsize );
   auto *u = (uint8_t *) vf_block( n ? n : 1 );
   const int64_t p = lpos( S ), z = lsize( S ), left = z - p;
   const uint8_t o = lbyte( S );
   const uint32_t want = (int64_t) n < left ? n : (uint32_t) left;
   vf_watchp( 1, X >= p && X - p < (int64_t) n ? u + ( X - p ) : nullptr );
   const uint32_t r = S.Read( u, n );
   ENSURES( r == want, "as many bytes as requested, or up to the end" );
   ENSURES( lpos( S ) == p + r, "the position advances by the bytes read" );
   ENSURES( lsize( S ) == z, "the size is unchanged" );
   if( X >= p && X < p + (int64_t) r ) ENSURES( u[X - p] == o, "the bytes read are the bytes of the file at that position" );
   if( X < z ) ENSURES( lbyte( S ) == o, "the content is unchanged" );
   ENSURES( inv( S ), "stream invariant" );
   COVER( n > 1 && r == n && ( vf_param( 1 ) || S.NrRead == 1 ), "refilled" );
}
// positioning; parameter 0: 0 SetPosition, 1 GetPosition, 2 FlushBuffer
extern "C" void c_pos()
{
   NATIVE_SKIP;
   VF_OBJ( TBufferedFileStream, S, vf_noname, 0 );
   setup( S );
   const int64_t p = lpos( S ), z = lsize( S );
   const uint8_t o = lbyte( S );
   int64_t q = p;
   if( vf_param( 0 ) == 0 )
   {
      q = nd_pos();
      S.TBufferedFileStream::SetPosition( q );
   }
   else if( vf_param( 0 ) == 1 ) ENSURES( S.TBufferedFileStream::GetPosition() == p, "the position is the number of bytes before it" );
   else ENSURES( S.FlushBuffer(), "flushed" );
   if( vf_param( 0 ) < 2 || S.NrLoaded == 0 ) ENSURES( lpos( S ) == q, "position" );
   ENSURES( lsize( S ) == z, "the size is unchanged" );
   if( X < z ) ENSURES( lbyte( S ) == o, "the content is unchanged" );
   ENSURES( inv( S ), "stream invariant" );
   COVER( p != q || vf_param( 0 ), "end" );
}

// the password transformation: parameter 0: length of the password, parameter 1: bytes transformed
static std::string pw;
extern "C" void c_password()
{
#ifdef VF_NATIVE
   TXFileStream &Q = *new TXFileStream( "/dev/null", fmOpenRead );
   Q.FPassWord.clear();
#else
   VF_OBJ( TXFileStream, Q, vf_noname, fmOpenRead );
   new( (void *) &Q.FPassWord ) std::string();
#endif
   const int L = vf_param( 0 ), n = vf_param( 1 );
   for( int i = 0; i < L; i++ ) Q.FPassWord.push_back( (char) nd_u8() );
   static char a[8], b[8], c[8], d[8];
   const int64_t at = (int64_t) ( nd_u64() & 0x3ffffffffull );
   for( int i = 0; i < n; i++ ) a[i] = (char) nd_u8();
   Q.ApplyPassWord( a, b, n, at );
   Q.ApplyPassWord( b, c, n, at );
   bool same = true;
   for( int i = 0; i < n; i++ ) same = same & ( c[i] == a[i] );
   ENSURES( same, "applying the password twice at the same position restores the bytes" );
   const int k = nd_range( 0, n );
   Q.ApplyPassWord( a, d, k, at );
   Q.ApplyPassWord( a + k, d + k, n - k, at + k );
   same = true;
   for( int i = 0; i < n; i++ ) same = same & ( b[i] == d[i] );
   ENSURES( same, "the transformation of a byte depends on its position only, not on the chunks" );
   COVER( k == 1, "end" );
}
