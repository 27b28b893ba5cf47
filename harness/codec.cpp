// Contracts of the primitive value encoding of the streams (TXStream, TMiBufferedStream), over a ghost byte tape.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
#include "common.hpp"
#include "ghoststubs.hpp"
#ifdef VF_NATIVE
static std::string vf_noname { "/dev/null" };
#else
extern std::string vf_noname;
#endif
#define CAP 280
// contract of the byte stream below: bytes are read back in the order written, whatever the chunks
struct Tape : TMiBufferedStream
{
   uint8_t b[CAP];
   uint32_t wpos, rpos;
   Tape() : TMiBufferedStream( vf_noname, gdlib::gmsstrm::fmOpenRead )
   {
      wpos = rpos = 0;
      order_word = order_integer = order_double = 0;
      size_word = 2; size_integer = 4; size_double = 8;
      NormalOrder = true;
   }
   uint32_t Write( const void *B, uint32_t n ) override
   {
      vf_assert( wpos + n <= CAP, "UNDECIDED tape full" );
      for( uint32_t i = 0; i < n; i++ ) b[wpos + i] = ( (const uint8_t *) B )[i];
      wpos += n;
      return n;
   }
   uint32_t Read( void *B, uint32_t n ) override
   {
      vf_assert( rpos + n <= wpos, "exactly the bytes written are consumed" );
      for( uint32_t i = 0; i < n; i++ ) ( (uint8_t *) B )[i] = b[rpos + i];
      rpos += n;
      return n;
   }
   int64_t GetPosition() override { return rpos; }
   void SetPosition( int64_t p ) override { rpos = (uint32_t) p; }
};
static double dbl( uint64_t u ) { double d; memcpy( &d, &u, 8 ); return d; }
// all values of one primitive type; parameter 0: type
extern "C" void c_prim()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const uint64_t u = nd_u64();
   bool same = false;
   uint32_t size = 0;
   switch( vf_param( 0 ) )
   {
      case 0: t.WriteByte( (uint8_t) u ); same = t.ReadByte() == (uint8_t) u; size = 1; break;
      case 1: t.WriteWord( (uint16_t) u ); same = t.ReadWord() == (uint16_t) u; size = 2; break;
      case 2: t.WriteInteger( (int) u ); same = t.ReadInteger() == (int) u; size = 4; break;
      case 3: t.WriteInt64( (int64_t) u ); same = t.ReadInt64() == (int64_t) u; size = 8; break;
      case 4: t.WriteDouble( dbl( u ) ); same = vf_bits( t.ReadDouble() ) == u; size = 8; break;
      case 5: t.WriteBool( u & 1 ); same = t.ReadBool() == ( ( u & 1 ) != 0 ); size = 1; break;
      case 6: t.WriteChar( (char) u ); same = t.ReadChar() == (char) u; size = 1; break;
   }
   ENSURES( same, "the value read is the value written" );
   ENSURES( t.rpos == t.wpos, "exactly the bytes written are consumed" );
   ENSURES( t.wpos == size, "size of the stored form" );
   COVER( true, "end" );
}
extern "C" void c_gmsint()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const int n = nd_int();
   t.WriteGmsInteger( n );
   ENSURES( t.wpos <= 5, "at most five bytes" );
   ENSURES( t.ReadGmsInteger() == n, "the packed integer read is the one written" );
   ENSURES( t.rpos == t.wpos, "exactly the bytes written are consumed" );
   COVER( n < -70000, "end" );
}
// parameter 0: byte order of the packed form
extern "C" void c_gmsdbl()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const uint64_t u = nd_u64();
   const double d = dbl( u );
   REQUIRES( d < 1.0e300 );
   t.WriteGmsDouble( d );
   ENSURES( t.wpos <= 9, "at most nine bytes" );
   const double r = t.ReadGmsDouble();
   ENSURES( d == 0.0 ? r == 0.0 : vf_bits( r ) == u, "the packed double read is the one written (a zero of either sign as zero)" );
   ENSURES( t.rpos == t.wpos, "exactly the bytes written are consumed" );
   COVER( d < -2.5, "end" );
}
// special values and acronyms in packed form; parameter 0: 1..5 special value, otherwise 10 * acronym number
extern "C" void c_gmssv()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const double d = vf_param( 0 ) * 1.0e300;
   t.WriteGmsDouble( d );
   ENSURES( t.ReadGmsDouble() == d, "a special value or acronym survives the packed form" );
   ENSURES( t.rpos == t.wpos, "exactly the bytes written are consumed" );
   COVER( true, "end" );
}
// a value stored in the opposite byte order is read as the same value; parameter 0: type
extern "C" void c_order()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const uint64_t u = nd_u64();
   const int sizes[4] = { 2, 4, 8, 8 };
   const int k = vf_param( 0 ), sz = sizes[k];
   for( int i = 0; i < sz; i++ ) t.b[i] = (uint8_t) ( u >> 8 * ( sz - 1 - i ) );
   t.wpos = sz;
   t.order_word = k == 0 || nd_bool();
   t.order_integer = k == 1 || k == 3 || nd_bool();
   t.order_double = k == 2 || nd_bool();
   bool same = false;
   switch( k )
   {
      case 0: same = t.ReadWord() == (uint16_t) u; break;
      case 1: same = t.ReadInteger() == (int) u; break;
      case 2: same = vf_bits( t.ReadDouble() ) == u; break;
      case 3: same = t.ReadInt64() == (int64_t) u; break;
   }
   ENSURES( same, "a value in the opposite byte order is read as the same value" );
   ENSURES( t.rpos == (uint32_t) sz, "exactly the bytes of the value are consumed" );
   COVER( true, "end" );
}
// the header of a file determines the byte order; parameter 0: bit 0 words swapped, bit 1 integers swapped, bit 2 doubles swapped
extern "C" void c_detect()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const int p = vf_param( 0 );
   auto put = [&]( const void *v, int n, bool rev ) {
      t.b[t.wpos++] = (uint8_t) n;
      for( int i = 0; i < n; i++ ) t.b[t.wpos++] = ( (const uint8_t *) v )[rev ? n - 1 - i : i];
   };
   const uint16_t w = 0x1234;
   const int i = 0x12345678;
   const double d = 3.1415926535897932385;
   put( &w, 2, p & 1 );
   put( &i, 4, p & 2 );
   put( &d, 8, p & 4 );
   t.order_word = nd_u8();
   t.order_integer = nd_u8();
   t.order_double = nd_u8();
   t.DetermineByteOrder();
   ENSURES( t.order_word == ( p & 1 ) && t.order_integer == ( ( p >> 1 ) & 1 ) && t.order_double == ( ( p >> 2 ) & 1 ), "the byte order of the file is recognised" );
   ENSURES( t.GoodByteOrder() == 0, "either byte order is good" );
   ENSURES( t.WordsNeedFlip() == ( ( p & 1 ) != 0 ) && t.IntsNeedFlip() == ( ( p & 2 ) != 0 ), "swapping is reported" );
   ENSURES( t.rpos == t.wpos, "the header is consumed" );
   COVER( true, "end" );
}
// any other header is reported; parameter 0: which pattern is wrong
extern "C" void c_badorder()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   const int k = vf_param( 0 ), n = k == 0 ? 2 : k == 1 ? 4 : 8;
   t.b[0] = (uint8_t) n;
   for( int i = 0; i < n; i++ ) t.b[1 + i] = nd_u8();
   t.wpos = 1 + n;
   const uint16_t w = 0x1234;
   const int v = 0x12345678;
   const double d = 3.1415926535897932385;
   const uint8_t *q = k == 0 ? (const uint8_t *) &w : k == 1 ? (const uint8_t *) &v : (const uint8_t *) &d;
   bool fwd = true, rev = true;
   for( int i = 0; i < n; i++ ) { fwd = fwd & ( t.b[1 + i] == q[i] ); rev = rev & ( t.b[1 + i] == q[n - 1 - i] ); }
   uint8_t o = 77, s = 0;
   if( k == 0 ) t.initOrderCommon<uint16_t>( o, s, w );
   else if( k == 1 ) t.initOrderCommon<int>( o, s, v );
   else t.initOrderCommon<double>( o, s, d );
   ENSURES( ( o == 0 ) == fwd, "the native pattern, and only it, means native order" );
   ENSURES( ( o == 1 ) == ( rev && !fwd ), "the reversed pattern, and only it, means opposite order" );
   if( k == 0 ) { t.order_word = o; t.order_integer = t.order_double = 0; }
   else if( k == 1 ) { t.order_integer = o; t.order_word = t.order_double = 0; }
   else { t.order_double = o; t.order_integer = t.order_word = 0; }
   ENSURES( ( t.GoodByteOrder() != 0 ) == ( !fwd && !rev ), "any other pattern is reported as bad" );
   COVER( !fwd && !rev, "end" );
}
// strings: parameter 0: the largest length tried
extern "C" void c_string()
{
   NoDtor<Tape> TT;
   Tape &t = TT.v;
   static char s[260];
   const int n = nd_range( 0, vf_param( 0 ) );
   for( int i = 0; i < vf_param( 0 ); i++ ) s[i] = (char) nd_u8();
   t.WriteString( std::string_view( s, (size_t) n ) );
   const int k = n > 255 ? 255 : n;
   ENSURES( t.wpos == (uint32_t) k + 1 && t.b[0] == k, "a length byte and the characters" );
   static char o[260];
   uint8_t len = 0;
   t.ReadSString( o, len );
   ENSURES( len == k && o[k] == 0, "the length read is the length written, terminated" );
   bool same = true;
   for( int i = 0; i < vf_param( 0 ) && i < 255; i++ ) same = same & ( i >= k || o[i] == s[i] );
   ENSURES( same, "the text read is the text written" );
   ENSURES( t.rpos == t.wpos, "exactly the bytes written are consumed" );
   COVER( n > 2, "end" );
}
