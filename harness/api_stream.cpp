#include "api.hpp"
#include "gmsstrm.hpp"
using namespace gdlib::gmsstrm;
static std::string genChunk( Rnd &r, int kind )
{
   static const int sz[] { 0, 1, 2, 7, 8, 255, 256, 1000, 4095, 4096, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 70000, 98304, 100000 };
   int n = r.p( 75 ) ? r.in( 0, 600 ) : sz[r.in( 0, 19 )] + ( r.p( 30 ) ? r.in( 0, 3 ) : 0 );
   std::string s( n, 0 );
   const int rep = kind ? kind : r.in( 1, 4 );
   if( rep == 1 ) for( auto &c: s ) c = (char) r.u();
   else if( rep == 2 ) { const char c0 = (char) r.u(); for( auto &c: s ) c = c0; }
   else { for( size_t i = 0; i < s.size(); i++ ) s[i] = (char) ( i / 3 + rep ); }
   return s;
}
static std::string readN( Rnd &r, TBufferedFileStream &f, size_t total, bool &shortRead, bool chars = true )
{
   std::string got;
   shortRead = false;
   while( got.size() < total )
   {
      size_t n = r.p( 40 ) ? r.in( 1, 9 ) : r.p( 50 ) ? r.in( 1, 5000 ) : r.in( 1, 80000 );
      n = std::min( n, total - got.size() );
      if( chars && n == 1 && r.p( 50 ) ) { got += f.ReadCharacter(); continue; }
      std::string b( n, 'Z' );
      const auto k = f.Read( b.data(), (uint32_t) n );
      got.append( b, 0, k );
      if( k < n ) { shortRead = true; break; }
   }
   return got;
}
// P08: sections written through the buffered (compressed, password protected) stream read back exactly
extern "C" void api_stream()
{
   Rnd r( vf_seed() );
   unlink( "s.bin" );
   struct Sec { bool comp; int64_t pos; std::string data; };
   std::vector<Sec> secs;
   const std::string pw = r.p( 30 ) ? std::string( r.in( 1, 12 ), 'a' + r.in( 0, 25 ) ) + "x y" : "";
   const bool plainOnly = r.p( 30 );
   std::string img;
   {
      TBufferedFileStream f( "s.bin", FileAccessMode::fmCreate );
      if( !pw.empty() ) f.SetPassWord( pw );
      CHECK( f.GetUsesPassWord() == !pw.empty(), "password in use" );
      for( int k = r.in( 1, 6 ); k > 0; k-- )
      {
         Sec s;
         s.comp = !plainOnly && r.p( 60 );
         f.SetCompression( s.comp );
         CHECK( f.GetCompression() == s.comp, "compression switched" );
         s.pos = f.GetPosition();
         for( int q = r.in( 0, 12 ); q > 0; q-- )
         {
            auto c = genChunk( r, 0 );
            CHECK( f.Write( c.data(), (uint32_t) c.size() ) == c.size(), "all bytes accepted" );
            s.data += c;
            if( !s.comp && r.p( 30 ) ) CHECK( f.GetPosition() == s.pos + (int64_t) s.data.size(), "position counts the bytes written" );
            if( !s.comp && r.p( 15 ) && !s.data.empty() )
            {// overwrite within the section, then go on at its end
               const size_t at = r.u() % s.data.size();
               auto o = genChunk( r, 0 );
               o.resize( std::min( o.size(), s.data.size() - at ) );
               f.SetPosition( s.pos + (int64_t) at );
               CHECK( f.GetPosition() == s.pos + (int64_t) at, "position after a seek" );
               f.Write( o.data(), (uint32_t) o.size() );
               s.data.replace( at, o.size(), o );
               f.SetPosition( s.pos + (int64_t) s.data.size() );
            }
         }
         // a section ends where the next one starts
         f.SetCompression( false );
         (void) f.GetPosition();
         secs.push_back( s );
         if( plainOnly ) img += s.data;
      }
      CHECK( f.GetLastIOResult() == 0, "no I/O error while writing" );
   }
   if( plainOnly && pw.empty() )
   {
      FILE *h = fopen( "s.bin", "rb" );
      std::string d( img.size() + 10, 0 );
      const size_t n = fread( d.data(), 1, d.size(), h );
      fclose( h );
      d.resize( n );
      CHECK( d == img, "without compression and password the file is the bytes written" );
   }
   if( !pw.empty() && secs[0].data.size() > 40 && !secs[0].comp )
   {
      FILE *h = fopen( "s.bin", "rb" );
      std::string d( 40, 0 );
      CHECK( fread( d.data(), 1, 40, h ) == 40, "file has the bytes" );
      fclose( h );
      CHECK( d != secs[0].data.substr( 0, 40 ), "with a password the bytes are not in clear" );
   }
   {
      TBufferedFileStream f( "s.bin", FileAccessMode::fmOpenRead );
      if( !pw.empty() ) f.SetPassWord( pw );
      for( int q = r.in( 1, 8 ); q > 0; q-- )
      {
         auto &s = r.pick( secs );
         f.SetCompression( s.comp );
         f.SetPosition( s.pos );
         bool sh;
         const size_t n = r.p( 60 ) ? s.data.size() : r.u() % ( s.data.size() + 1 );
         auto got = readN( r, f, n, sh );
         CHECK( !sh && got == s.data.substr( 0, n ), "a section reads back byte for byte" );
         if( !s.comp )
         {
            CHECK( f.GetPosition() == s.pos + (int64_t) n, "read position" );
            if( !s.data.empty() )
            {
               const size_t at = r.u() % s.data.size();
               f.SetPosition( s.pos + (int64_t) at );
               auto g2 = readN( r, f, s.data.size() - at, sh );
               CHECK( !sh && g2 == s.data.substr( at ), "reading from a position inside a section" );
            }
         }
      }
      auto &s = secs.back();
      f.SetCompression( s.comp );
      f.SetPosition( s.pos );
      bool sh;
      auto got = readN( r, f, s.data.size() + 7, sh, false );
      CHECK( sh && got == s.data, "reading past the end delivers what is there" );
   }
   if( plainOnly && !img.empty() )
   {// read-write mode, as used for appending
      {
         TBufferedFileStream f( "s.bin", FileAccessMode::fmOpenReadWrite );
         if( !pw.empty() ) f.SetPassWord( pw );
         for( int q = r.in( 1, 8 ); q > 0; q-- )
         {
            const size_t at = r.u() % ( img.size() + 1 );
            f.SetPosition( (int64_t) at );
            if( r.p( 50 ) )
            {
               bool sh;
               const size_t n = std::min<size_t>( img.size() - at, r.in( 0, 40000 ) );
               auto got = readN( r, f, n, sh );
               CHECK( !sh && got == img.substr( at, n ), "mixed reading" );
               if( r.p( 50 ) )
               {
                  auto c = genChunk( r, 0 );
                  CHECK( f.Write( c.data(), (uint32_t) c.size() ) == c.size(), "mixed writing" );
                  if( at + n + c.size() > img.size() ) img.resize( at + n + c.size() );
                  img.replace( at + n, c.size(), c );
               }
            }
            else
            {
               auto c = genChunk( r, 0 );
               CHECK( f.Write( c.data(), (uint32_t) c.size() ) == c.size(), "mixed writing" );
               if( at + c.size() > img.size() ) img.resize( at + c.size() );
               img.replace( at, c.size(), c );
            }
         }
      }
      TBufferedFileStream f( "s.bin", FileAccessMode::fmOpenRead );
      if( !pw.empty() ) f.SetPassWord( pw );
      bool sh;
      CHECK( readN( r, f, img.size(), sh ) == img, "the file after mixed reading and writing" );
   }
   unlink( "s.bin" );
}
// P09: typed values
extern "C" void api_codec()
{
   Rnd r( vf_seed() );
   unlink( "c.bin" );
   struct V { int t; uint64_t u; std::string s; };
   std::vector<V> vs;
   std::string img;
   auto app = [&]( const void *p, size_t n ) { img.append( (const char *) p, n ); };
   int hdr = 0;
   {
      TMiBufferedStream f( "c.bin", FileAccessMode::fmCreate );
      hdr = (int) f.GetPosition();
      for( int k = r.in( 1, r.p( 5 ) ? 6000 : 60 ); k > 0; k-- )
      {
         V v;
         v.t = r.in( 0, 9 );
         v.u = r.u() >> r.in( 0, 63 );
         if( r.p( 20 ) ) v.u = ~v.u;
         switch( v.t )
         {
            case 0: { uint8_t x = (uint8_t) v.u; f.WriteByte( x ); app( &x, 1 ); break; }
            case 1: { uint16_t x = (uint16_t) v.u; f.WriteWord( x ); app( &x, 2 ); break; }
            case 2: { int x = (int) v.u; f.WriteInteger( x ); app( &x, 4 ); break; }
            case 3: { int64_t x = (int64_t) v.u; f.WriteInt64( x ); app( &x, 8 ); break; }
            case 4: { double x = fromBits( v.u ); f.WriteDouble( x ); app( &x, 8 ); break; }
            case 5: { f.WriteBool( v.u & 1 ); app( ( v.u & 1 ) ? "\1" : "\0", 1 ); break; }
            case 6: { char x = (char) v.u; f.WriteChar( x ); app( &x, 1 ); break; }
            case 7:
            {
               v.s.resize( r.p( 10 ) ? 255 : r.in( 0, 255 ) );
               for( auto &c: v.s ) c = (char) r.u();
               f.WriteString( std::string_view( v.s ) );
               uint8_t l = (uint8_t) v.s.size();
               app( &l, 1 ); app( v.s.data(), v.s.size() );
               break;
            }
            case 8: { if( r.p( 3 ) ) v.u = 0x80000000u; f.WriteGmsInteger( (int) v.u ); break; }
            default:
            {
               double x = r.p( 50 ) ? genVal( r ) : r.p( 50 ) ? r.in( 1, 1000 ) * 1e301 : fromBits( v.u );
               if( std::isnan( x ) || std::isinf( x ) || x > 1.5e304 ) x = 1.5;
               memcpy( &v.u, &x, 8 );
               f.WriteGmsDouble( x );
            }
         }
         vs.push_back( v );
      }
   }
   bool gms = false;
   for( auto &v: vs ) gms |= v.t >= 8;
   if( !gms )
   {
      FILE *h = fopen( "c.bin", "rb" );
      fseek( h, hdr, SEEK_SET );
      std::string d( img.size() + 10, 0 );
      d.resize( fread( d.data(), 1, d.size(), h ) );
      fclose( h );
      CHECK( d == img, "values are stored in native layout, strings with a length byte" );
   }
   TMiBufferedStream f( "c.bin", FileAccessMode::fmOpenRead );
   CHECK( f.GoodByteOrder() == 0 && !f.WordsNeedFlip() && !f.IntsNeedFlip(), "own files need no byte swapping" );
   for( auto &v: vs )
      switch( v.t )
      {
         case 0: CHECK( f.ReadByte() == (uint8_t) v.u, "byte" ); break;
         case 1: CHECK( f.ReadWord() == (uint16_t) v.u, "word" ); break;
         case 2: CHECK( f.ReadInteger() == (int) v.u, "integer" ); break;
         case 3: CHECK( f.ReadInt64() == (int64_t) v.u, "64-bit integer" ); break;
         case 4: { CHECK( vf_bits( f.ReadDouble() ) == v.u, "double" ); break; }
         case 5: CHECK( f.ReadBool() == ( v.u & 1 ), "boolean" ); break;
         case 6: CHECK( f.ReadChar() == (char) v.u, "character" ); break;
         case 7: CHECK( f.ReadString() == v.s, "string" ); break;
         case 8: CHECK( f.ReadGmsInteger() == (int) v.u, "packed integer" ); break;
         default:
         {
            const double x = fromBits( v.u ), y = f.ReadGmsDouble();
            double w = x == 0 ? 0.0 : x;
            if( x >= 1e300 )
            {
               static const double sp[] { 1e300, 2e300, 3e300, 4e300, 5e300 };
               bool is = false;
               for( double q: sp ) is |= x == q;
               if( !is && x < 1e301 ) break;// between the special values: classified by tolerance, not claimed
               if( x >= 1e301 ) w = std::floor( x / 1e301 + 0.5 ) * 1e301;
            }
            CHECK( vf_bits( y ) == vf_bits( w ), "packed double" );
         }
      }
   unlink( "c.bin" );
}
