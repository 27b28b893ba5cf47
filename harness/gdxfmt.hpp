// Independent decoder of the GDX V7 file format, written from the format, not from the library; also produces the
// byte-swapped twin of an uncompressed file (what a machine of the other byte order would have written).
#pragma once
#include "api.hpp"
#include <zlib.h>
struct FSym
{
   std::string name, text;
   int64_t pos {};
   int dim {}, typ {}, uinfo {}, count {}, errs {}, settext {}, compr {};
   bool hasDom {}, hasDomStr {};
   std::vector<int> dom, domStr;
   std::vector<std::string> comments;
   int nrRecsHdr {};
   std::vector<int> mn, mx;
   std::vector<Rec> recs;
   std::vector<std::array<uint8_t, 5>> codes;// value code of every field
};
struct FFileM
{
   bool ok { false };
   std::string why, audit, producer;
   int version {}, compr {};
   std::vector<FSym> syms;
   std::vector<std::string> uels, texts, doms;
   struct A { std::string n, t; int i; };
   std::vector<A> acr;
   std::vector<uint8_t> swapped;
};
struct FDec
{
   std::vector<uint8_t> raw, out;
   std::vector<uint8_t> z;// expanded blocks
   bool inZ {};
   size_t p {};
   bool bad {};
   void seek( int64_t q, bool compressed )
   {
      inZ = compressed;
      if( q < 0 || q > (int64_t) raw.size() ) { bad = true; q = 0; }
      if( !compressed ) { p = (size_t) q; return; }
      z.clear();
      size_t i = (size_t) q;
      // expand the following blocks lazily enough: all until the file ends or a block is malformed
      while( i + 3 <= raw.size() && z.size() < 4u << 20 )
      {
         const int typ = raw[i], len = raw[i + 1] * 256 + raw[i + 2];
         if( typ > 1 || i + 3 + len > raw.size() || len == 0 ) break;
         if( typ == 0 ) { if( len > 32768 ) break; z.insert( z.end(), &raw[i + 3], &raw[i + 3] + len ); }
         else
         {
            std::vector<uint8_t> b( 32768 );
            unsigned long L = b.size();
            if( uncompress( b.data(), &L, &raw[i + 3], len ) != Z_OK ) break;
            z.insert( z.end(), b.begin(), b.begin() + (long) L );
         }
         i += 3 + len;
      }
      p = 0;
   }
   void get( void *d, size_t n, bool swap )
   {
      auto &s = inZ ? z : raw;
      if( p + n > s.size() ) { bad = true; memset( d, 0, n ); return; }
      memcpy( d, &s[p], n );
      if( swap && !inZ ) for( size_t i = 0; i < n; i++ ) out[p + i] = raw[p + n - 1 - i];
      p += n;
   }
   uint8_t b() { uint8_t x; get( &x, 1, false ); return x; }
   uint16_t w() { uint16_t x; get( &x, 2, true ); return x; }
   int i() { int x; get( &x, 4, true ); return x; }
   int64_t l() { int64_t x; get( &x, 8, true ); return x; }
   double d() { double x; get( &x, 8, true ); return x; }
   std::string s() { const int n = b(); std::string r( n, 0 ); if( n ) get( r.data(), n, false ); return r; }
};
static std::vector<uint8_t> slurp( const char *fn )
{
   std::vector<uint8_t> v;
   FILE *f = fopen( fn, "rb" );
   if( !f ) return v;
   uint8_t b[65536];
   size_t n;
   while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) v.insert( v.end(), b, b + n );
   fclose( f );
   return v;
}
static void spew( const char *fn, const std::vector<uint8_t> &v )
{
   FILE *f = fopen( fn, "wb" );
   fwrite( v.data(), 1, v.size(), f );
   fclose( f );
}
#define FAIL( x ) do { m.why = x; return m; } while( 0 )
static FFileM decodeGdx( const std::vector<uint8_t> &bytes )
{
   FFileM m;
   FDec f;
   f.raw = f.out = bytes;
   if( f.b() != 2 || f.w() != 0x1234 || f.b() != 4 || f.i() != 0x12345678 || f.b() != 8 || f.d() != 3.1415926535897932385 ) FAIL( "byte order header" );
   if( f.b() != 123 || f.s() != "GAMSGDX" ) FAIL( "file header" );
   m.version = f.i();
   if( m.version != 7 ) FAIL( "version" );
   m.compr = f.i();
   m.audit = f.s();
   m.producer = f.s();
   if( f.i() != 19510624 ) FAIL( "index mark" );
   const int64_t symb = f.l(), uel = f.l(), sett = f.l(), acro = f.l(), nextw = f.l(), doms = f.l();
   (void) nextw;
   f.seek( symb, m.compr );
   if( f.s() != "_SYMB_" ) FAIL( "symbol mark" );
   const int ns = f.i();
   if( ns < 0 || ns > 100000 ) FAIL( "symbol count" );
   for( int n = 0; n < ns && !f.bad; n++ )
   {
      FSym s;
      s.name = f.s();
      s.pos = f.l(); s.dim = f.i(); s.typ = f.b(); s.uinfo = f.i(); s.count = f.i(); s.errs = f.i(); s.settext = f.b(); s.text = f.s(); s.compr = f.b();
      if( s.dim < 0 || s.dim > 20 || s.typ > 4 ) FAIL( "symbol entry" );
      s.hasDom = f.b();
      if( s.hasDom ) for( int d = 0; d < s.dim; d++ ) s.dom.push_back( f.i() );
      const int nc = f.i();
      for( int c = 0; c < nc && !f.bad; c++ ) s.comments.push_back( f.s() );
      m.syms.push_back( s );
   }
   if( f.s() != "_SYMB_" ) FAIL( "symbol end mark" );
   f.seek( sett, m.compr );
   if( f.s() != "_SETT_" ) FAIL( "text mark" );
   for( int n = f.i(); n > 0 && !f.bad; n-- ) m.texts.push_back( f.s() );
   if( f.s() != "_SETT_" ) FAIL( "text end mark" );
   f.seek( uel, m.compr );
   if( f.s() != "_UEL_" ) FAIL( "element mark" );
   for( int n = f.i(); n > 0 && !f.bad; n-- ) m.uels.push_back( f.s() );
   if( f.s() != "_UEL_" ) FAIL( "element end mark" );
   f.seek( acro, m.compr );
   if( f.s() != "_ACRO_" ) FAIL( "acronym mark" );
   for( int n = f.i(); n > 0 && !f.bad; n-- ) { FFileM::A a; a.n = f.s(); a.t = f.s(); a.i = f.i(); m.acr.push_back( a ); }
   if( f.s() != "_ACRO_" ) FAIL( "acronym end mark" );
   f.seek( doms, m.compr );
   if( f.s() != "_DOMS_" ) FAIL( "domain mark" );
   for( int n = f.i(); n > 0 && !f.bad; n-- ) m.doms.push_back( f.s() );
   if( f.s() != "_DOMS_" ) FAIL( "domain mid mark" );
   while( !f.bad )
   {
      const int n = f.i();
      if( n <= 0 ) break;
      if( n > ns ) FAIL( "domain symbol" );
      m.syms[n - 1].hasDomStr = true;
      for( int d = 0; d < m.syms[n - 1].dim; d++ ) m.syms[n - 1].domStr.push_back( f.i() );
   }
   if( f.s() != "_DOMS_" || f.bad ) FAIL( "domain end mark" );
   static const double code[] { SV_UNDEF, SV_NA, SV_PINF, SV_MINF, SV_EPS, 0, 1, -1, 0.5, 2 };
   for( auto &s: m.syms )
   {
      if( !s.pos ) continue;
      f.seek( s.pos, s.compr );
      if( f.s() != "_DATA_" || f.b() != s.dim ) FAIL( "data mark" );
      s.nrRecsHdr = f.i();
      for( int d = 0; d < s.dim; d++ ) { s.mn.push_back( f.i() ); s.mx.push_back( f.i() ); }
      std::vector<int> cur( s.dim, -256 );
      for( ;; )
      {
         if( f.bad ) FAIL( "data ends early" );
         const int c = f.b();
         if( c == 255 ) break;
         if( c > s.dim && s.dim > 0 ) cur[s.dim - 1] += c - s.dim;
         else if( s.dim > 0 )
         {
            if( c < 1 ) FAIL( "record code" );
            for( int d = c - 1; d < s.dim; d++ )
            {
               const int64_t range = (int64_t) s.mx[d] - s.mn[d] + 1;
               const int x = range <= 0 ? f.i() : range < 256 ? f.b() : range < 65536 ? f.w() : f.i();
               cur[d] = s.mn[d] + x;
            }
         }
         for( int d = 0; d < s.dim; d++ ) if( cur[d] < s.mn[d] || cur[d] > s.mx[d] ) FAIL( "element outside the announced range" );
         Rec r;
         r.k = cur;
         std::array<uint8_t, 5> cs {};
         for( int j = 0; j < nvals[s.typ]; j++ )
         {
            cs[j] = f.b();
            if( cs[j] > 10 ) FAIL( "value code" );
            r.v[j] = cs[j] < 10 ? code[cs[j]] : f.d();
         }
         s.recs.push_back( r );
         s.codes.push_back( cs );
      }
   }
   if( f.bad ) FAIL( "file too short" );
   m.swapped = f.out;
   m.ok = true;
   return m;
}
#undef FAIL
