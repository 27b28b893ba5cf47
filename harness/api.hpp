// Building blocks of the bounded stand-ins: seeded random histories of real API calls, judged by an independent model.
#pragma once
#include "common.hpp"
#include "gclgms.h"
#include <unistd.h>
#include <functional>
#include <sys/stat.h>
extern "C" uint64_t vf_seed();
#define CHECK( c, name ) vf_assert( ( c ), name )
struct Rnd
{
   uint64_t s;
   explicit Rnd( uint64_t x ) : s( x * 0x9E3779B97F4A7C15ull + 0x1234567ull ) { for( int i = 0; i < 4; i++ ) u(); }
   uint64_t u() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
   int in( int lo, int hi ) { return lo + (int) ( u() % ( (uint64_t) ( (int64_t) hi - lo ) + 1 ) ); }
   bool p( int pct ) { return (int) ( u() % 100 ) < pct; }
   template<class V> auto &pick( V &v ) { return v[u() % v.size()]; }
};
static inline double fromBits( uint64_t u ) { double d; memcpy( &d, &u, 8 ); return d; }
static const double SV_UNDEF = 1e300, SV_NA = 2e300, SV_PINF = 3e300, SV_MINF = 4e300, SV_EPS = 5e300, SV_ACR = 1e301;
static const double stdSpecials[] { SV_UNDEF, SV_NA, SV_PINF, SV_MINF, SV_EPS };
// any double that is not an acronym
static double genVal( Rnd &r )
{
   for( ;; )
   {
      double d;
      switch( r.in( 0, 11 ) )
      {
         case 0: d = stdSpecials[r.in( 0, 4 )]; break;
         case 1: { static const double c[] { 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, -0.5 }; d = c[r.in( 0, 7 )]; break; }
         case 2: { static const double c[] { INFINITY, -INFINITY, NAN, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308 / 1e8, -1.7976931348623157e308, 9.99e300 }; d = c[r.in( 0, 8 )]; break; }
         case 3: d = std::nextafter( stdSpecials[r.in( 0, 4 )], r.p( 50 ) ? 0 : 1e308 ); break;
         case 4: d = r.in( -1000, 1000 ); break;
         case 5: d = r.in( INT32_MIN, INT32_MAX ) / 256.0; break;
         case 6: d = fromBits( r.u() & ( ~0ull << r.in( 0, 60 ) ) ); break;
         case 7: d = std::nextafter( (double) r.in( -2, 2 ), r.p( 50 ) ? -9 : 9 ); break;
         default: d = fromBits( r.u() );
      }
      if( d >= SV_ACR && !std::isinf( d ) ) continue;
      return d;
   }
}
// what a reader with the default special value map must deliver for a value written with the default map
static double expectVal( double v )
{
   if( v == 0 ) return 0.0;
   if( std::isnan( v ) ) return SV_NA;
   if( std::isinf( v ) ) return v > 0 ? SV_PINF : SV_MINF;
   return v;
}
static bool sameVal( double a, double b ) { return vf_bits( a ) == vf_bits( b ); }
static const int nvals[] { 1, 1, 5, 5, 1 };// set, par, var, equ, alias
static std::string lowerStr( std::string s )
{
   for( auto &c: s ) if( c >= 'A' && c <= 'Z' ) c = (char) ( c + 32 );
   return s;
}
struct CiLess { bool operator()( const std::string &a, const std::string &b ) const { return lowerStr( a ) < lowerStr( b ); } };
static std::string genUel( Rnd &r )
{
   std::string s;
   if( r.p( 30 ) ) return "u" + std::to_string( r.in( 0, 400 ) );
   const int n = r.p( 8 ) ? 63 : r.p( 3 ) ? 0 : r.in( 1, 9 );
   const char q = r.p( 50 ) ? '\'' : '"';
   for( int i = 0; i < n; i++ )
   {
      int c = r.p( 60 ) ? "abcABC019 _-"[r.in( 0, 11 )] : r.in( 32, 255 );
      if( c == '\'' || c == '"' ) c = q;
      s += (char) c;
   }
   while( !s.empty() && s.back() == ' ' ) s.back() = 'x';
   if( r.p( 20 ) && s.size() < 60 ) s += std::to_string( r.in( 0, 30 ) );
   return s;
}
static std::string genIdent( Rnd &r )
{
   std::string s;
   const int n = r.p( 5 ) ? 63 : r.in( 1, 6 );
   for( int i = 0; i < n; i++ ) s += "abcdefgXYZ_0123456789"[r.in( 0, i ? 20 : 9 )];
   return s;
}
struct Rec
{
   std::vector<int> k;
   std::array<double, 5> v {};
   int frst {};
   std::vector<std::string> s;
};
struct Gdx
{
   std::string err;
   gdx::TGXFileObj o;
   Gdx() : o( err ) { o.gdxAutoConvert( 0 ); }
   gdx::TGXFileObj *operator->() { return &o; }
   int lastErr() { return o.gdxGetLastError(); }
};
static const char *FN = "t.gdx";
static std::vector<Rec> *sink;
static int sinkDim, sinkNv, sinkStop;
static void sinkPut( const int *k, const double *v, int frst )
{
   Rec r;
   r.k.assign( k, k + sinkDim );
   for( int i = 0; i < sinkNv; i++ ) r.v[i] = v[i];
   r.frst = frst;
   if( sink ) sink->push_back( r );
}
static void cbFast( const int *k, const double *v ) { sinkPut( k, v, 0 ); }
static int cbFastEx( const int *k, const double *v, int fd, void *u )
{
   CHECK( u == (void *) sink, "the callback receives the caller's pointer" );
   sinkPut( k, v, fd );
   return sinkStop < 0 || (int) sink->size() < sinkStop;
}
static int cbFilt( const int *k, const double *v, void * )
{
   sinkPut( k, v, 0 );
   return sinkStop < 0 || (int) sink->size() < sinkStop;
}
struct KeyBufs
{
   char b[20][GMS_SSSIZE];
   char *p[20];
   KeyBufs() { for( int i = 0; i < 20; i++ ) { p[i] = b[i]; b[i][0] = 0; } }
};
static std::vector<Rec> readRaw( Gdx &g, int sy, int dim, int nv, int &cnt, bool &ok )
{
   std::vector<Rec> res;
   ok = g->gdxDataReadRawStart( sy, cnt ) != 0;
   if( !ok ) return res;
   int keys[20], fd;
   double vals[5];
   while( g->gdxDataReadRaw( keys, vals, fd ) )
   {
      Rec r;
      r.k.assign( keys, keys + dim );
      for( int i = 0; i < nv; i++ ) r.v[i] = vals[i];
      r.frst = fd;
      res.push_back( r );
      if( res.size() > 200000 ) break;
   }
   g->gdxDataReadDone();
   return res;
}
static std::vector<Rec> readStr( Gdx &g, int sy, int dim, int nv, int &cnt, bool &ok )
{
   std::vector<Rec> res;
   ok = g->gdxDataReadStrStart( sy, cnt ) != 0;
   if( !ok ) return res;
   KeyBufs kb;
   int fd;
   double vals[5];
   while( g->gdxDataReadStr( kb.p, vals, fd ) )
   {
      Rec r;
      for( int d = 0; d < dim; d++ ) r.s.emplace_back( kb.b[d] );
      for( int i = 0; i < nv; i++ ) r.v[i] = vals[i];
      r.frst = fd;
      res.push_back( r );
      if( res.size() > 200000 ) break;
   }
   g->gdxDataReadDone();
   return res;
}
static std::vector<Rec> readMapRest( Gdx &g, int dim, int nv )
{
   std::vector<Rec> res;
   int keys[20] {}, fd;
   double vals[5];
   while( g->gdxDataReadMap( 0, keys, vals, fd ) )
   {
      Rec r;
      r.k.assign( keys, keys + dim );
      for( int i = 0; i < nv; i++ ) r.v[i] = vals[i];
      r.frst = fd;
      res.push_back( r );
      if( res.size() > 200000 ) break;
   }
   return res;
}
static std::vector<Rec> readFast( Gdx &g, int sy, int dim, int nv, int &cnt, bool &ok )
{
   std::vector<Rec> res;
   sink = &res; sinkDim = dim; sinkNv = nv; sinkStop = -1;
   ok = g->gdxDataReadRawFast( sy, cbFast, cnt ) != 0;
   return res;
}
static std::vector<Rec> readFastEx( Gdx &g, int sy, int dim, int nv, int &cnt, bool &ok, int stop = -1 )
{
   std::vector<Rec> res;
   sink = &res; sinkDim = dim; sinkNv = nv; sinkStop = stop;
   ok = g->gdxDataReadRawFastEx( sy, cbFastEx, cnt, &res ) != 0;
   return res;
}
// first position in which b differs from a (1-based); 0 when dim is 0
static int firstDiff( const std::vector<int> *a, const std::vector<int> &b )
{
   for( size_t d = 0; d < b.size(); d++ )
      if( !a || ( *a )[d] != b[d] ) return (int) d + 1;
   return 0;
}
// sorted, duplicate free random keys over given element numbers
static std::vector<std::vector<int>> genKeys( Rnd &r, int dim, int n, const std::vector<int> &elems )
{
   std::set<std::vector<int>> s;
   if( dim == 0 ) { if( n > 0 ) s.insert( std::vector<int> {} ); }
   else
   {
      std::vector<int> cur( dim );
      for( auto &x: cur ) x = elems[r.u() % elems.size()];
      for( int i = 0; i < n; i++ )
      {
         const int from = r.p( 60 ) ? dim - 1 : r.in( 0, dim - 1 );
         for( int d = from; d < dim; d++ ) cur[d] = elems[r.u() % elems.size()];
         s.insert( cur );
      }
   }
   return { s.begin(), s.end() };
}
static std::vector<int> genElemSet( Rnd &r, int maxElem )
{
   std::vector<int> e;
   const int n = r.in( 1, 12 );
   const int kind = r.in( 0, 4 );
   int base = r.in( 1, maxElem );
   for( int i = 0; i < n; i++ )
   {
      int x;
      if( kind == 0 ) x = r.in( 1, std::min( maxElem, 9 ) );
      else if( kind == 1 ) x = base + r.in( 0, 300 );
      else if( kind == 2 ) x = base + ( 1 << r.in( 0, 17 ) ) + r.in( -2, 2 );
      else if( kind == 3 ) x = base + 250 + r.in( 0, 8 );
      else x = r.in( 1, maxElem );
      if( x < 1 ) x = 1;
      if( x > maxElem ) x = maxElem;
      e.push_back( x );
   }
   return e;
}
static void checkRecs( const std::vector<Rec> &got, const std::vector<Rec> &exp, int dim, int nv, bool frst, const char *nCount, const char *nKeys, const char *nVals, const char *nFrst )
{
   CHECK( got.size() == exp.size(), nCount );
   for( size_t i = 0; i < exp.size(); i++ )
   {
      if( !exp[i].s.empty() ) CHECK( got[i].s == exp[i].s, nKeys );
      else CHECK( got[i].k == exp[i].k, nKeys );
      for( int j = 0; j < nv; j++ ) CHECK( sameVal( got[i].v[j], exp[i].v[j] ), nVals );
      if( frst && dim > 0 ) CHECK( got[i].frst == exp[i].frst, nFrst );
   }
}
