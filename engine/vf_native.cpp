// Native runtime for harnesses: inputs come from a replay file (CBMC counterexample) or from a seeded generator.
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <chrono>
#include <csignal>
#include <unistd.h>
static std::vector<uint64_t> script;// replay values
static std::vector<uint64_t> drawn;
static size_t pos;
static bool replay;
static uint64_t rng;
struct VfRetry {};
static const char *failed;
#ifndef vf_entry
#define vf_entry vf_harness
#endif
extern "C" void vf_entry( void );
static uint64_t rnd()
{
   rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
   return rng * 0x2545F4914F6CDD1Dull;
}
static uint64_t draw( int bits )
{
   uint64_t mask = bits == 64 ? ~0ull : ( ( 1ull << bits ) - 1 );
   uint64_t v;
   if( replay ) v = pos < script.size() ? script[pos] : 0;
   else
   {
      uint64_t k = rnd() >> 59;
      if( bits == 64 && k < 8 )
      {
         static const uint64_t sp[] { 0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull, 0x7fefffffffffffffull, 1 };
         v = sp[k];
      }
      else if( k < 10 ) v = rnd() & 7;
      else if( k < 14 ) v = rnd() & 0xff;
      else if( k < 17 ) v = ( 1ull << ( rnd() % bits ) ) + ( rnd() % 3 ) - 1;
      else v = rnd() >> 7;
   }
   pos++;
   v &= mask;
   drawn.push_back( v );
   return v;
}
extern "C" {
uint8_t nd_u8( void ) { return (uint8_t) draw( 8 ); }
uint16_t nd_u16( void ) { return (uint16_t) draw( 16 ); }
uint32_t nd_u32( void ) { return (uint32_t) draw( 32 ); }
uint64_t nd_u64( void ) { return draw( 64 ); }
int64_t vf_native_range( int64_t lo, int64_t hi )
{
   if( replay )
   {
      int64_t x = (int32_t) draw( 32 );
      vf_assume( x >= lo && x <= hi );
      return x;
   }
   uint64_t span = (uint64_t) ( hi - lo ) + 1;
   uint64_t k = rnd() >> 60;
   int64_t x;
   if( k == 0 ) x = lo;
   else if( k == 1 ) x = hi;
   else if( k == 2 ) x = lo + (int64_t) ( ( rnd() & 3 ) % span );
   else if( k == 3 ) x = hi - (int64_t) ( ( rnd() & 3 ) % span );
   else if( k < 8 ) x = lo + (int64_t) ( ( rnd() & 0x3ff ) % span );
   else x = lo + (int64_t) ( ( rnd() >> 9 ) % span );
   drawn.push_back( (uint32_t) x );
   pos++;
   return x;
}
uint64_t vf_seed( void )
{
   uint64_t v = replay ? ( pos < script.size() ? script[pos] : 0 ) : rnd();
   pos++;
   drawn.push_back( v );
   return v;
}
void vf_assume( bool c )
{
   if( c ) return;
   if( replay ) { printf( "REPLAY: assumption not met\n" ); fflush( stdout ); _Exit( 77 ); }
   throw VfRetry {};
}
void vf_assert( bool c, const char *name )
{
   if( c ) return;
   printf( "CONTRACT-VIOLATED %s\ninputs:", name );
   for( auto v: drawn ) printf( " %llu", (unsigned long long) v );
   printf( "\n" );
   fflush( stdout );
   _Exit( 3 );
}
void vf_cover( bool, const char * ) {}
void vf_havoc( void * ) {}
void vf_nocall( const char * ) {}
int vf_param( int k )
{
   char b[8];
   snprintf( b, 8, "VF_P%d", k );
   const char *e = getenv( b );
   return e ? atoi( e ) : 0;
}
}
static void dumpInputs()
{
   char b[64];
   auto put = []( const char *t ) { if( write( 1, t, strlen( t ) ) < 0 ) return; };
   put( "inputs:" );
   for( auto v: drawn ) { snprintf( b, sizeof b, " %llu", (unsigned long long) v ); put( b ); }
   put( "\n" );
}
static void onSignal( int sig )
{
   char b[64];
   snprintf( b, sizeof b, "CONTRACT-VIOLATED the call returns (signal %d)\n", sig );
   if( write( 1, b, strlen( b ) ) < 0 ) _exit( 4 );
   dumpInputs();
   _exit( 4 );
}
extern "C" void __sanitizer_set_death_callback( void ( * )( void ) ) __attribute__( ( weak ) );
int main( int argc, char **argv )
{
   setvbuf( stdout, nullptr, _IOLBF, 0 );
   if( __sanitizer_set_death_callback ) __sanitizer_set_death_callback( dumpInputs );
   else
      for( int sg: { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL } ) signal( sg, onSignal );
   if( argc >= 3 && !strcmp( argv[1], "replay" ) )
   {
      replay = true;
      FILE *f = fopen( argv[2], "r" );
      unsigned long long v;
      while( f && fscanf( f, "%llu", &v ) == 1 ) script.push_back( v );
      if( f ) fclose( f );
      vf_entry();
      printf( "REPLAY: contract held\n" );
      return 0;
   }
   // search SEED SECONDS MAXRUNS
   uint64_t seed = strtoull( argc > 2 ? argv[2] : "1", nullptr, 10 );
   double secs = argc > 3 ? atof( argv[3] ) : 5;
   unsigned long long maxr = argc > 4 ? strtoull( argv[4], nullptr, 10 ) : ~0ull;
   static volatile unsigned long long runs, completed;
   auto t0 = std::chrono::steady_clock::now();
   while( runs < maxr )
   {
      if( ( runs & 15 ) == 0 && std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count() > secs ) break;
      rng = ( seed + 1 ) * 0x9E3779B97F4A7C15ull + runs * 0xD1B54A32D192ED03ull;
      if( !rng ) rng = 1;
      for( int i = 0; i < 4; i++ ) rnd();
      pos = 0;
      drawn.clear();
      runs = runs + 1;
      try { vf_entry(); completed = completed + 1; } catch( const VfRetry & ) {}
   }
   printf( "SEARCH runs=%llu completed=%llu\n", (unsigned long long) runs, (unsigned long long) completed );
   return 0;
}
