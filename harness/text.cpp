// Contracts of the text functions: explanatory texts, identifiers, element labels, trimming, copying into caller buffers.
// Strings are arbitrary byte strings of at most vf_param(0) characters; the documented limit of every GDX string is 255.
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
#include "common.hpp"
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
constexpr int CAP = 264;
static char s[CAP], o[CAP], dst[CAP];
static int nd_str( char *p )// returns the length
{
   const int mx = vf_param( 0 );
   for( int i = 0; i < mx; i++ ) p[i] = (char) nd_u8();
   p[mx] = 0;
   int n = mx;
   for( int i = mx - 1; i >= 0; i-- ) if( p[i] == 0 ) n = i;
   return n;
}
static bool isQ( char c ) { return c == '\'' || c == '"'; }
// ensures: same length, no control characters, one kind of quote at most (the first one seen), nothing else changed
extern "C" void c_expltext()
{
   const int n = nd_str( s ), mx = vf_param( 0 );
   for( int i = 0; i <= mx; i++ ) o[i] = s[i];
   const int len = MakeGoodExplText( s );
   ENSURES( len == n, "length" );
   char q = 0;
   for( int i = 0; i < mx; i++ ) if( i < n && isQ( o[i] ) && !q ) q = o[i];// the first quote
   const int k = nd_range( 0, mx );// any position
   const char c = o[k];
   if( k < n ) ENSURES( s[k] == ( isQ( c ) ? q : (unsigned char) c < 32 ? '?' : c ), "every character is kept, or replaced as documented" );
   ENSURES( s[n] == 0, "terminated" );
   COVER( n == mx && q == '"', "longest text with quotes" );
}
// ensures: true exactly for a letter followed by at most 62 letters, digits and underscores
extern "C" void c_ident()
{
   const int n = nd_str( s ), mx = vf_param( 0 );
   bool want = n >= 1 && n <= 63;
   for( int i = 0; i < mx; i++ )
      if( i < n )
      {
         const char c = s[i];
         const bool letter = ( c >= 'A' && c <= 'Z' ) || ( c >= 'a' && c <= 'z' ), rest = ( c >= '0' && c <= '9' ) || c == '_';
         want = want && ( letter || ( i > 0 && rest ) );
      }
   ENSURES( IsGoodIdent( s ) == want, "identifier accepted exactly when it is one" );
   COVER( want && n == 63, "longest identifier" );
   COVER( !want && n == 64, "too long" );
}
// ensures: true exactly for labels of at most 63 characters without control characters and without both kinds of quotes
extern "C" void c_label()
{
   const int n = nd_str( s ), mx = vf_param( 0 );
   bool sq = false, dq = false, ctl = false;
   for( int i = 0; i < mx; i++ )
      if( i < n ) { sq |= s[i] == '\''; dq |= s[i] == '"'; ctl |= (unsigned char) s[i] < 32; }
   const bool want = n <= 63 && !ctl && !( sq && dq );
   ENSURES( GoodUELString( s, (size_t) n ) == want, "label accepted exactly when it is one" );
   COVER( want && n == 63, "longest label" );
}
// ensures: the result is the argument without its trailing blanks and control characters; the argument is not changed
extern "C" void c_trim()
{
   const int n = nd_str( s ), mx = vf_param( 0 );
   for( int i = 0; i <= mx; i++ ) o[i] = s[i];
   int want = 0;
   for( int i = 0; i < mx; i++ ) if( i < n && (unsigned char) s[i] > 32 ) want = i + 1;
   int len = -7;
   const char *r = utils::trimRight( s, dst, len );
   ENSURES( len == want, "trimmed length" );
   const int k = nd_range( 0, mx );// any position
   if( k < want ) ENSURES( r[k] == o[k], "trimmed characters" );
   ENSURES( r[want] == 0, "trimmed string terminated" );
   ENSURES( s[k] == o[k], "argument unchanged" );
   COVER( want == mx - 1 && n == mx, "trimmed" );
}
// ensures: the buffer receives the longest prefix that fits with its terminator; nothing beyond the buffer is written
extern "C" void c_copy()
{
   const int n = nd_str( s ), mx = vf_param( 0 );
   const int cap = nd_range( vf_param( 2 ), vf_param( 1 ) );
   const char canary = (char) nd_u8();
   for( int i = 0; i < CAP; i++ ) dst[i] = canary;
   utils::assignPCharToBuf( s, dst, (size_t) cap );
   const int want = n < cap ? n : cap - 1;
   const int k = nd_range( 0, CAP - 1 );// any position
   if( k < want ) ENSURES( dst[k] == s[k], "copied characters" );
   ENSURES( dst[want] == 0, "copy terminated" );
   if( k >= cap ) ENSURES( dst[k] == canary, "nothing written beyond the buffer" );
   COVER( n > cap, "truncated" );
}
// requires: a length not above the buffer's; ensures: copied whole when it fits with its terminator, else not touched
extern "C" void c_copylen()
{
   const int mx = vf_param( 0 );
   for( int i = 0; i < mx; i++ ) s[i] = (char) nd_u8();
   const int n = nd_range( 0, mx ), cap = nd_range( 1, vf_param( 1 ) );
   const char canary = (char) nd_u8();
   for( int i = 0; i < CAP; i++ ) dst[i] = canary;
   s[n] = 0;
   if( vf_param( 2 ) ) utils::assignViewToBuf( std::string_view( s, (size_t) n ), dst, (size_t) cap );
   else utils::assignPCharToBuf( s, (size_t) n, dst, (size_t) cap );
   const int k = nd_range( 0, CAP - 1 );// any position
   if( n < cap )
   {
      if( k < n ) ENSURES( dst[k] == s[k], "copied characters" );
      ENSURES( dst[n] == 0, "copy terminated" );
   }
   if( k >= cap ) ENSURES( dst[k] == canary, "nothing written beyond the buffer" );
   COVER( n + 1 == cap, "exact fit" );
}
