#include "model.hpp"
enum St { CL = 1, WI = 2, WDR = 4, WR = 8, WDS = 16, WS = 32, WDM = 64, WM = 128, ER = 256, EM = 512, ES = 1024, RI = 2048, RR = 4096, RM = 8192, RS = 16384, RSL = 32768, RF = 65536 };
static const int ANYW = WI | WDR | WR | WDS | WS | WDM | WM, WDATA = ANYW & ~WI, ANYR = RI | RR | RM | RS, EL = ER | EM | ES;
struct Call { const char *name; int ok; std::function<int( Gdx & )> f; };
static double dv[5] { 1, 2, 3, 4, 5 };
static int di[20] { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
static const char *ds[20] { "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1", "u1" };
static KeyBufs ks;
static char buf1[GMS_SSSIZE], buf2[GMS_SSSIZE];
static int seen;
static void dp( const int *, const double * ) { seen++; }
static int dpx( const int *, const double *, int, void * ) { seen++; return 1; }
static int dpf( const int *, const double *, void * ) { seen++; return 1; }
static void ddp( int, int, void * ) { seen++; }
// calls that are legal only in the given states; elsewhere they return zero, record an error and change nothing
static const std::vector<Call> &strictCalls()
{
   static const std::vector<Call> c {
      { "data write raw start", WI, []( Gdx &g ) { return g->gdxDataWriteRawStart( "qz1", "", 1, 1, 0 ); } },
      { "data write bounds start", WI, []( Gdx &g ) { return g->gdxDataWriteRawStartKeyBounds( "qz2", "", 1, 1, 0, di, di ); } },
      { "data write string start", WI, []( Gdx &g ) { return g->gdxDataWriteStrStart( "qz3", "", 1, 1, 0 ); } },
      { "data write map start", WI, []( Gdx &g ) { return g->gdxDataWriteMapStart( "qz4", "", 1, 1, 0 ); } },
      { "data write raw", WDR | WR, []( Gdx &g ) { return g->gdxDataWriteRaw( di, dv ); } },
      { "data write string", WDS | WS, []( Gdx &g ) { return g->gdxDataWriteStr( ds, dv ); } },
      { "data write map", WDM | WM, []( Gdx &g ) { return g->gdxDataWriteMap( di, dv ); } },
      { "data write done", WDATA, []( Gdx &g ) { return g->gdxDataWriteDone(); } },
      { "set domain", WDR | WDS | WDM, []( Gdx &g ) { return g->gdxSymbolSetDomain( ds ); } },
      { "register raw start", WI, []( Gdx &g ) { return g->gdxUELRegisterRawStart(); } },
      { "register map start", WI | RI, []( Gdx &g ) { return g->gdxUELRegisterMapStart(); } },
      { "register string start", WI | RI, []( Gdx &g ) { return g->gdxUELRegisterStrStart(); } },
      { "register raw", ER, []( Gdx &g ) { return g->gdxUELRegisterRaw( "qraw" ); } },
      { "register map", EM, []( Gdx &g ) { return g->gdxUELRegisterMap( 5000, "qmap" ); } },
      { "register string", ES, []( Gdx &g ) { int n; return g->gdxUELRegisterStr( "qstr", n ); } },
      { "register done", EL, []( Gdx &g ) { return g->gdxUELRegisterDone(); } },
      { "add alias", ANYW, []( Gdx &g ) { return g->gdxAddAlias( "*", "qz5" ); } },
      { "add comment", ANYW, []( Gdx &g ) { return g->gdxSymbolAddComment( 1, "qz6" ); } },
      { "filter start", RI, []( Gdx &g ) { return g->gdxFilterRegisterStart( 3 ); } },
      { "filter register", RF, []( Gdx &g ) { return g->gdxFilterRegister( 1 ); } },
      { "filter done", RF, []( Gdx &g ) { return g->gdxFilterRegisterDone(); } },
      { "filter exists", ANYR, []( Gdx &g ) { return g->gdxFilterExists( 1 ); } },
      { "data read raw", RR, []( Gdx &g ) { int f; return g->gdxDataReadRaw( di, dv, f ); } },
      { "data read string", RS, []( Gdx &g ) { int f; return g->gdxDataReadStr( ks.p, dv, f ); } },
      { "data read map", RM, []( Gdx &g ) { int f; return g->gdxDataReadMap( 1, di, dv, f ); } },
      { "slice read", RSL, []( Gdx &g ) { int d; return g->gdxDataReadSlice( ds, d, dp ); } },
      { "slice elements", RSL, []( Gdx &g ) { return g->gdxDataSliceUELS( di, ks.p ); } },
      { "index lengths", RI, []( Gdx &g ) { int l[20]; return g->gdxSymbIndxMaxLength( 1, l ); } },
   };
   return c;
}
// read starts: additionally bring an object open for reading back to its initial state
static const std::vector<Call> &readStarts()
{
   static const std::vector<Call> c {
      { "read raw start", RI, []( Gdx &g ) { int n; return g->gdxDataReadRawStart( 1, n ); } },
      { "read string start", RI, []( Gdx &g ) { int n; return g->gdxDataReadStrStart( 1, n ); } },
      { "read map start", RI, []( Gdx &g ) { int n; return g->gdxDataReadMapStart( 1, n ); } },
      { "read filtered start", RI, []( Gdx &g ) { int n; int f[20]; for( auto &x: f ) x = -2; return g->gdxDataReadFilteredStart( 1, f, n ); } },
      { "read fast", RI, []( Gdx &g ) { int n; return g->gdxDataReadRawFast( 1, dp, n ); } },
      { "read fast ex", RI, []( Gdx &g ) { int n; return g->gdxDataReadRawFastEx( 1, dpx, n, nullptr ); } },
      { "read fast filtered", RI, []( Gdx &g ) { const char *e[20]; for( auto &x: e ) x = ""; return g->gdxDataReadRawFastFilt( 1, e, dpf ); } },
      { "slice start", RI, []( Gdx &g ) { int e[20]; return g->gdxDataReadSliceStart( 1, e ); } },
      { "domain elements", RI, []( Gdx &g ) { int n; return g->gdxGetDomainElements( 1, 1, -1, ddp, n, nullptr ); } },
      { "read done", RI | RR | RM | RS | RSL, []( Gdx &g ) { return g->gdxDataReadDone(); } },
   };
   return c;
}
static void illegal( Rnd &r, Gdx &g, int st )
{
   if( !r.p( 40 ) ) return;
   for( int q = r.in( 1, 3 ); q > 0; q-- )
   {
      if( r.p( 10 ) && st != CL )
      {
         int e = 0;
         const int w = r.in( 0, 3 );
         const int rc = w == 0 ? g->gdxOpenWrite( "other.gdx", "x", e ) : w == 1 ? g->gdxOpenRead( FN, e ) : w == 2 ? g->gdxOpenAppend( FN, "x", e ) : g->gdxOpenReadEx( FN, 1, e );
         CHECK( rc == 0 && e == -100059, "opening while open is refused" );
         continue;
      }
      const bool rs = !( st & ( RR | RM | RS | RSL | RF | EL ) ) || st == CL ? r.p( 35 ) : false;
      const bool wr = st & ( ANYW | ER );
      auto &v = rs || ( wr && r.p( 30 ) ) ? readStarts() : strictCalls();
      auto &c = v[r.u() % v.size()];
      if( c.ok & st ) continue;
      const int before = g->gdxErrorCount();
      seen = 0;
      const int rc = c.f( g );
      if( rc != 0 ) fprintf( stderr, "%s in state %d\n", c.name, st );
      CHECK( rc == 0, "a call out of context returns zero" );
      CHECK( seen == 0, "a call out of context delivers nothing" );
      if( g->gdxErrorCount() == before ) fprintf( stderr, "%s in state %d\n", c.name, st );
      CHECK( g->gdxErrorCount() > before, "a call out of context is recorded as an error" );
      if( r.p( 30 ) ) CHECK( g->gdxGetLastError() != 0, "a call out of context sets the last error" );
   }
}
// queries never fail hard, whatever the state
static void queries( Rnd &r, Gdx &g, int st )
{
   if( !r.p( 25 ) ) return;
   int a, b, c;
   double d;
   const int n = r.in( -1, 3 );
   switch( r.in( 0, 30 ) )
   {
      case 0: g->gdxSymbolInfo( n, buf1, a, b ); break;
      case 1: g->gdxSymbolInfoX( n, a, b, buf1 ); break;
      case 2: g->gdxSymbolDim( n ); break;
      case 3: g->gdxFindSymbol( "sy1", a ); break;
      case 4: g->gdxSystemInfo( a, b ); break;
      case 5: g->gdxSymbolGetComment( n, 1, buf1 ); break;
      case 6: if( !( st & WDATA ) ) { int x[20]; g->gdxSymbolGetDomain( n, x ); } break;
      case 7: g->gdxSymbolGetDomainX( n, ks.p ); break;
      case 8: g->gdxGetUEL( n, buf1 ); break;
      case 9: g->gdxUMUelGet( n, buf1, a ); break;
      case 10: g->gdxUMUelInfo( a, b ); break;
      case 11: g->gdxUMFindUEL( "u1", a, b ); break;
      case 12: g->gdxGetElemText( n, buf1, a ); break;
      case 13: g->gdxAcronymCount(); break;
      case 14: g->gdxAcronymGetInfo( n, buf1, buf2, a ); break;
      case 15: g->gdxAcronymGetMapping( n, a, b, c ); break;
      case 16: g->gdxAcronymName( 1e301, buf1 ); break;
      case 17: g->gdxSymbMaxLength(); break;
      case 18: g->gdxUELMaxLength(); break;
      case 19: g->gdxDataErrorCount(); break;
      case 20: g->gdxCurrentDim(); break;
      case 21: g->gdxFileInfo( a, b ); break;
      case 22: g->gdxFileVersion( buf1, buf2 ); break;
      case 23: g->gdxGetMemoryUsed(); break;
      case 24: g->gdxSetHasText( n ); break;
      case 25: g->gdxErrorStr( g->gdxGetLastError(), buf1 ); break;
      case 26: d = g->gdxAcronymValue( 1 ); g->gdxAcronymIndex( d ); break;
      case 27: g->gdxMapValue( 1e300, a ); break;
      case 28: if( st == CL ) g->gdxRenameUEL( "a", "b" ); break;
      case 29: if( st == CL ) { int x; g->gdxAddSetText( "x", x ); g->gdxSetTextNodeNr( 0, 1 ); } break;
      default: if( st == CL ) { g->gdxSymbolSetDomainX( 1, ds ); g->gdxAcronymAdd( "a", "b", 1 ); g->gdxAcronymSetInfo( 1, "a", "b", 1 ); g->gdxAcronymNextNr( 0 ); }
   }
}
#define POINT( st ) do { illegal( r, g, st ); queries( r, g, st ); } while( 0 )
extern "C" void api_mode()
{
   Rnd r( vf_seed() );
   Gdx g;
   g.o.gdxAutoConvert( 0 );
   POINT( CL ); POINT( CL ); POINT( CL );
   int err;
   std::vector<std::string> uels;
   struct S { std::string n; int how, dim; std::vector<std::vector<int>> k; std::vector<double> v; };
   std::vector<S> syms;
   unlink( "other.gdx" );
   CHECK( g->gdxOpenWriteEx( FN, "prod", r.in( 0, 1 ), err ), "opens for writing" );
   POINT( WI );
   for( int rounds = r.in( 1, 3 ); rounds > 0; rounds-- )
   {
      const int how = r.in( 0, 2 ), st = how == 0 ? ER : how == 1 ? EM : ES;
      CHECK( how == 0 ? g->gdxUELRegisterRawStart() : how == 1 ? g->gdxUELRegisterMapStart() : g->gdxUELRegisterStrStart(), "registration starts" );
      POINT( st );
      for( int q = r.in( 1, 4 ); q > 0; q-- )
      {
         auto u = "u" + std::to_string( uels.size() + 1 );
         int nr;
         if( how == 0 ) CHECK( g->gdxUELRegisterRaw( u.c_str() ), "element registered" );
         else if( how == 1 ) CHECK( g->gdxUELRegisterMap( 100 + (int) uels.size(), u.c_str() ), "element registered" );
         else CHECK( g->gdxUELRegisterStr( u.c_str(), nr ), "element registered" );
         uels.push_back( u );
         POINT( st );
      }
      CHECK( g->gdxUELRegisterDone(), "registration ends" );
      POINT( WI );
   }
   // user numbers of all elements
   CHECK( g->gdxUELRegisterMapStart(), "registration starts" );
   for( size_t i = 0; i < uels.size(); i++ ) { int a, b; g->gdxUMFindUEL( uels[i].c_str(), a, b ); CHECK( a == (int) i + 1, "elements are numbered in order" ); if( b < 0 ) CHECK( g->gdxUELRegisterMap( 300 + (int) i, uels[i].c_str() ), "mapped" ); }
   CHECK( g->gdxUELRegisterDone(), "registration ends" );
   for( int k = r.in( 1, 4 ); k > 0; k-- )
   {
      S s;
      s.n = "sy" + std::to_string( syms.size() + 1 );
      s.how = r.in( 0, 3 );
      s.dim = r.in( 1, 3 );
      const int sd = s.how == 1 ? WDS : s.how == 2 ? WDM : WDR, sw = s.how == 1 ? WS : s.how == 2 ? WM : WR;
      int lo[3] { 1, 1, 1 }, hi[3] { 99, 99, 99 };
      CHECK( s.how == 0 ? g->gdxDataWriteRawStart( s.n.c_str(), "t", s.dim, 1, 0 ) : s.how == 1 ? g->gdxDataWriteStrStart( s.n.c_str(), "t", s.dim, 1, 0 ) : s.how == 2 ? g->gdxDataWriteMapStart( s.n.c_str(), "t", s.dim, 1, 0 ) : g->gdxDataWriteRawStartKeyBounds( s.n.c_str(), "t", s.dim, 1, 0, lo, hi ), "symbol starts" );
      POINT( sd );
      int cs = sd;
      if( r.p( 30 ) ) { const char *dm[3] { "*", "*", "*" }; CHECK( g->gdxSymbolSetDomain( dm ), "domain set" ); cs = sw; POINT( sw ); }
      std::vector<int> el;
      for( size_t i = 1; i <= uels.size(); i++ ) el.push_back( (int) i );
      for( auto &key: genKeys( r, s.dim, r.in( 0, 6 ), el ) )
      {
         double v[5] { (double) r.in( 1, 1000 ) };
         const char *ss[3];
         int mm[3];
         for( int d = 0; d < s.dim; d++ ) { ss[d] = uels[key[d] - 1].c_str(); int a; g->gdxUMFindUEL( ss[d], a, mm[d] ); }
         CHECK( s.how == 1 ? g->gdxDataWriteStr( ss, v ) : s.how == 2 ? g->gdxDataWriteMap( mm, v ) : g->gdxDataWriteRaw( key.data(), v ), "record accepted after refused calls" );
         cs = sw;
         POINT( sw );
         s.k.push_back( key );
         s.v.push_back( v[0] );
      }
      syms.push_back( s );
      if( k == 1 && r.p( 30 ) ) { (void) cs; break; }// close with the symbol still open
      CHECK( g->gdxDataWriteDone(), "symbol ends after refused calls" );
      POINT( WI );
   }
   CHECK( g->gdxClose() == 0, "closes" );
   POINT( CL ); POINT( CL );
   struct stat sb;
   CHECK( stat( "other.gdx", &sb ) != 0, "a refused open creates no file" );
   if( r.p( 30 ) )
   {
      int e;
      CHECK( !g->gdxOpenRead( "missing.gdx", e ) && e != 0, "a missing file does not open" );
      POINT( CL );
   }
   CHECK( g->gdxOpenRead( FN, err ) && !err, "reopens" );
   int sc, uc;
   g->gdxSystemInfo( sc, uc );
   CHECK( sc == (int) syms.size() && uc == (int) uels.size(), "refused calls add no symbols or elements" );
   POINT( RI );
   if( r.p( 50 ) )
   {
      CHECK( g->gdxUELRegisterMapStart(), "registration in a file being read" );
      POINT( EM );
      for( size_t i = 0; i < uels.size(); i++ ) CHECK( g->gdxUELRegisterMap( (int) i + 1, uels[i].c_str() ), "mapped" );
      POINT( EM );
      CHECK( g->gdxUELRegisterDone(), "registration ends" );
      POINT( RI );
      CHECK( g->gdxFilterRegisterStart( 1 ), "filter starts" );
      POINT( RF );
      CHECK( g->gdxFilterRegister( 1 ), "filter element" );
      POINT( RF );
      CHECK( g->gdxFilterRegisterDone() && g->gdxFilterExists( 1 ), "filter ends" );
      POINT( RI );
      CHECK( !g->gdxFilterExists( 3 ), "a refused filter does not exist" );
   }
   for( int q = r.in( 1, 4 ); q > 0; q-- )
   {
      const int n = r.in( 1, sc );
      auto &s = syms[n - 1];
      const int how = r.in( 0, 2 );
      int cnt, fd, nr;
      g->gdxSymbolInfo( n, buf1, cnt, fd );
      CHECK( s.n == buf1, "symbol name" );
      CHECK( !g->gdxSymbolGetComment( n, 1, buf2 ), "refused calls add no comment" );
      int f[20];
      for( auto &x: f ) x = -2;
      CHECK( how == 0 ? g->gdxDataReadRawStart( n, cnt ) : how == 1 ? g->gdxDataReadStrStart( n, cnt ) : g->gdxDataReadFilteredStart( n, f, cnt ), "reading starts" );
      const int st = how == 0 ? RR : how == 1 ? RS : RM;
      POINT( st );
      for( size_t i = 0; i < s.k.size(); i++ )
      {
         int kk[20];
         double v[5];
         CHECK( how == 0 ? g->gdxDataReadRaw( kk, v, fd ) : how == 1 ? g->gdxDataReadStr( ks.p, v, fd ) : g->gdxDataReadMap( 0, kk, v, fd ), "reading goes on after refused calls" );
         for( int d = 0; d < s.dim; d++ )
            if( how == 1 ) CHECK( uels[s.k[i][d] - 1] == ks.b[d], "keys unaffected by refused calls" );
            else CHECK( kk[d] == s.k[i][d], "keys unaffected by refused calls" );
         CHECK( v[0] == s.v[i], "values unaffected by refused calls" );
         if( i + 1 < s.k.size() ) POINT( st );
      }
      CHECK( g->gdxDataReadDone(), "reading ends" );
      POINT( RI );
      (void) nr;
   }
   g->gdxClose();
   POINT( CL );
}
