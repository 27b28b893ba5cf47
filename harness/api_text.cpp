#include "model.hpp"
static std::string wild( Rnd &r, int mx )
{
   std::string s;
   const int n = r.p( 60 ) ? r.in( 0, 12 ) : r.p( 50 ) ? r.in( 60, 67 ) : r.p( 50 ) ? r.in( 250, 260 ) : r.in( 0, mx );
   const int kind = r.in( 0, 4 );
   for( int i = 0; i < n; i++ )
   {
      int c;
      if( kind == 0 ) c = "abcXYZ_019"[r.in( 0, 9 )];
      else if( kind == 1 ) c = r.in( 32, 126 );
      else if( kind == 2 ) c = r.in( 1, 255 );
      else if( kind == 3 ) c = "ab '\"\t\x1f\x7f\x80\xff"[r.in( 0, 9 )];
      else c = r.p( 97 ) ? "abcdXYZ_019"[r.in( 0, 10 )] : "'\" \x01"[r.in( 0, 3 )];
      s += (char) c;
   }
   if( r.p( 15 ) ) s += std::string( r.in( 1, 3 ), " \t"[r.in( 0, 1 )] );
   return s;
}
static bool goodIdent( const std::string &s )
{
   if( s.empty() || s.size() > 63 ) return false;
   for( size_t i = 0; i < s.size(); i++ )
   {
      const char c = s[i];
      const bool let = ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ), dig = ( c >= '0' && c <= '9' ) || c == '_';
      if( !( let || ( i && dig ) ) ) return false;
   }
   return true;
}
static std::string trim32( std::string s )
{
   while( !s.empty() && (unsigned char) s.back() <= 32 ) s.pop_back();
   return s;
}
static bool goodUel( const std::string &s )
{
   if( s.size() > 63 ) return false;
   bool q1 = false, q2 = false;
   for( char c: s )
   {
      if( (unsigned char) c < 32 ) return false;
      q1 |= c == '\'';
      q2 |= c == '"';
   }
   return !( q1 && q2 );
}
// P10
extern "C" void api_text()
{
   Rnd r( vf_seed() );
   Gdx g;
   int err;
   Model m;
   CHECK( g->gdxOpenWriteEx( FN, "p", r.in( 0, 1 ), err ), "opens" );
   std::vector<std::pair<std::string, std::string>> comm;
   auto ident = [&]() {
      auto s = wild( r, 300 );
      if( r.p( 40 ) && !m.syms.empty() ) { s = r.pick( m.syms ).name; for( auto &c: s ) if( r.p( 40 ) ) c = (char) ( c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c ); }
      else if( r.p( 50 ) ) s = genIdent( r );
      if( s == "*" ) s = "a";
      return s;
   };
   for( int q = r.in( 1, 14 ); q > 0; q-- )
   {
      switch( r.in( 0, 4 ) )
      {
         case 0:
         {
            const auto s = ident(), t = wild( r, 600 );
            const int how = r.in( 0, 2 );
            g->gdxGetLastError();
            const bool ok = how == 0 ? g->gdxDataWriteRawStart( s.c_str(), t.c_str(), 0, 1, 0 ) : how == 1 ? g->gdxDataWriteStrStart( s.c_str(), t.c_str(), 0, 1, 0 ) : g->gdxDataWriteMapStart( s.c_str(), t.c_str(), 0, 1, 0 );
            CHECK( ok == ( goodIdent( s ) && !m.find( s ) ), "a symbol name is accepted exactly when it is a new identifier" );
            if( !ok ) { CHECK( g->gdxGetLastError() == ( m.find( s ) ? -100007 : -100012 ), "error for a bad symbol name" ); break; }
            g->gdxDataWriteDone();
            MSym x;
            x.name = s;
            x.typ = 1;
            x.text = saneText( t );
            if( t.size() > 255 ) x.text = saneText( "String overflow: " + t.substr( 0, 235 ) + "..." );
            m.syms.push_back( x );
            break;
         }
         case 1:
         {
            const auto s = ident();
            const bool ok = r.p( 50 ) ? g->gdxAddAlias( "*", s.c_str() ) : g->gdxAddAlias( s.c_str(), "*" );
            CHECK( ok == ( goodIdent( s ) && !m.find( s ) ), "an alias name is accepted exactly when it is a new identifier" );
            if( ok ) { MSym x; x.name = s; x.typ = 4; x.dim = 1; x.text = "Aliased with *"; m.syms.push_back( x ); }
            break;
         }
         case 2:
         case 3:
         {
            const auto s = wild( r, 400 ), t = trim32( s );
            const int how = r.in( 0, 2 );
            bool ok;
            int nr = -7;
            if( how == 0 ) { g->gdxUELRegisterRawStart(); ok = g->gdxUELRegisterRaw( s.c_str() ); }
            else if( how == 1 ) { g->gdxUELRegisterStrStart(); ok = g->gdxUELRegisterStr( s.c_str(), nr ); }
            else { g->gdxUELRegisterMapStart(); ok = g->gdxUELRegisterMap( 1000 + (int) m.uels.size() * 20 + q, s.c_str() ); if( !ok && goodUel( t ) && m.uel( t ) ) ok = true; }
            g->gdxUELRegisterDone();
            CHECK( ok == goodUel( t ), "an element name is accepted exactly when it is well formed after removing trailing blanks" );
            if( ok && !m.uel( t ) ) m.uels.push_back( t );
            break;
         }
         default:
         {
            const auto t = wild( r, 600 );
            int nr;
            CHECK( g->gdxAddSetText( t.c_str(), nr ), "set text accepted" );
            const auto w = saneText( t.substr( 0, 255 ) );
            int k = -1;
            for( size_t i = 0; i < m.texts.size(); i++ ) if( m.texts[i] == w ) k = (int) i;
            if( k < 0 ) { k = (int) m.texts.size(); m.texts.push_back( w ); }
            CHECK( nr == k, "set text number" );
         }
      }
   }
   CHECK( g->gdxClose() == 0, "closes" );
   CHECK( g->gdxOpenRead( FN, err ) && !err, "a file built from any texts opens" );
   int sc, uc;
   g->gdxSystemInfo( sc, uc );
   CHECK( sc == (int) m.syms.size() && uc == (int) m.uels.size(), "counts" );
   char a[GMS_SSSIZE];
   for( int i = 1; i <= sc; i++ )
   {
      int x, y;
      CHECK( g->gdxSymbolInfo( i, a, x, y ) && m.syms[i - 1].name == a, "symbol names as given" );
      CHECK( g->gdxSymbolInfoX( i, x, y, a ) && m.syms[i - 1].text == a, "explanatory text sanitised" );
   }
   for( int i = 1; i <= uc; i++ ) { int x; CHECK( g->gdxUMUelGet( i, a, x ) && m.uels[i - 1] == a, "element names as given" ); }
   for( size_t i = 0; i < m.texts.size(); i++ ) { int x; CHECK( g->gdxGetElemText( (int) i, a, x ) && m.texts[i] == a, "set texts sanitised" ); }
   g->gdxClose();
}
// P13
extern "C" void api_err()
{
   Rnd r( vf_seed() );
   Gdx g;
   int err;
   CHECK( g->gdxGetLastError() == 0 && g->gdxErrorCount() == 0, "a new object has no errors" );
   if( r.p( 20 ) )
   {
      int nr = 77;
      CHECK( !g->gdxFindSymbol( "x", nr ) && nr == -1, "no symbol without a file" );
      CHECK( !g->gdxDataWriteDone(), "refused without a file" );
      CHECK( g->gdxGetLastError() != 0 && g->gdxGetLastError() == 0, "without a file the query clears the error too" );
   }
   bool rd = false;
   int total = 0, first = 0;
   auto hit = [&]( int code ) { total++; if( !first ) first = code; };
   CHECK( g->gdxOpenWrite( FN, "p", err ) && !err, "opens" );
   g->gdxUELRegisterRawStart();
   for( int i = 0; i < 3; i++ ) g->gdxUELRegisterRaw( ( "u" + std::to_string( i + 1 ) ).c_str() );
   g->gdxUELRegisterDone();
   int nsym = 0;
   double v[5] { 1, 2, 3, 4, 5 };
   for( int q = r.in( 1, 25 ); q > 0; q-- )
   {
      const int c = r.in( 0, 11 );
      switch( c )
      {
         case 0: CHECK( !g->gdxDataWriteRawStart( "1bad", "", 1, 1, 0 ), "refused" ); hit( -100012 ); break;
         case 1: CHECK( !g->gdxDataWriteRawStart( "ok__x", "", r.p( 50 ) ? 21 : -1, 1, 0 ), "refused" ); hit( -100003 ); break;
         case 2: CHECK( !g->gdxDataWriteRawStart( "ok__x", "", 1, r.p( 50 ) ? 9 : -1, 0 ), "refused" ); hit( -100056 ); break;
         case 3: CHECK( !g->gdxDataWriteRaw( nullptr, v ), "refused" ); hit( -100002 ); break;
         case 4: g->gdxUELRegisterRawStart(); CHECK( !g->gdxUELRegisterRaw( "a'b\"c" ), "refused" ); g->gdxUELRegisterDone(); hit( -100017 ); break;
         case 5: CHECK( !g->gdxAddAlias( "nosuch1", "nosuch2" ), "refused" ); hit( -100055 ); break;
         case 6: CHECK( !g->gdxSymbolAddComment( 0, "x" ) && !g->gdxDataWriteDone(), "refused" ); hit( -100057 ); hit( -100002 ); break;
         case 7: CHECK( !g->gdxSymbolAddComment( nsym + 1, "x" ), "refused" ); hit( -100057 ); break;
         case 8:
         case 9:
         {
            const auto nm = "s" + std::to_string( ++nsym );
            const int dim = r.in( 1, 2 );
            CHECK( g->gdxDataWriteRawStart( nm.c_str(), "", dim, 1, 0 ), "symbol starts" );
            std::vector<int> last;
            std::vector<std::pair<std::vector<int>, double>> bad;
            std::vector<std::pair<std::vector<int>, int>> seq;
            const int before = total;
            for( int k = r.in( 1, 20 ); k > 0; k-- )
            {
               std::vector<int> x { r.in( 1, 3 ) };
               if( dim == 2 ) x.push_back( r.in( 1, 3 ) );
               double w[5] { (double) r.in( 1, 99 ) };
               const bool ok = g->gdxDataWriteRaw( x.data(), w );
               const int want = last.empty() || last < x ? 0 : last == x ? -100009 : -100025;
               CHECK( ok == ( want == 0 ), "a record is accepted exactly when it is after its predecessor" );
               if( ok ) last = x;
               else { hit( want ); bad.push_back( { x, w[0] } ); }
            }
            const int ec = g->gdxDataErrorCount();
            CHECK( ec == (int) std::min<size_t>( bad.size(), 11 ), "refused records are available, the first eleven" );
            for( int i = 1; i <= ec; i++ )
            {
               int kk[20];
               double vv[5];
               CHECK( g->gdxDataErrorRecord( i, kk, vv ), "error record available" );
               for( int d = 0; d < dim; d++ ) CHECK( kk[d] == bad[i - 1].first[d], "error record keys" );
               CHECK( vv[0] == bad[i - 1].second, "error record values" );
            }
            if( r.p( 30 ) && ec > 0 ) { int kk[20]; double vv[5]; CHECK( !g->gdxDataErrorRecord( r.p( 50 ) ? 0 : ec + 1, kk, vv ), "no such error record" ); hit( -100015 ); }
            (void) before;
            CHECK( g->gdxDataWriteDone(), "symbol ends" );
            break;
         }
         case 10: if( nsym ) { CHECK( !g->gdxDataWriteStrStart( "S1", "", 1, 1, 0 ), "refused" ); hit( -100007 ); } break;
         default: { int n; CHECK( !g->gdxDataReadRawStart( 1, n ), "refused" ); hit( -100002 ); }
      }
      CHECK( g->gdxErrorCount() == total, "every error is counted once" );
      if( r.p( 40 ) )
      {
         const int le = g->gdxGetLastError();
         CHECK( le == first, "the first error since the last query is reported" );
         first = 0;
         CHECK( g->gdxGetLastError() == 0, "querying clears the error" );
         CHECK( g->gdxErrorCount() == total, "querying does not change the count" );
      }
   }
   (void) rd;
   CHECK( g->gdxClose() == 0, "closes" );
   CHECK( g->gdxOpenRead( FN, err ) && !err, "opens for reading" );
   CHECK( g->gdxErrorCount() == 0 && g->gdxGetLastError() == 0, "opening starts without errors" );
   total = first = 0;
   for( int q = r.in( 1, 10 ); q > 0; q-- )
   {
      int n;
      switch( r.in( 0, 3 ) )
      {
         case 0: CHECK( !g->gdxDataReadRawStart( nsym + 1, n ), "refused" ); hit( -100005 ); break;
         case 1: CHECK( !g->gdxDataWriteRaw( nullptr, v ), "refused" ); hit( -100002 ); break;
         case 2: CHECK( !g->gdxFilterRegisterStart( 0 ), "refused" ); hit( -100021 ); break;
         default: if( nsym ) { CHECK( !g->gdxGetDomainElements( 1, 7, -1, nullptr, n, nullptr ), "refused" ); hit( -100003 ); }
      }
      CHECK( g->gdxErrorCount() == total, "every error is counted once, reading" );
      if( r.p( 40 ) ) { CHECK( g->gdxGetLastError() == first, "the first error since the last query is reported, reading" ); first = 0; }
   }
   char a[GMS_SSSIZE], b[GMS_SSSIZE];
   const int c1 = -100000 - r.in( 2, 59 );
   memset( a, 'Z', sizeof a );
   CHECK( g->gdxErrorStr( c1, a ) && a[0] && memchr( a, 0, sizeof a ), "every error code has a message" );
   CHECK( g->gdxErrorStr( r.in( -5, 200 ), b ) && b[0] && memchr( b, 0, sizeof b ), "system error messages" );
   g->gdxClose();
   CHECK( !g->gdxOpenRead( "missing.gdx", err ) && err == ENOENT, "error number of a failed open" );
   CHECK( g->gdxGetLastError() == ENOENT, "last error of a failed open" );
}
// P15 (address sanitizer): caller buffers of the documented size, inputs of any length
extern "C" void api_buf()
{
   Rnd r( vf_seed() );
   Gdx g;
   int err;
   struct B
   {
      char *p;
      size_t n;
      explicit B( size_t k = GMS_SSSIZE ) : n( k ) { p = new char[n]; memset( p, 'Z', n ); }
      ~B() { delete[] p; }
      void ok( const char *w ) { CHECK( memchr( p, 0, n ) != nullptr, w ); memset( p, 'Z', n ); }
      operator char *() { return p; }
   };
   const std::string prod = wild( r, 2000 );
   CHECK( g->gdxOpenWriteEx( FN, prod.c_str(), r.in( 0, 1 ), err ), "opens" );
   std::vector<std::string> good;
   for( int q = r.in( 1, 25 ); q > 0; q-- )
   {
      const auto s = wild( r, 3000 ), t = wild( r, 3000 );
      int n, x;
      switch( r.in( 0, 9 ) )
      {
         case 0: g->gdxUELRegisterRawStart(); g->gdxUELRegisterRaw( s.c_str() ); g->gdxUELRegisterDone(); break;
         case 1: g->gdxUELRegisterStrStart(); g->gdxUELRegisterStr( s.c_str(), n ); g->gdxUELRegisterDone(); break;
         case 2: g->gdxUELRegisterMapStart(); g->gdxUELRegisterMap( r.in( 0, 50 ), s.c_str() ); g->gdxUELRegisterDone(); break;
         case 3: if( g->gdxDataWriteRawStart( s.c_str(), t.c_str(), 0, 1, 0 ) ) g->gdxDataWriteDone(); break;
         case 4: g->gdxAddSetText( s.c_str(), n ); break;
         case 5: g->gdxAcronymAdd( s.c_str(), t.c_str(), r.in( 1, 30 ) ); break;
         case 6: g->gdxUMFindUEL( s.c_str(), n, x ); break;
         case 7: g->gdxRenameUEL( s.c_str(), t.c_str() ); break;
         case 8: { if( g->gdxDataWriteStrStart( ( "s" + std::to_string( q ) ).c_str(), t.c_str(), 2, 0, 0 ) ) { const char *k[2] { s.c_str(), t.c_str() }; double v[5] {}; g->gdxDataWriteStr( k, v ); g->gdxSymbolAddComment( 0, s.c_str() ); g->gdxDataWriteDone(); } break; }
         default: { int sc; g->gdxSystemInfo( sc, n ); if( sc ) { g->gdxSymbolAddComment( sc, s.c_str() ); std::vector<const char *> k( 20, t.c_str() ); g->gdxSymbolSetDomainX( sc, k.data() ); } }
      }
   }
   auto sweep = [&]() {
      int sc, uc, a, b, c;
      g->gdxSystemInfo( sc, uc );
      B x, y, u( GMS_SSSIZE ), an( GMS_SSSIZE );
      for( int i = -1; i <= sc + 1; i++ )
      {
         g->gdxSymbolInfo( i, x, a, b ); x.ok( "symbol name terminated" );
         g->gdxSymbolInfoX( i, a, b, x ); x.ok( "symbol text terminated" );
         for( int k = 0; k < 4; k++ ) { g->gdxSymbolGetComment( i, k, x ); x.ok( "comment terminated" ); }
         if( i >= 1 && i <= sc ) { const int d = g->gdxSymbolDim( i ); std::vector<B> bs( std::max( d, 0 ) ); std::vector<char *> ps; for( auto &z: bs ) ps.push_back( z ); if( d > 0 && g->gdxSymbolGetDomainX( i, ps.data() ) ) for( auto &z: bs ) z.ok( "domain name terminated" ); }
      }
      for( int i = -1; i <= uc + 1; i++ ) { g->gdxUMUelGet( i, u, a ); u.ok( "element name terminated" ); g->gdxGetUEL( i, u ); u.ok( "element by user number terminated" ); }
      for( int i = -1; i <= 30; i++ ) { g->gdxGetElemText( i, x, a ); x.ok( "set text terminated" ); g->gdxAcronymGetInfo( i, an, y, c ); an.ok( "acronym name terminated" ); y.ok( "acronym text terminated" ); g->gdxAcronymName( g->gdxAcronymValue( std::max( i, 0 ) ), x ); x.ok( "acronym name of a value terminated" ); }
      g->gdxFileVersion( x, y ); x.ok( "file version terminated" ); y.ok( "producer terminated" );
      g->gdxErrorStr( g->gdxGetLastError(), x ); x.ok( "error text terminated" );
      g->gdxErrorStr( 2, x ); x.ok( "error text with file name terminated" );
   };
   sweep();
   CHECK( g->gdxClose() == 0, "closes" );
   sweep();
   if( r.p( 30 ) ) { const std::string lf( r.in( 1, 3000 ), 'f' ); B x; CHECK( !g->gdxOpenRead( ( "no/" + lf ).c_str(), err ), "no such file" ); g->gdxErrorStr( err, x ); x.ok( "error text terminated, long file name" ); g->gdxErrorStr( 2, x ); x.ok( "error text terminated, long file name" ); }
   CHECK( g->gdxOpenRead( FN, err ) && !err, "a file built from inputs of any length opens" );
   sweep();
   int sc, uc;
   g->gdxSystemInfo( sc, uc );
   for( int i = 1; i <= sc; i++ )
   {
      const int d = g->gdxSymbolDim( i );
      int n, fd;
      std::vector<B> bs( d );
      std::vector<char *> ps;
      for( auto &z: bs ) ps.push_back( z );
      double v[5];
      if( g->gdxDataReadStrStart( i, n ) ) { while( g->gdxDataReadStr( ps.data(), v, fd ) ) for( auto &z: bs ) CHECK( memchr( z.p, 0, z.n ), "key terminated" ); g->gdxDataReadDone(); }
      if( d > 0 )
      {
         int ec[20];
         if( g->gdxDataReadSliceStart( i, ec ) )
         {
            std::vector<int> k( d, r.in( 0, 2 ) );
            g->gdxDataSliceUELS( k.data(), ps.data() );
            for( auto &z: bs ) CHECK( memchr( z.p, 0, z.n ), "slice key terminated" );
            const auto s = wild( r, 3000 );
            std::vector<const char *> f( d, s.c_str() );
            int dm;
            g->gdxDataReadSlice( f.data(), dm, cbFast );
            g->gdxDataReadDone();
         }
      }
   }
   g->gdxClose();
}
