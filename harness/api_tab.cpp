// Bounded stand-ins for the tables: elements, user mapping, filters, errors, acronyms.
#include "api.hpp"
static void openW( Gdx &g, int compr = 0 ) { int e = 0; CHECK( g->gdxOpenWriteEx( FN, "vf", compr, e ) && !e, "file opens" ); }
static void openR( Gdx &g ) { int e = 0; CHECK( g->gdxOpenRead( FN, e ) && !e, "file opens" ); }
static void shuffle( Rnd &r, std::vector<int> &v ) { for( size_t i = v.size(); i > 1; i-- ) std::swap( v[i - 1], v[r.u() % i] ); }
struct Tab// the model: elements in order of entry, user numbers
{
   std::vector<std::string> u;
   std::map<std::string, int> idx;// lower case -> number
   std::vector<int> usr;          // usr[i-1], -1 = none
   std::map<int, int> back;
   int high {};
   int find( const std::string &s ) const { auto it = idx.find( lowerStr( s ) ); return it == idx.end() ? -1 : it->second; }
   int add( const std::string &s )
   {
      int k = find( s );
      if( k > 0 ) return k;
      u.push_back( s ); usr.push_back( -1 );
      return idx[lowerStr( s )] = (int) u.size();
   }
   int addUsr( const std::string &s )
   {
      const int k = add( s );
      if( usr[k - 1] < 0 ) { usr[k - 1] = ++high; back[high] = k; }
      return usr[k - 1];
   }
   bool addMap( const std::string &s, int n )
   {
      if( n < 0 ) return false;
      const int k0 = find( s );
      if( k0 > 0 && usr[k0 - 1] >= 0 ) return usr[k0 - 1] == n;
      if( back.count( n ) ) { add( s ); return false; }
      const int k = add( s );
      usr[k - 1] = n; back[n] = k; high = std::max( high, n );
      return true;
   }
};
static std::string vary( Rnd &r, std::string s )// other spelling of the same element
{
   for( auto &c: s ) if( r.p( 50 ) ) { if( c >= 'a' && c <= 'z' ) c -= 32; else if( c >= 'A' && c <= 'Z' ) c += 32; }
   if( r.p( 20 ) ) s += std::string( r.in( 1, 3 ), ' ' );
   return s;
}
static std::string trimmed( std::string s ) { while( !s.empty() && (unsigned char) s.back() <= 32 ) s.pop_back(); return s; }
static bool goodUel( const std::string &s )
{
   if( s.size() > 63 ) return false;
   bool a = false, b = false;
   for( unsigned char c: s ) { if( c < 32 ) return false; a |= c == '\''; b |= c == '"'; }
   return !( a && b );
}
static std::string badUel( Rnd &r )
{
   std::string s = trimmed( genUel( r ) );
   if( s.size() > 50 ) s.resize( 50 );
   switch( r.in( 0, 2 ) )
   {
      case 0: s.insert( r.in( 0, (int) s.size() ), 1, (char) r.in( 1, 31 ) ); break;
      case 1: s.insert( r.in( 0, (int) s.size() ), 1, '\'' ); s.insert( r.in( 0, (int) s.size() ), 1, '"' ); break;
      default: s = std::string( r.in( 64, 120 ), 'y' );
   }
   return s;
}
static void compare( Gdx &g, Rnd &r, const Tab &t, bool all )
{
   int a = -1, b = -1;
   CHECK( g->gdxUMUelInfo( a, b ) && a == (int) t.u.size() && b == t.high, "number of elements and highest user number" );
   CHECK( g->gdxSystemInfo( a, b ) && b == (int) t.u.size(), "number of elements" );
   const int n = (int) t.u.size();
   for( int q = 0; q < ( all ? n : std::min( n, 6 ) ); q++ )
   {
      const int i = all ? q + 1 : r.in( 1, n );
      char buf[GMS_SSSIZE];
      int map = -9, nr = -9;
      CHECK( g->gdxUMUelGet( i, buf, map ) && t.u[i - 1] == buf, "element by number: first spelling" );
      CHECK( map == t.usr[i - 1], "element by number: user number" );
      CHECK( g->gdxUMFindUEL( vary( r, t.u[i - 1] ).c_str(), nr, map ) && nr == i && map == t.usr[i - 1], "element by name, any case" );
      if( t.usr[i - 1] >= 0 ) CHECK( g->gdxGetUEL( t.usr[i - 1], buf ) && t.u[i - 1] == buf, "element by user number" );
   }
   for( int q = 0; q < 3; q++ )
   {
      char buf[GMS_SSSIZE];
      int map = -9, nr = -9;
      const int i = r.p( 50 ) ? r.in( -3, 0 ) : n + r.in( 1, 5 );
      CHECK( !g->gdxUMUelGet( i, buf, map ) && map == -1 && std::string( buf ) == "?L__" + std::to_string( i ), "no element with that number" );
      const int k = r.in( -2, t.high + 4 );
      auto it = t.back.find( k );
      const bool ok = g->gdxGetUEL( k, buf ) != 0;
      CHECK( ok == ( it != t.back.end() ), "user numbers map back" );
      CHECK( std::string( buf ) == ( ok ? t.u[it->second - 1] : "?L__" + std::to_string( k ) ), "user numbers map back to the element" );
      const std::string s = trimmed( genUel( r ) );
      const bool f = g->gdxUMFindUEL( s.c_str(), nr, map ) != 0;
      CHECK( f == ( t.find( s ) > 0 ) && nr == t.find( s ), "lookup of an arbitrary name" );
   }
   size_t ml = 0;
   for( auto &s: t.u ) ml = std::max( ml, s.size() );
   CHECK( g->gdxUELMaxLength() == (int) ml, "longest element" );
}
static void renameSome( Gdx &g, Rnd &r, Tab &t )
{
   if( t.u.empty() ) return;
   const bool known = r.p( 85 );
   const int i = r.in( 1, (int) t.u.size() );
   const std::string old = known ? t.u[i - 1] : trimmed( genUel( r ) );
   const std::string nw = r.p( 15 ) ? badUel( r ) : r.p( 20 ) ? t.u[r.in( 1, (int) t.u.size() ) - 1] : r.p( 40 ) ? vary( r, t.u[r.in( 1, (int) t.u.size() ) - 1] ) : genUel( r );
   const int rc = g->gdxRenameUEL( vary( r, old ).c_str(), nw.c_str() );
   const std::string tn = trimmed( nw );
   const int k = t.find( old );
   if( !goodUel( tn ) ) CHECK( rc == -100017, "renaming to an invalid name is refused" );
   else if( k < 0 ) CHECK( rc == 2, "renaming an unknown element is refused" );
   else if( t.find( tn ) > 0 ) CHECK( rc == 3, "renaming to an existing name is refused" );
   else
   {
      CHECK( rc == 0, "renaming succeeds" );
      t.idx.erase( lowerStr( t.u[k - 1] ) );
      t.idx[lowerStr( tn )] = k;
      t.u[k - 1] = tn;
   }
}
static void histories( Gdx &g, Rnd &r, Tab &t, bool write, int rounds )
{
   for( int q = 0; q < rounds; q++ )
   {
      const int kind = r.in( write ? 0 : 1, 2 );
      if( kind == 0 ) CHECK( g->gdxUELRegisterRawStart(), "registration starts" );
      else if( kind == 1 ) CHECK( g->gdxUELRegisterStrStart(), "registration starts" );
      else CHECK( g->gdxUELRegisterMapStart(), "registration starts" );
      const int n = r.p( 90 ) ? r.in( 0, 12 ) : r.in( 200, 1500 );
      for( int i = 0; i < n; i++ )
      {
         std::string s = r.p( 8 ) ? badUel( r ) : !t.u.empty() && r.p( 25 ) ? vary( r, t.u[r.u() % t.u.size()] ) : n > 100 ? genUel( r ) + std::to_string( i ) : genUel( r );
         if( s.size() > 63 && r.p( 80 ) ) s.resize( 63 );
         const std::string ts = trimmed( s );
         const bool good = goodUel( ts );
         g->gdxGetLastError();
         if( kind == 0 )
         {
            const bool ok = g->gdxUELRegisterRaw( s.c_str() ) != 0;
            CHECK( ok == good, "an element is accepted exactly when its name is valid" );
            if( ok ) t.add( ts );
         }
         else if( kind == 1 )
         {
            int nr = -5;
            const bool ok = g->gdxUELRegisterStr( s.c_str(), nr ) != 0;
            CHECK( ok == good, "an element is accepted exactly when its name is valid" );
            if( ok ) CHECK( t.addUsr( ts ) == nr, "string registration returns the user number" );
         }
         else
         {
            int nr = r.p( 60 ) ? t.high + r.in( 1, 3 ) : r.p( 15 ) ? 0 : r.in( 1, t.high + 8 );
            if( const int k = t.find( ts ); k > 0 && t.usr[k - 1] >= 0 && r.p( 50 ) ) nr = t.usr[k - 1];
            if( r.p( 2 ) ) nr = -r.in( 1, 5 );
            const bool ok = g->gdxUELRegisterMap( nr, s.c_str() ) != 0;
            if( !good ) CHECK( !ok && g->gdxGetLastError() == -100017, "an invalid name is refused" );
            else
            {
               const size_t before = t.u.size();
               const bool want = t.addMap( ts, nr );
               CHECK( ok == want, "a user number is accepted exactly when it conflicts with nothing" );
               if( !ok ) CHECK( g->gdxGetLastError() == -100013, "a conflicting user number is reported" );
               if( !ok && t.find( ts ) < 0 )// whether a refused new name stays in the table is not specified
               {
                  int x, y;
                  if( g->gdxUMFindUEL( ts.c_str(), x, y ) ) { CHECK( y < 0, "a refused user number is not entered" ); t.add( ts ); }
               }
               else if( !ok && t.u.size() > before )
               {
                  int x, y;
                  if( !g->gdxUMFindUEL( ts.c_str(), x, y ) ) { t.idx.erase( lowerStr( ts ) ); t.u.pop_back(); t.usr.pop_back(); }
               }
            }
         }
      }
      CHECK( g->gdxUELRegisterDone(), "registration done" );
      if( r.p( 40 ) ) renameSome( g, r, t );
      compare( g, r, t, r.p( 10 ) );
   }
}
// P04 / P05: element table and user numbers against the model, over whole sessions
static void tableSession( Rnd &r )
{
   Gdx g;
   openW( g, r.in( 0, 1 ) );
   Tab t;
   histories( g, r, t, true, r.in( 1, 4 ) );
   if( r.p( 50 ) )
   {
      // writing string data enters new elements at the end
      CHECK( g->gdxDataWriteStrStart( "x", "", 2, 1, 0 ), "symbol starts" );
      for( int i = r.in( 0, 10 ); i > 0; i-- )
      {
         const std::string a = !t.u.empty() && r.p( 50 ) ? vary( r, r.pick( t.u ) ) : genUel( r ), b = genUel( r );
         const char *p[] { a.c_str(), b.c_str() };
         double v[5] { 1 };
         CHECK( g->gdxDataWriteStr( p, v ), "record accepted" );
         t.add( trimmed( a ) ); t.add( trimmed( b ) );
      }
      g->gdxDataWriteDone();
      compare( g, r, t, false );
   }
   CHECK( g->gdxClose() == 0, "file closes" );
   // user numbers are not stored; the names are
   for( auto &x: t.usr ) x = -1;
   t.back.clear();
   t.high = 0;
   openR( g );
   compare( g, r, t, true );
   histories( g, r, t, false, r.in( 0, 3 ) );
   compare( g, r, t, true );
   g->gdxClose();
}
extern "C" void api_uel() { Rnd r( vf_seed() ); tableSession( r ); }

// P05: mapped writing uses exactly the registered numbers
extern "C" void api_umap()
{
   Rnd r( vf_seed() );
   if( r.p( 50 ) ) { tableSession( r ); return; }
   Gdx g;
   openW( g, r.in( 0, 1 ) );
   Tab t;
   histories( g, r, t, true, r.in( 1, 3 ) );
   const int dim = r.in( 1, 4 );
   CHECK( g->gdxDataWriteMapStart( "x", "", dim, 1, 0 ), "symbol starts" );
   std::map<std::vector<int>, double> exp;
   int errs = g->gdxErrorCount();
   for( int q = r.in( 0, 25 ); q > 0; q-- )
   {
      int k[20];
      bool good = true;
      std::vector<int> e;
      for( int d = 0; d < dim; d++ )
      {
         if( !t.back.empty() && r.p( 93 ) ) { auto it = t.back.begin(); std::advance( it, r.u() % t.back.size() ); k[d] = it->first; }
         else k[d] = r.in( -2, t.high + 1100 );
         auto it = t.back.find( k[d] );
         if( it == t.back.end() ) good = false; else e.push_back( it->second );
      }
      double v[5] { q + 0.5 };
      g->gdxGetLastError();
      const bool ok = g->gdxDataWriteMap( k, v ) != 0;
      CHECK( ok == good, "a mapped record is accepted exactly when all its numbers are registered" );
      if( good ) exp.emplace( e, v[0] );
      else { CHECK( g->gdxGetLastError() == -100004, "an unregistered number is reported" ); errs++; }
      CHECK( g->gdxErrorCount() == errs, "error count" );
   }
   CHECK( g->gdxDataWriteDone() && g->gdxClose() == 0, "file closes" );
   openR( g );
   int cnt;
   bool ok;
   auto got = readRaw( g, 1, dim, 1, cnt, ok );
   CHECK( ok && got.size() == exp.size(), "exactly the accepted records are in the file" );
   size_t i = 0;
   for( auto &[k, v]: exp ) { CHECK( got[i].k == k && got[i].v[0] == v, "records carry the registered elements" ); i++; }
   g->gdxClose();
}

// P12: domain-mapped and filtered reading
extern "C" void api_filter()
{
   Rnd r( vf_seed() );
   const int n = r.p( 90 ) ? r.in( 1, 14 ) : r.in( 200, 1200 );
   const int ns = r.in( 1, 3 );
   struct S { int dim, typ; std::vector<Rec> recs; };
   std::vector<S> syms;
   std::vector<std::string> names;
   Gdx g;
   openW( g, r.in( 0, 1 ) );
   g->gdxUELRegisterRawStart();
   for( int i = 1; i <= n; i++ ) { names.push_back( "e" + std::to_string( i ) ); g->gdxUELRegisterRaw( names.back().c_str() ); }
   g->gdxUELRegisterDone();
   for( int i = 0; i < ns; i++ )
   {
      S s;
      s.dim = r.p( 85 ) ? r.in( 1, 4 ) : r.in( 1, 20 ); s.typ = r.in( 0, 3 );
      std::vector<int> el;
      for( int q = r.in( 1, 10 ); q > 0; q-- ) el.push_back( r.in( 1, n ) );
      CHECK( g->gdxDataWriteRawStart( ( "s" + std::to_string( i ) ).c_str(), "", s.dim, s.typ, 0 ), "symbol starts" );
      for( auto &k: genKeys( r, s.dim, r.in( 0, 40 ), el ) )
      {
         Rec x;
         x.k = k;
         for( int j = 0; j < nvals[s.typ]; j++ ) x.v[j] = s.recs.size() + j * 0.25 + 3;
         CHECK( g->gdxDataWriteRaw( x.k.data(), x.v.data() ), "record accepted" );
         s.recs.push_back( x );
      }
      g->gdxDataWriteDone();
      syms.push_back( s );
   }
   g->gdxClose();
   openR( g );
   std::vector<int> usr( n + 1, -1 );
   std::map<int, int> back;
   int high = 0;
   // partial user mapping
   {
      const int kind = r.in( 0, 4 );
      const int wide = r.p( 25 ) ? r.in( 100, 4000 ) / ( n / 14 + 1 ) + 1 : 0;// user numbers far apart
      int nx = r.p( 15 ) ? -1 : 0;
      std::vector<int> ord;
      for( int i = 1; i <= n; i++ ) ord.push_back( i );
      if( kind >= 3 ) shuffle( r, ord );
      const int pct = r.p( 30 ) ? 100 : r.in( 20, 95 );
      CHECK( g->gdxUELRegisterMapStart(), "registration starts" );
      bool stop = false;
      for( int i: ord )
      {
         if( kind == 1 && !r.p( pct ) ) stop = true;// only a prefix is mapped
         if( stop || ( kind != 1 && !r.p( pct ) ) ) continue;
         nx += wide ? r.in( 1, wide ) : r.in( 1, 3 );
         usr[i] = nx; back[nx] = i; high = nx;
         CHECK( g->gdxUELRegisterMap( nx, names[i - 1].c_str() ), "registration" );
      }
      g->gdxUELRegisterDone();
   }
   std::map<int, std::set<int>> filters;
   for( int q = r.in( 0, 3 ); q > 0; q-- )
   {
      const int nr = r.in( 1, 4 );
      CHECK( g->gdxFilterRegisterStart( nr ), "filter starts" );
      std::set<int> f;
      for( int z = r.in( 0, 12 ); z > 0; z-- )
      {
         const int v = back.empty() || r.p( 15 ) ? r.in( -1, high + 2 ) : std::next( back.begin(), r.u() % back.size() )->first;
         const bool want = v >= 1 && v <= high && back.count( v );
         g->gdxGetLastError();
         const bool ok = g->gdxFilterRegister( v ) != 0;
         CHECK( ok == want, "a filter takes exactly the mapped user numbers" );
         if( !ok ) CHECK( g->gdxGetLastError() == ( v >= 1 && v <= high ? -100023 : -100022 ), "filter error" );
         if( ok ) f.insert( v );
      }
      CHECK( g->gdxFilterRegisterDone(), "filter done" );
      filters[nr] = f;
   }
   CHECK( !g->gdxFilterRegisterStart( -r.in( 0, 2 ) ), "filter numbers are positive" );
   for( int q = 1; q <= 5; q++ ) CHECK( ( g->gdxFilterExists( q ) != 0 ) == ( filters.count( q ) != 0 ), "filter exists" );
   g->gdxGetLastError();
   for( int pass = 0; pass < 4; pass++ )
   {
      const int si = r.in( 0, ns - 1 );
      auto &s = syms[si];
      const int nv = nvals[s.typ];
      int act[20];
      bool bad = false, strictAll = r.p( 20 );
      for( int d = 0; d < 20; d++ )
      {
         const int z = strictAll ? 2 : r.in( 0, 9 );
         act[d] = z <= 1 ? -2 : z <= 4 ? 0 : z <= 6 ? -1 : r.in( 1, 4 );
         if( d < s.dim && act[d] > 0 && !filters.count( act[d] ) ) bad = true;
      }
      int cnt = -5;
      const int sy = si + 1;
      g->gdxGetLastError();
      const bool ok = strictAll && r.p( 50 ) ? g->gdxDataReadMapStart( sy, cnt ) != 0 : g->gdxDataReadFilteredStart( sy, act, cnt ) != 0;
      CHECK( ok == !bad, "reading starts exactly when all filters exist" );
      if( !ok ) { CHECK( g->gdxGetLastError() == -100010, "unknown filter is reported" ); continue; }
      std::vector<Rec> exp;
      std::map<std::vector<int>, std::vector<bool>> rej;
      int hi = high;
      auto usr2 = usr;// numbers given to new elements count from the record that brings them
      auto fails = [&]( int d, int e ) { return act[d] == 0 ? usr2[e] < 0 : act[d] > 0 ? ( usr2[e] < 0 || !filters[act[d]].count( usr2[e] ) ) : false; };
      bool stopEarly = r.p( 15 );
      for( auto &x: s.recs )
      {
         bool out = false;
         for( int d = 0; d < s.dim; d++ ) out |= fails( d, x.k[d] );
         if( out ) { auto &f = rej[x.k]; for( int d = 0; d < s.dim; d++ ) f.push_back( fails( d, x.k[d] ) ); continue; }
         Rec y = x;
         for( int d = 0; d < s.dim; d++ )
         {
            if( act[d] == -2 ) continue;
            int &v = usr2[x.k[d]];
            if( v < 0 ) v = ++hi;// only with "expand"
            y.k[d] = v;
         }
         exp.push_back( y );
      }
      std::stable_sort( exp.begin(), exp.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
      for( size_t j = 0; j < exp.size(); j++ ) exp[j].frst = firstDiff( j ? &exp[j - 1].k : nullptr, exp[j].k );
      if( exp.empty() ) stopEarly = false;
      CHECK( cnt >= (int) exp.size() && cnt <= (int) s.recs.size(), "announced record count" );
      // the caller's key buffer is scratch: it is overwritten before every call
      std::vector<Rec> got;
      int keys[20], fd;
      double vals[5];
      for( ;; )
      {
         if( stopEarly && got.size() >= exp.size() / 2 ) break;
         if( r.p( 50 ) ) for( auto &k: keys ) k = -77;
         if( !g->gdxDataReadMap( (int) got.size() + 1, keys, vals, fd ) ) break;
         Rec y;
         y.k.assign( keys, keys + s.dim );
         for( int i = 0; i < nv; i++ ) y.v[i] = vals[i];
         y.frst = fd;
         got.push_back( y );
      }
      if( stopEarly )
      {
         CHECK( got.size() <= exp.size(), "filtered read: number of records" );
         for( size_t i = 0; i < got.size(); i++ ) CHECK( got[i].k == exp[i].k, "filtered read: keys" );
         g->gdxDataReadDone();
         // which elements were numbered is then not specified: re-read the mapping
         for( int i = 1; i <= n; i++ ) { char b[256]; int mp; g->gdxUMUelGet( i, b, mp ); CHECK( usr[i] < 0 || mp == usr[i], "existing user numbers are kept" ); if( usr[i] < 0 && mp >= 0 ) { CHECK( !back.count( mp ), "new user numbers are new" ); back[mp] = i; high = std::max( high, mp ); } usr[i] = mp; }
         continue;
      }
      checkRecs( got, exp, s.dim, nv, true, "filtered read: exactly the records inside the domain", "filtered read: keys", "filtered read: values", "filtered read: first changed position" );
      const int ne = g->gdxDataErrorCount();
      CHECK( ( ne > 0 ) == !rej.empty() && ne <= 11, "records outside the domain are reported" );
      for( int e = 1; e <= ne; e++ )
      {
         int k[20];
         double v[5];
         CHECK( g->gdxDataErrorRecordX( e, k, v ), "error record" );
         std::vector<int> a;
         bool neg = false;
         for( int d = 0; d < s.dim; d++ )
         {
            a.push_back( std::abs( k[d] ) );
            neg |= k[d] < 0;
         }
         CHECK( neg && rej.count( a ), "an error record is a refused record of the symbol" );
         for( int d = 0; d < s.dim; d++ ) if( k[d] < 0 ) CHECK( rej[a][d], "only offending positions are marked" );
         for( auto &x: s.recs ) if( x.k == a ) for( int j = 0; j < nv; j++ ) CHECK( sameVal( x.v[j], v[j] ), "error record values" );
      }
      g->gdxDataReadDone();
      usr = usr2;
      high = hi;
      for( int i = 1; i <= n; i++ )
      {
         char b[256];
         int mp;
         g->gdxUMUelGet( i, b, mp );
         CHECK( mp == usr[i], "user numbers after reading: existing kept, new ones in order of first delivery" );
         if( mp >= 0 ) { back[mp] = i; CHECK( g->gdxGetUEL( mp, b ) && names[i - 1] == b, "user numbers map back" ); }
      }
   }
   g->gdxClose();
}

// P14: acronyms
extern "C" void api_acro()
{
   Rnd r( vf_seed() );
   Gdx g;
   openW( g, r.in( 0, 1 ) );
   struct A { std::string n, t; int i; };
   std::vector<A> ac;
   CHECK( g->gdxDataWriteRawStart( "Sym1", "", 0, 1, 0 ), "symbol starts" );
   { double v[5] { 3 }; g->gdxDataWriteRaw( nullptr, v ); g->gdxDataWriteDone(); }
   auto find = [&]( const std::string &n ) { for( size_t i = 0; i < ac.size(); i++ ) if( lowerStr( ac[i].n ) == lowerStr( n ) ) return (int) i; return -1; };
   auto findI = [&]( int x ) { for( size_t i = 0; i < ac.size(); i++ ) if( ac[i].i == x ) return (int) i; return -1; };
   auto sane = []( std::string t ) { char q = 0; for( auto &c: t ) { if( c == '\'' || c == '"' ) { if( !q ) q = c; c = q; } else if( (unsigned char) c < 32 ) c = '?'; } return t; };
   for( int q = r.in( 0, 8 ); q > 0; q-- )
   {
      const std::string n = r.p( 20 ) && !ac.empty() ? vary( r, r.pick( ac ).n ) : genIdent( r );
      std::string nn = trimmed( n );
      std::string t = r.p( 50 ) ? "text" : r.p( 50 ) ? std::string( "a'b\"c\x01" ) : std::string( r.in( 0, 200 ), 'q' );
      const int ix = r.p( 20 ) && !ac.empty() ? r.pick( ac ).i : r.in( 1, 20 );
      const int f = find( nn ), fi = findI( ix );
      const int rc = g->gdxAcronymAdd( nn.c_str(), t.c_str(), ix );
      if( f >= 0 && ac[f].i == ix ) CHECK( rc == 0, "adding the same acronym again is no error" );
      else if( f >= 0 || fi >= 0 ) CHECK( rc == -1, "conflicting acronym is refused" );
      else { CHECK( rc == (int) ac.size() + 1, "acronym added" ); ac.push_back( { nn, sane( t ), ix } ); }
   }
   CHECK( g->gdxAcronymCount() == (int) ac.size(), "acronym count" );
   // values
   std::vector<int> idx;
   CHECK( g->gdxDataWriteRawStart( "qdata", "", 1, 1, 0 ), "symbol starts" );
   const int n = r.in( 1, 15 );
   for( int k = 1; k <= n; k++ )
   {
      int ix = r.p( 30 ) ? 0 : !ac.empty() && r.p( 60 ) ? r.pick( ac ).i : r.in( 1, 30 );
      idx.push_back( ix );
      double v[5] { ix ? g->gdxAcronymValue( ix ) : 12.5 };
      CHECK( g->gdxAcronymIndex( v[0] ) == ix, "index of an acronym value" );
      CHECK( g->gdxDataWriteRaw( &k, v ), "record accepted" );
      if( ix && findI( ix ) < 0 ) ac.push_back( { "", "", ix } );
   }
   g->gdxDataWriteDone();
   CHECK( g->gdxAcronymCount() == (int) ac.size(), "an acronym used in data is in the table" );
   for( size_t i = 0; i < ac.size(); i++ )
   {
      char a[GMS_SSSIZE], t[GMS_SSSIZE];
      int ix;
      CHECK( g->gdxAcronymGetInfo( (int) i + 1, a, t, ix ) && ac[i].n == a && ac[i].t == t && ac[i].i == ix, "acronym info" );
   }
   // naming unnamed ones
   for( size_t i = 0; i < ac.size(); i++ )
      if( ac[i].n.empty() && r.p( 50 ) )
      {
         const std::string nn = genIdent( r );
         const bool good = find( nn ) < 0 && lowerStr( nn ) != "sym1" && lowerStr( nn ) != "qdata";
         const bool ok = g->gdxAcronymSetInfo( (int) i + 1, nn.c_str(), "tt", ac[i].i ) != 0;
         CHECK( ok == good, "an acronym can be named with a new valid identifier" );
         if( ok ) { ac[i].n = nn; ac[i].t = "tt"; }
      }
   { char a[GMS_SSSIZE], t[GMS_SSSIZE]; int ix; CHECK( !g->gdxAcronymGetInfo( r.p( 50 ) ? 0 : (int) ac.size() + 1, a, t, ix ), "no such acronym" );
     const int no = r.p( 50 ) ? -r.in( 0, 2 ) : (int) ac.size() + r.in( 1, 3 );
     CHECK( !g->gdxAcronymSetInfo( no, "zzz", "", 77 ), "no such acronym to name" );
     int o, w, au; CHECK( !g->gdxAcronymGetMapping( no, o, w, au ), "no such acronym to query" ); }
   CHECK( g->gdxClose() == 0, "file closes" );
   openR( g );
   CHECK( g->gdxAcronymCount() == (int) ac.size(), "acronym count after reading" );
   for( auto &a: ac ) if( a.n.empty() ) a.n = "UnknownACRO" + std::to_string( a.i );
   for( size_t i = 0; i < ac.size(); i++ )
   {
      char a[GMS_SSSIZE], t[GMS_SSSIZE];
      int ix;
      CHECK( g->gdxAcronymGetInfo( (int) i + 1, a, t, ix ) && ac[i].n == a && ac[i].t == t && ac[i].i == ix, "acronym info after reading" );
   }
   std::map<int, int> rm;
   std::set<int> autos;
   const bool nan = r.p( 10 );
   g->gdxMapAcronymsToNaNSet( nan );
   if( r.p( 60 ) )
      for( size_t i = 0; i < ac.size(); i++ )
         if( r.p( 40 ) )
         {
            const int nw = r.in( 40, 60 );
            bool dup = false;
            for( auto &[a, b]: rm ) dup |= b == nw && a != ac[i].i;
            const bool ok = g->gdxAcronymSetInfo( (int) i + 1, vary( r, ac[i].n ).substr( 0, ac[i].n.size() ).c_str(), "", nw ) != 0;
            CHECK( ok == !dup, "the reader's index of an acronym is unique" );
            if( ok ) rm[ac[i].i] = nw;
         }
   int autoNr = r.p( 40 ) ? r.p( 30 ) ? 1 : r.in( 100, 200 ) : 0;
   g->gdxAcronymNextNr( autoNr );
   int cnt;
   bool ok;
   auto got = readRaw( g, 2, 1, 1, cnt, ok );
   CHECK( ok && (int) got.size() == n, "all records" );
   for( int i = 0; i < n; i++ )
   {
      if( !idx[i] ) { CHECK( got[i].v[0] == 12.5, "ordinary values are not acronyms" ); continue; }
      if( nan ) { CHECK( got[i].v[0] == SV_NA, "acronyms read as not available on request" ); continue; }
      int want = idx[i];
      if( rm.count( want ) ) want = rm[want];
      else if( autoNr > 0 ) { autos.insert( want ); rm[want] = autoNr; want = autoNr++; }
      CHECK( g->gdxAcronymIndex( got[i].v[0] ) == want && sameVal( got[i].v[0], g->gdxAcronymValue( want ) ), "an acronym value denotes the same acronym" );
      char b[GMS_SSSIZE];
   }
   for( size_t i = 0; i < ac.size(); i++ )
   {
      int o = -1, w = -1, au = -1;
      CHECK( g->gdxAcronymGetMapping( (int) i + 1, o, w, au ) && o == ac[i].i, "acronym mapping" );
      if( rm.count( ac[i].i ) ) CHECK( w == rm[ac[i].i], "acronym mapping, new index" );
      CHECK( ( au != 0 ) == ( autos.count( ac[i].i ) != 0 ), "acronym mapping, given by the library" );
      if( au && r.p( 50 ) )
      {
         const std::string nn = "zz_" + std::to_string( i );
         if( find( nn ) >= 0 ) continue;
         CHECK( !g->gdxAcronymSetInfo( (int) i + 1, "1bad", "tt", w ), "a bad acronym name is refused" );
         CHECK( g->gdxAcronymSetInfo( (int) i + 1, nn.c_str(), "tt", w ), "an acronym numbered by the library can be named" );
         char a[GMS_SSSIZE], t[GMS_SSSIZE];
         int ix;
         CHECK( g->gdxAcronymGetInfo( (int) i + 1, a, t, ix ) && nn == a && ix == ac[i].i && std::string( "tt" ) == t, "acronym named while reading" );
         CHECK( g->gdxAcronymGetMapping( (int) i + 1, o, w, au ) && o == ac[i].i && w == rm[o] && !au, "a named acronym is no longer one of the library's" );
      }
   }
   g->gdxClose();
}
