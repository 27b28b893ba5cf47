// Bounded stand-ins for the data path: records, special values, order/duplicate/domain rules, sorted delivery.
#include "api.hpp"
struct Sym
{
   std::string id;
   int dim, typ, mode;// mode 0 raw, 1 raw with key bounds, 2 mapped, 3 strings
   std::vector<Rec> recs;
   bool wild;// keys beyond the registered elements
};
static void open( Gdx &g, bool wr, int compr = 0 )
{
   int e = 0;
   const int rc = wr ? g->gdxOpenWriteEx( FN, "vf", compr, e ) : g->gdxOpenRead( FN, e );
   CHECK( rc && e == 0, "file opens" );
}
static std::vector<std::string> genUels( Rnd &r, int n )
{
   std::vector<std::string> u;
   std::set<std::string, CiLess> seen;
   while( (int) u.size() < n )
   {
      std::string s = n > 1000 ? "n" + std::to_string( u.size() ) : genUel( r );
      if( s.empty() && r.p( 50 ) ) continue;
      if( !seen.insert( s ).second ) { if( n > 50 ) { s = "z" + std::to_string( u.size() ) + "q"; if( !seen.insert( s ).second ) continue; } else continue; }
      u.push_back( s );
   }
   return u;
}
static void regRaw( Gdx &g, const std::vector<std::string> &u )
{
   CHECK( g->gdxUELRegisterRawStart(), "raw registration starts" );
   for( auto &s: u ) CHECK( g->gdxUELRegisterRaw( s.c_str() ), "raw registration" );
   CHECK( g->gdxUELRegisterDone(), "registration done" );
}
static void shuffle( Rnd &r, std::vector<int> &v )
{
   for( size_t i = v.size(); i > 1; i-- ) std::swap( v[i - 1], v[r.u() % i] );
}
// distinct user numbers for elements 1..n
static std::vector<int> genMap( Rnd &r, int n )
{
   std::vector<int> m( n + 1, -1 );
   std::set<int> used;
   const int kind = r.in( 0, 3 );
   int last = r.in( 0, 3 );
   for( int i = 1; i <= n; i++ )
   {
      int x;
      if( kind == 0 ) x = last = last + 1;
      else if( kind == 1 ) x = last = last + r.in( 1, 5 );
      else do x = r.p( 5 ) ? 0 : r.in( 1, 4 * n + 5 ); while( used.count( x ) );
      used.insert( x );
      m[i] = x;
   }
   return m;
}
static void regMap( Gdx &g, Rnd &r, const std::vector<std::string> &u, const std::vector<int> &m )
{
   std::vector<int> ord;
   for( size_t i = 1; i < m.size(); i++ ) if( m[i] >= 0 ) ord.push_back( (int) i );
   shuffle( r, ord );
   CHECK( g->gdxUELRegisterMapStart(), "map registration starts" );
   for( int i: ord ) CHECK( g->gdxUELRegisterMap( m[i], u[i - 1].c_str() ), "map registration" );
   CHECK( g->gdxUELRegisterDone(), "registration done" );
}
static void writeRec( Gdx &g, const Sym &s, const Rec &x, const std::vector<std::string> &u, const std::vector<int> &m, bool &ok )
{
   int k[20];
   const char *p[20];
   for( int d = 0; d < s.dim; d++ )
   {
      k[d] = s.mode == 2 ? m[x.k[d]] : x.k[d];
      if( s.mode == 3 ) p[d] = u[x.k[d] - 1].c_str();
   }
   ok = ( s.mode <= 1 ? g->gdxDataWriteRaw( k, x.v.data() ) : s.mode == 2 ? g->gdxDataWriteMap( k, x.v.data() ) : g->gdxDataWriteStr( p, x.v.data() ) ) != 0;
}
static bool startSym( Gdx &g, Rnd &r, const Sym &s )
{
   const char *txt = "some text";
   switch( s.mode )
   {
      case 0: return g->gdxDataWriteRawStart( s.id.c_str(), txt, s.dim, s.typ, 0 );
      case 1:
      {
         int lo[20], hi[20];
         for( int d = 0; d < s.dim; d++ )
         {
            lo[d] = INT32_MAX; hi[d] = 0;
            for( auto &x: s.recs ) { lo[d] = std::min( lo[d], x.k[d] ); hi[d] = std::max( hi[d], x.k[d] ); }
            if( r.p( 30 ) ) lo[d] = std::max( 1, lo[d] == INT32_MAX ? 1 : lo[d] - r.in( 0, 300 ) );
            if( r.p( 30 ) ) hi[d] = (int) std::min<int64_t>( INT32_MAX, (int64_t) hi[d] + r.in( 0, 300 ) );
         }
         return g->gdxDataWriteRawStartKeyBounds( s.id.c_str(), txt, s.dim, s.typ, 0, lo, hi );
      }
      case 2: return g->gdxDataWriteMapStart( s.id.c_str(), txt, s.dim, s.typ, 0 );
      default: return g->gdxDataWriteStrStart( s.id.c_str(), txt, s.dim, s.typ, 0 );
   }
}
static int genDim( Rnd &r ) { return r.p( 75 ) ? r.in( 0, 4 ) : r.in( 0, 20 ); }

// P01: every accepted record is delivered back with the same keys, values and order
extern "C" void api_rt()
{
   Rnd r( vf_seed() );
   const int n = r.p( 75 ) ? r.in( 1, 15 ) : r.p( 97 ) ? r.in( 200, 400 ) : r.in( 65000, 66500 );
   const auto u = genUels( r, n );
   const auto m = genMap( r, n );
   std::vector<Sym> syms;
   const int ns = r.in( 1, 4 );
   {
      Gdx g;
      open( g, true, r.in( 0, 1 ) );
      regRaw( g, u );
      regMap( g, r, u, m );
      for( int i = 0; i < ns; i++ )
      {
         Sym s;
         s.id = "s" + std::to_string( i );
         s.dim = genDim( r ); s.typ = r.in( 0, 3 ); s.mode = r.in( 0, 3 );
         s.wild = s.mode <= 1 && s.typ != 0 && r.p( 30 );
         const auto el = genElemSet( r, s.wild ? INT32_MAX - 256 : n );
         for( auto &k: genKeys( r, s.dim, r.p( 90 ) ? r.in( 0, 30 ) : r.in( 200, 2000 ), el ) )
         {
            Rec x;
            x.k = k;
            for( int j = 0; j < nvals[s.typ]; j++ ) x.v[j] = genVal( r );
            s.recs.push_back( x );
         }
         CHECK( startSym( g, r, s ), "symbol starts" );
         std::vector<int> ord( s.recs.size() );
         for( size_t j = 0; j < ord.size(); j++ ) ord[j] = (int) j;
         if( s.mode >= 2 ) shuffle( r, ord );
         for( int j: ord )
         {
            bool ok;
            writeRec( g, s, s.recs[j], u, m, ok );
            CHECK( ok, "a record in order, new and inside the domain is accepted" );
         }
         CHECK( g->gdxDataWriteDone(), "symbol done" );
         syms.push_back( s );
      }
      CHECK( g->gdxErrorCount() == 0, "no error is reported for valid data" );
      CHECK( g->gdxClose() == 0, "file closes" );
   }
   Gdx g;
   open( g, false );
   for( int pass = 0; pass < ns * 3; pass++ )
   {
      const int i = r.in( 0, ns - 1 );
      const Sym &s = syms[i];
      const int nv = nvals[s.typ];
      std::vector<Rec> exp = s.recs;
      for( size_t j = 0; j < exp.size(); j++ )
      {
         for( int q = 0; q < nv; q++ ) exp[j].v[q] = expectVal( exp[j].v[q] );
         exp[j].frst = firstDiff( j ? &exp[j - 1].k : nullptr, exp[j].k );
      }
      int cnt = -7;
      bool ok;
      if( s.dim == 0 && exp.empty() ) continue;// a scalar without a record has a default record
      switch( r.in( 0, s.wild ? 2 : 3 ) )
      {
         case 0: { auto got = readRaw( g, i + 1, s.dim, nv, cnt, ok ); CHECK( ok, "raw read starts" ); checkRecs( got, exp, s.dim, nv, true, "raw read: number of records", "raw read: keys", "raw read: values", "raw read: first changed position" ); break; }
         case 1: { auto got = readFast( g, i + 1, s.dim, nv, cnt, ok ); CHECK( ok, "fast read" ); checkRecs( got, exp, s.dim, nv, false, "fast read: number of records", "fast read: keys", "fast read: values", "" ); break; }
         case 2: { auto got = readFastEx( g, i + 1, s.dim, nv, cnt, ok ); CHECK( ok, "fast read" ); checkRecs( got, exp, s.dim, nv, true, "fastex read: number of records", "fastex read: keys", "fastex read: values", "fastex read: first changed position" ); break; }
         default:
         {
            auto got = readStr( g, i + 1, s.dim, nv, cnt, ok );
            CHECK( ok, "string read starts" );
            for( auto &x: exp ) for( int k: x.k ) x.s.push_back( u[k - 1] );
            checkRecs( got, exp, s.dim, nv, true, "string read: number of records", "string read: keys", "string read: values", "string read: first changed position" );
         }
      }
      CHECK( cnt == (int) exp.size(), "announced record count" );
   }
   CHECK( g->gdxErrorCount() == 0, "no error is reported for valid data" );
   g->gdxClose();
}

// P02: special values
extern "C" void api_sv()
{
   Rnd r( vf_seed() );
   Gdx g;
   open( g, true, r.in( 0, 1 ) );
   double std7[7] {}, cur[7], chk[7];
   CHECK( g->gdxGetSpecialValues( std7 ), "special values can be queried" );
   for( int i = 0; i < 5; i++ ) CHECK( sameVal( std7[i], stdSpecials[i] ), "default special values" );
   CHECK( std7[sv_acronym] == GMS_SV_ACR, "the acronym unit" );
   if( r.p( 20 ) )// another file with the same object
   {
      double nw[7] { 1, 2, 3, 4, 5, 0, 0 };
      CHECK( g->gdxSetSpecialValues( nw ), "special values" );
      g->gdxClose();
      if( r.p( 50 ) ) CHECK( g->gdxSetSpecialValues( nw ), "special values without a file" );
      open( g, true, r.in( 0, 1 ) );
      g->gdxGetSpecialValues( chk );
      for( int i = 0; i < 5; i++ ) CHECK( sameVal( chk[i], stdSpecials[i] ), "a new file starts with the default special values" );
   }
   memcpy( cur, std7, sizeof cur );
   std::vector<double> spool { INFINITY, -INFINITY, NAN, 1e300, 2e300, 3e300, 4e300, 5e300, 1e20, -1e20, 3.14, 0.0, -0.0, 1.0, 2.0, 0.5, -1.0, 7.0 };
   for( int t = r.in( 0, 3 ); t > 0; t-- )
   {
      double nw[7] {};
      for( int i = 0; i < 5; i++ ) nw[i] = r.p( 60 ) ? r.pick( spool ) : genVal( r );
      nw[5] = nw[6] = 0;
      bool dup = false;
      for( int i = 0; i < 5; i++ ) for( int j = 0; j < i; j++ ) dup |= sameVal( nw[i], nw[j] );
      const int ec = g->gdxErrorCount();
      const bool ok = g->gdxSetSpecialValues( nw ) != 0;
      CHECK( ok == !dup, "special values are accepted exactly when pairwise different" );
      CHECK( ( g->gdxErrorCount() == ec + 1 ) == dup, "duplicate special values are reported" );
      if( ok ) memcpy( cur, nw, sizeof( double ) * 5 );
      g->gdxGetSpecialValues( chk );
      for( int i = 0; i < 5; i++ ) CHECK( sameVal( chk[i], cur[i] ), "special values in force" );
   }
   if( r.p( 20 ) )
   {
      g->gdxResetSpecialValues();
      memcpy( cur, std7, sizeof cur );
      g->gdxGetSpecialValues( chk );
      for( int i = 0; i < 5; i++ ) CHECK( sameVal( chk[i], cur[i] ), "reset restores the defaults" );
   }
   for( int t = 0; t < 6; t++ )
   {
      const double x = r.p( 50 ) ? cur[r.in( 0, 4 )] : genVal( r );
      int sv = -3, want = -1;
      for( int i = 0; i < 5; i++ ) if( sameVal( cur[i], x ) ) { want = i; break; }
      const int rc = g->gdxMapValue( x, sv );
      CHECK( ( rc != 0 ) == ( want >= 0 ) && sv == ( want >= 0 ? want : (int) sv_normal ), "classification of a value" );
   }
   const int n = r.in( 1, 20 ), typ = r.in( 0, 3 );
   std::vector<std::array<double, 5>> in( n );
   CHECK( g->gdxDataWriteRawStart( "x", "", 1, typ, 0 ), "symbol starts" );
   for( int i = 0; i < n; i++ )
   {
      for( auto &v: in[i] ) v = r.p( 40 ) ? cur[r.in( 0, 4 )] : r.p( 30 ) ? r.pick( spool ) : genVal( r );
      const int k = i + 1;
      CHECK( g->gdxDataWriteRaw( &k, in[i].data() ), "record accepted" );
   }
   g->gdxDataWriteDone();
   CHECK( g->gdxClose() == 0, "file closes" );
   open( g, false );
   g->gdxGetSpecialValues( chk );
   for( int i = 0; i < 5; i++ ) CHECK( sameVal( chk[i], stdSpecials[i] ), "opening a file restores the default special values" );
   double rd[7] {};
   memcpy( rd, std7, sizeof rd );
   double cr[7];
   memcpy( cr, std7, sizeof cr );
   for( int rounds = r.in( 1, 3 ); rounds > 0; rounds-- )
   {
   for( int t = r.in( 0, 3 ); t > 0; t-- )
   {
      const int what = r.in( 0, 4 );
      if( what <= 1 )
      {
         for( int i = 0; i < 5; i++ ) rd[i] = r.p( 50 ) ? r.pick( spool ) : genVal( r );
         CHECK( g->gdxSetReadSpecialValues( rd ), "read map set" );
      }
      else if( what == 4 )
      {
         CHECK( g->gdxResetSpecialValues(), "reset" );
         memcpy( cr, std7, sizeof cr );
         memcpy( rd, std7, sizeof rd );
      }
      else
      {
         double nw[7] {};
         for( int i = 0; i < 5; i++ ) nw[i] = r.p( 60 ) ? r.pick( spool ) : genVal( r );
         if( r.p( 40 ) ) nw[r.in( 0, 4 )] = nw[r.in( 0, 4 )];
         bool dup = false;
         for( int i = 0; i < 5; i++ ) for( int j = 0; j < i; j++ ) dup |= sameVal( nw[i], nw[j] );
         CHECK( ( g->gdxSetSpecialValues( nw ) != 0 ) == !dup, "special values are accepted exactly when pairwise different, reading" );
         if( !dup ) { memcpy( cr, nw, 5 * sizeof( double ) ); memcpy( rd, nw, 5 * sizeof( double ) ); }
      }
      g->gdxGetSpecialValues( chk );
      for( int i = 0; i < 5; i++ ) CHECK( sameVal( chk[i], cr[i] ), "special values in force, reading" );
   }
   int cnt;
   bool ok;
   auto got = r.p( 50 ) ? readRaw( g, 1, 1, nvals[typ], cnt, ok ) : r.p( 50 ) ? readStr( g, 1, 1, nvals[typ], cnt, ok ) : readFast( g, 1, 1, nvals[typ], cnt, ok );
   CHECK( ok && (int) got.size() == n, "all records" );
   for( int i = 0; i < n; i++ )
      for( int j = 0; j < nvals[typ]; j++ )
      {
         const double x = in[i][j];
         int s = -1;
         for( int q = 0; q < 5; q++ ) if( sameVal( cur[q], x ) ) { s = q; break; }
         double want;
         if( s >= 0 ) want = rd[s];
         else if( x == 0 ) want = 0.0;
         else if( std::isnan( x ) ) want = rd[1];
         else if( std::isinf( x ) ) want = rd[x > 0 ? 2 : 3];
         else want = x;
         CHECK( sameVal( got[i].v[j], want ), s >= 0 ? "a special value is read as the reader's representation of the same special value" : std::isfinite( x ) ? "an ordinary value is read unchanged" : "an infinity or NaN is read as the matching special value" );
      }
   }
   g->gdxClose();
}

// P03: order, duplicate and domain rules of raw writing
extern "C" void api_order()
{
   Rnd r( vf_seed() );
   const int n = r.in( 2, 30 );
   const auto u = genUels( r, n );
   Gdx g;
   const bool store = r.p( 80 );
   g->gdxStoreDomainSetsSet( store );
   open( g, true, r.in( 0, 1 ) );
   regRaw( g, u );
   const auto m = genMap( r, n );
   regMap( g, r, u, m );
   // one-dimensional sets that may serve as domains
   const int nset = r.in( 1, 3 );
   std::vector<std::set<int>> sets( nset );
   for( int i = 0; i < nset; i++ )
   {
      const int mode = r.in( 0, 2 );
      Sym s;
      s.id = "set" + std::to_string( i ); s.dim = 1; s.typ = 0; s.mode = mode == 1 ? 2 : mode == 2 ? 3 : 0;
      CHECK( startSym( g, r, s ), "set starts" );
      for( int e = 1; e <= n; e++ )
         if( r.p( 70 ) )
         {
            Rec x;
            x.k = { e };
            bool ok;
            writeRec( g, s, x, u, m, ok );
            CHECK( ok, "set element accepted" );
            sets[i].insert( e );
         }
      CHECK( g->gdxDataWriteDone(), "set done" );
   }
   int aliasOf = -1;
   if( r.p( 40 ) ) { aliasOf = r.in( 0, nset - 1 ); CHECK( g->gdxAddAlias( ( "set" + std::to_string( aliasOf ) ).c_str(), "al" ), "alias added" ); }
   Sym s;
   s.id = "x"; s.dim = r.in( 1, r.p( 80 ) ? 3 : 20 ); s.typ = r.in( 1, 3 ); s.mode = 0;
   const int nv = nvals[s.typ];
   CHECK( startSym( g, r, s ), "symbol starts" );
   std::vector<int> dom( s.dim, -1 );
   std::vector<std::string> dn( s.dim, "*" );
   if( r.p( 70 ) )
   {
      const char *p[20];
      for( int d = 0; d < s.dim; d++ )
      {
         if( r.p( 60 ) )
         {
            if( aliasOf >= 0 && r.p( 30 ) ) { dn[d] = "al"; dom[d] = aliasOf; }
            else { dom[d] = r.in( 0, nset - 1 ); dn[d] = "set" + std::to_string( dom[d] ); }
         }
         p[d] = dn[d].c_str();
      }
      const bool ok = g->gdxSymbolSetDomain( p ) != 0;
      if( !store )
      {
         bool any = false;
         for( int x: dom ) any |= x >= 0;
         const bool exp = !any || g->gdxAllowBogusDomains();
         CHECK( ok == exp, "a domain without stored elements is refused unless explicitly allowed" );
         if( !ok ) { g->gdxDataWriteDone(); g->gdxClose(); return; }
         for( auto &x: dom ) x = -1;
      }
      else CHECK( ok, "domain accepted" );
   }
   std::vector<Rec> acc, rej;
   std::vector<int> last;
   g->gdxGetLastError();
   int errs = g->gdxErrorCount();
   const int ops = r.in( 0, 40 );
   for( int t = 0; t < ops; t++ )
   {
      Rec x;
      x.k.resize( s.dim );
      if( last.empty() || r.p( 10 ) ) for( auto &e: x.k ) e = r.in( 1, n );
      else
      {
         x.k = last;
         const int d = r.p( 60 ) ? s.dim - 1 : r.in( 0, s.dim - 1 );
         const int delta = r.p( 70 ) ? r.in( 0, 3 ) : r.in( -3, 3 );
         x.k[d] = std::min( n, std::max( 1, x.k[d] + delta ) );
         if( r.p( 50 ) ) for( int q = d + 1; q < s.dim; q++ ) x.k[q] = r.in( 1, n );
      }
      for( int j = 0; j < nv; j++ ) x.v[j] = r.in( 1, 1000 ) + 0.25;
      bool viol = false;
      for( int d = 0; d < s.dim; d++ ) if( dom[d] >= 0 && !sets[dom[d]].count( x.k[d] ) ) viol = true;
      const bool good = !viol && ( last.empty() || x.k > last );
      const bool ok = g->gdxDataWriteRaw( x.k.data(), x.v.data() ) != 0;
      CHECK( ok == good, "a raw record is accepted exactly when it is in its domain and greater than the last accepted record" );
      if( good ) { acc.push_back( x ); last = x.k; }
      else
      {
         Rec y = x;
         for( int d = 0; d < s.dim; d++ ) if( viol && dom[d] >= 0 && !sets[dom[d]].count( x.k[d] ) ) y.k[d] = -y.k[d];
         y.frst = viol;
         rej.push_back( y );
         errs++;
         const int le = g->gdxGetLastError();
         CHECK( le == ( viol ? -100058 : x.k == last ? -100009 : -100025 ), "the error tells why the record was refused" );
      }
      CHECK( g->gdxErrorCount() == errs, "every refused record counts as one error" );
   }
   CHECK( g->gdxDataWriteDone(), "symbol done" );
   // the error list holds the refused records (domain violations once per offending element), at most 11
   std::vector<Rec> list;
   for( auto &y: rej )
   {
      if( list.size() >= 11 ) break;
      if( !y.frst ) { list.push_back( y ); continue; }
      for( int d = 0; d < s.dim; d++ )
         if( y.k[d] < 0 )
         {
            bool found = false;
            for( auto &z: list ) found |= z.k[d] == y.k[d];
            if( !found ) { list.push_back( y ); break; }
         }
   }
   CHECK( g->gdxDataErrorCount() == (int) list.size(), "number of error records" );
   for( size_t i = 0; i < list.size(); i++ )
   {
      int k[20];
      double v[5];
      CHECK( g->gdxDataErrorRecordX( (int) i + 1, k, v ), "error record" );
      CHECK( std::vector<int>( k, k + s.dim ) == list[i].k, "error record keys, negative where the domain is violated" );
      for( int j = 0; j < nv; j++ ) CHECK( sameVal( v[j], list[i].v[j] ), "error record values" );
      CHECK( g->gdxDataErrorRecord( (int) i + 1, k, v ), "error record" );
      for( int d = 0; d < s.dim; d++ ) CHECK( k[d] == std::abs( list[i].k[d] ), "error record keys without sign" );
   }
   // a following symbol is unaffected
   int one = 1;
   double ov[5] { 7, 7, 7, 7, 7 };
   CHECK( g->gdxDataWriteRawStart( "after", "", 1, 1, 0 ) && g->gdxDataWriteRaw( &one, ov ) && g->gdxDataWriteDone(), "the next symbol can be written" );
   CHECK( g->gdxClose() == 0, "file closes" );
   open( g, false );
   int cnt;
   bool ok;
   int sy = 0;
   CHECK( g->gdxFindSymbol( "x", sy ), "symbol found" );
   for( size_t j = 0; j < acc.size(); j++ ) acc[j].frst = firstDiff( j ? &acc[j - 1].k : nullptr, acc[j].k );
   auto got = readRaw( g, sy, s.dim, nv, cnt, ok );
   CHECK( ok && cnt == (int) acc.size(), "record count" );
   checkRecs( got, acc, s.dim, nv, true, "refused records leave no trace: number", "refused records leave no trace: keys", "refused records leave no trace: values", "first changed position" );
   int a = 0;
   g->gdxFindSymbol( "after", a );
   auto got2 = readRaw( g, a, 1, 1, cnt, ok );
   CHECK( ok && got2.size() == 1 && got2[0].v[0] == 7, "the next symbol is intact" );
   int kk[20];
   if( g->gdxSymbolGetDomain( sy, kk ) )
      for( int d = 0; d < s.dim; d++ )
      {
         int want = 0;
         if( dn[d] != "*" ) g->gdxFindSymbol( dn[d].c_str(), want );
         CHECK( kk[d] == want, "the domain is recorded" );
      }
   g->gdxClose();
}

// P06: mapped and string writing in any order, with duplicates; mapped reading
extern "C" void api_sorted()
{
   Rnd r( vf_seed() );
   const int n = r.p( 90 ) ? r.in( 1, 25 ) : r.in( 250, 700 );
   const auto u = genUels( r, n );
   const auto m = genMap( r, n );
   Gdx g;
   open( g, true, r.in( 0, 1 ) );
   regRaw( g, u );
   regMap( g, r, u, m );
   const int ns = r.in( 1, 3 );
   std::vector<Sym> syms;
   for( int i = 0; i < ns; i++ )
   {
      Sym s;
      s.id = "s" + std::to_string( i );
      s.dim = r.p( 80 ) ? r.in( 1, 4 ) : r.in( 1, 20 ); s.typ = r.in( 0, 3 ); s.mode = r.in( 2, 3 );
      CHECK( startSym( g, r, s ), "symbol starts" );
      const int ops = r.p( 85 ) ? r.in( 0, 30 ) : r.in( 300, 900 );
      std::map<std::vector<int>, Rec> first;
      std::vector<Rec> dups, all;
      const int pd = r.in( 0, 40 );
      for( int t = 0; t < ops; t++ )
      {
         Rec x;
         x.k.resize( s.dim );
         if( !all.empty() && r.p( pd ) ) x.k = r.pick( all ).k;
         else if( !all.empty() && r.p( 50 ) ) { x.k = r.pick( all ).k; x.k[r.in( 0, s.dim - 1 )] = r.in( 1, n ); }
         else for( auto &e: x.k ) e = r.in( 1, n );
         for( int j = 0; j < nvals[s.typ]; j++ ) x.v[j] = t + j / 8.0 + 0.125;
         bool ok;
         writeRec( g, s, x, u, m, ok );
         CHECK( ok, "record accepted" );
         all.push_back( x );
         if( !first.emplace( x.k, x ).second ) dups.push_back( x );
      }
      const int ec = g->gdxErrorCount();
      CHECK( ec == 0 || i > 0, "no error before the data is finished" );
      CHECK( g->gdxDataWriteDone(), "symbol done" );
      CHECK( g->gdxErrorCount() == ec + (int) dups.size(), "every duplicate counts as one error" );
      CHECK( g->gdxDataErrorCount() == (int) std::min<size_t>( 11, dups.size() ), "duplicates are in the error list" );
      std::stable_sort( dups.begin(), dups.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
      for( int e = 1; e <= g->gdxDataErrorCount(); e++ )
      {
         int k[20];
         double v[5];
         CHECK( g->gdxDataErrorRecord( e, k, v ), "error record" );
         CHECK( std::vector<int>( k, k + s.dim ) == dups[e - 1].k, "error record keys" );
         for( int j = 0; j < nvals[s.typ]; j++ ) CHECK( sameVal( v[j], dups[e - 1].v[j] ), "error record values" );
      }
      if( !dups.empty() ) CHECK( g->gdxGetLastError() == -100009, "duplicates are reported" );
      for( auto &[k, x]: first ) s.recs.push_back( x );
      syms.push_back( s );
   }
   CHECK( g->gdxClose() == 0, "file closes" );
   open( g, false );
   // user mapping of the reader: complete
   const auto m2 = genMap( r, n );
   regMap( g, r, u, m2 );
   for( int i = 0; i < ns; i++ )
   {
      auto &s = syms[i];
      const int nv = nvals[s.typ];
      std::vector<Rec> exp = s.recs;
      int cnt;
      bool ok;
      auto got = readRaw( g, i + 1, s.dim, nv, cnt, ok );
      CHECK( ok && cnt == (int) exp.size(), "announced record count" );
      for( size_t j = 0; j < exp.size(); j++ ) exp[j].frst = firstDiff( j ? &exp[j - 1].k : nullptr, exp[j].k );
      checkRecs( got, exp, s.dim, nv, true, "sorted delivery: number of records", "sorted delivery: keys", "sorted delivery: values", "sorted delivery: first changed position" );
      // mapped read: sorted by the user's numbers
      exp = s.recs;
      for( auto &x: exp ) for( auto &k: x.k ) k = m2[k];
      std::sort( exp.begin(), exp.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
      for( size_t j = 0; j < exp.size(); j++ ) exp[j].frst = firstDiff( j ? &exp[j - 1].k : nullptr, exp[j].k );
      CHECK( g->gdxDataReadMapStart( i + 1, cnt ), "mapped read starts" );
      CHECK( cnt == (int) exp.size(), "mapped read: announced record count" );
      auto gm = readMapRest( g, s.dim, nv );
      CHECK( g->gdxDataErrorCount() == 0, "nothing is outside a complete mapping" );
      g->gdxDataReadDone();
      checkRecs( gm, exp, s.dim, nv, true, "mapped read: number of records", "mapped read: keys", "mapped read: values", "mapped read: first changed position" );
   }
   g->gdxClose();
   // a reader that has mapped some elements only and lets the rest grow
   open( g, false );
   std::vector<int> m3( n + 1, 0 );
   {
      const auto mm = genMap( r, n );
      CHECK( g->gdxUELRegisterMapStart(), "registration starts" );
      const int pm = r.in( 0, 100 );
      for( int i = 1; i <= n; i++ ) if( r.p( pm ) ) { CHECK( g->gdxUELRegisterMap( mm[i], u[i - 1].c_str() ), "mapped" ); m3[i] = mm[i]; }
      CHECK( g->gdxUELRegisterDone(), "registration ends" );
   }
   for( int i = 0; i < ns; i++ )
   {
      auto &s = syms[i];
      const int nv = nvals[s.typ];
      int act[20], cnt;
      for( int d = 0; d < s.dim; d++ ) act[d] = r.p( 70 ) ? -1 : -2;
      CHECK( g->gdxDataReadFilteredStart( i + 1, act, cnt ), "growing read starts" );
      auto gm = readMapRest( g, s.dim, nv );
      CHECK( g->gdxDataErrorCount() == 0, "nothing is left out of a growing read" );
      g->gdxDataReadDone();
      CHECK( gm.size() == s.recs.size(), "growing read: number of records" );
      for( size_t j = 1; j < gm.size(); j++ ) CHECK( gm[j - 1].k < gm[j].k, "growing read: ascending order" );
      for( int k = 1; k <= n; k++ )
      {
         int nr, mp;
         CHECK( g->gdxUMFindUEL( u[k - 1].c_str(), nr, mp ) && nr == k && ( !m3[k] || mp == m3[k] ), "growing read keeps the given numbers" );
         if( mp > 0 ) m3[k] = mp;
      }
      std::map<std::vector<int>, Rec> want;
      for( auto x: s.recs ) { for( int d = 0; d < s.dim; d++ ) if( act[d] == -1 ) x.k[d] = m3[x.k[d]]; want[x.k] = x; }
      for( auto &x: gm )
      {
         auto it = want.find( x.k );
         CHECK( it != want.end(), "growing read: keys" );
         for( int j = 0; j < nv; j++ ) CHECK( sameVal( x.v[j], it->second.v[j] ), "growing read: values" );
      }
   }
   g->gdxClose();
}
