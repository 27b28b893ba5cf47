// A random GDX file and the independent model of what it contains.
#pragma once
#include "gdxfmt.hpp"
// domain relaxed names keep the first spelling in the file
static bool sameCi( const std::string &a, const std::string &b ) { return lowerStr( a ) == lowerStr( b ); }
struct MSym
{
   std::string name, text;
   int dim {}, typ {}, uinfo {};
   int aliasOf { -1 };// symbol number, 0 universe, -1 no alias
   int domKind {};    // 0 none 1 regular 2 relaxed (strings)
   std::vector<int> dom;
   std::vector<std::string> domStr;
   std::vector<std::string> comments;
   std::vector<Rec> recs;
   bool settext {};
};
struct Model
{
   std::vector<MSym> syms;
   std::vector<std::string> uels, texts { "" };
   struct A { std::string n, t; int i; };
   std::vector<A> acr;
   std::string producer;
   int compr {};
   int find( const std::string &n )
   {
      for( size_t i = 0; i < syms.size(); i++ ) if( lowerStr( syms[i].name ) == lowerStr( n ) ) return (int) i + 1;
      return 0;
   }
   int uel( const std::string &n )
   {
      for( size_t i = 0; i < uels.size(); i++ ) if( lowerStr( uels[i] ) == lowerStr( n ) ) return (int) i + 1;
      return 0;
   }
};
static std::string saneText( std::string t )
{
   char q = 0;
   for( auto &c: t )
   {
      if( c == '\'' || c == '"' ) { if( !q ) q = c; c = q; }
      else if( (unsigned char) c < 32 ) c = '?';
   }
   return t;
}
static std::string genText( Rnd &r, int mx = 255 )
{
   std::string t;
   const int n = r.p( 8 ) ? mx : r.p( 10 ) ? 0 : r.p( 10 ) ? r.in( 0, mx ) : r.in( 0, 30 );
   for( int i = 0; i < n; i++ ) t += (char) ( r.p( 90 ) ? r.in( 32, 126 ) : r.in( 1, 255 ) );
   return t;
}
static std::string newName( Rnd &r, Model &m )
{
   for( ;; )
   {
      auto s = genIdent( r );
      bool acr = false;
      for( auto &a: m.acr ) acr |= lowerStr( a.n ) == lowerStr( s );
      if( !m.find( s ) && !acr ) return s;
   }
}
static void addUels( Rnd &r, Gdx &g, Model &m, int n )
{
   CHECK( g->gdxUELRegisterRawStart(), "registration starts" );
   for( int i = 0; i < n; i++ )
   {
      auto u = r.p( 80 ) ? "e" + std::to_string( m.uels.size() ) + "x" : genUel( r );
      CHECK( g->gdxUELRegisterRaw( u.c_str() ), "element registered" );
      if( !m.uel( u ) ) m.uels.push_back( u );
   }
   CHECK( g->gdxUELRegisterDone(), "registration ends" );
}
static int addText( Rnd &r, Gdx &g, Model &m )
{
   const auto t = r.p( 30 ) ? r.pick( m.texts ) : genText( r );
   int nr = -1;
   CHECK( g->gdxAddSetText( t.c_str(), nr ), "set text added" );
   const auto s = saneText( t );
   int want = -1;
   for( size_t i = 0; i < m.texts.size(); i++ ) if( m.texts[i] == s ) want = (int) i;
   if( want < 0 ) { want = (int) m.texts.size(); m.texts.push_back( s ); }
   CHECK( nr == want, "equal set texts share one number, new ones get the next" );
   return nr;
}
static void addSymbol( Rnd &r, Gdx &g, Model &m, bool fresh )
{
   MSym s;
   if( !m.syms.empty() && r.p( 12 ) )
   {// alias
      std::vector<int> c { 0 };
      for( size_t i = 0; i < m.syms.size(); i++ ) if( m.syms[i].typ == 0 || m.syms[i].typ == 4 ) c.push_back( (int) i + 1 );
      const int of = r.pick( c );
      s.name = newName( r, m );
      const std::string on = of ? m.syms[of - 1].name : "*";
      const bool ok = r.p( 50 ) ? g->gdxAddAlias( on.c_str(), s.name.c_str() ) : g->gdxAddAlias( s.name.c_str(), on.c_str() );
      CHECK( ok, "alias added" );
      s.typ = 4; s.uinfo = of; s.dim = of ? m.syms[of - 1].dim : 1; s.text = "Aliased with " + on; s.aliasOf = of;
      m.syms.push_back( s );
      return;
   }
   s.name = newName( r, m );
   const auto tx = genText( r );
   s.text = saneText( tx );
   s.dim = r.p( 80 ) ? r.in( 0, 3 ) : r.in( 0, 20 );
   if( r.p( 30 ) ) s.dim = 1;
   s.typ = r.in( 0, 3 );
   s.uinfo = r.p( 50 ) ? r.in( -5, 100 ) : (int) r.u();
   const int nv = nvals[s.typ];
   if( s.typ == 0 && s.dim == 0 ) s.dim = 1;
   const int how = r.in( 0, 2 );// raw, str
   const bool str = how == 2;
   if( str ) CHECK( g->gdxDataWriteStrStart( s.name.c_str(), tx.c_str(), s.dim, s.typ, s.uinfo ), "symbol starts" );
   else CHECK( g->gdxDataWriteRawStart( s.name.c_str(), tx.c_str(), s.dim, s.typ, s.uinfo ), "symbol starts" );
   std::vector<std::vector<int>> allow( s.dim );
   std::vector<int> all;
   for( size_t i = 1; i <= m.uels.size(); i++ ) all.push_back( (int) i );
   for( auto &a: allow ) a = all;
   if( s.dim > 0 && r.p( 35 ) )
   {
      s.domKind = 1;
      std::vector<std::string> names;
      for( int d = 0; d < s.dim; d++ )
      {
         std::vector<int> c { 0 };
         for( size_t i = 0; i < m.syms.size(); i++ ) if( ( m.syms[i].typ == 0 || m.syms[i].typ == 4 ) && m.syms[i].dim == 1 ) c.push_back( (int) i + 1 );
         int of = r.pick( c );
         s.dom.push_back( of );
         names.push_back( of ? m.syms[of - 1].name : "*" );
         int root = of;
         while( root > 0 && m.syms[root - 1].typ == 4 ) root = m.syms[root - 1].aliasOf;
         if( root > 0 )
         {
            allow[d].clear();
            for( auto &x: m.syms[root - 1].recs ) allow[d].push_back( x.k[0] );
         }
      }
      const char *p[20];
      for( int d = 0; d < s.dim; d++ ) p[d] = names[d].c_str();
      CHECK( g->gdxSymbolSetDomain( p ), "domain set" );
   }
   if( r.p( 15 ) ) { auto c = genText( r ); CHECK( g->gdxSymbolAddComment( 0, c.c_str() ), "comment on the symbol being written" ); s.comments.push_back( c ); }
   bool none = false;
   for( auto &a: allow ) none |= a.empty();
   if( !none && ( s.dim == 0 || !m.uels.empty() ) )
   {
      std::set<std::vector<int>> keys;
      const int n = s.dim == 0 ? r.in( 0, 1 ) : r.p( 5 ) ? r.in( 200, 2500 ) : r.in( 0, 25 );
      std::vector<int> cur( s.dim );
      for( int i = 0; i < n; i++ )
      {
         for( int d = i && r.p( 60 ) ? s.dim - 1 : 0; d < s.dim; d++ ) cur[d] = r.pick( allow[d] );
         keys.insert( cur );
      }
      for( auto &k: keys )
      {
         Rec x;
         x.k = k;
         if( s.typ == 0 )
         {
            x.v[0] = r.p( 50 ) ? 0 : addText( r, g, m );
            s.settext |= x.v[0] != 0;
         }
         else
            for( int j = 0; j < nv; j++ ) x.v[j] = genVal( r );
         if( str )
         {
            const char *p[20];
            for( int d = 0; d < s.dim; d++ ) p[d] = m.uels[k[d] - 1].c_str();
            CHECK( g->gdxDataWriteStr( p, x.v.data() ), "record accepted" );
         }
         else
            CHECK( g->gdxDataWriteRaw( k.data(), x.v.data() ), "record accepted" );
         for( int j = 0; j < nv; j++ ) x.v[j] = expectVal( x.v[j] );
         s.recs.push_back( x );
      }
   }
   CHECK( g->gdxDataWriteDone(), "symbol ends" );
   (void) fresh;
   m.syms.push_back( s );
   const int nr = (int) m.syms.size();
   if( s.dim > 0 && r.p( 20 ) )
   {
      auto &t = m.syms[nr - 1];
      t.domKind = 2;
      std::vector<std::string> in;
      for( int d = 0; d < s.dim; d++ )
      {
         const auto id = r.p( 20 ) ? "*" : r.p( 10 ) ? "" : r.p( 10 ) ? "no good" : r.p( 30 ) && nr > 1 ? m.syms[r.in( 1, nr ) - 1].name : genIdent( r );
         in.push_back( id );
         t.domStr.push_back( id == "" || id == "no good" ? "*" : id );
      }
      const char *p[20];
      for( int d = 0; d < s.dim; d++ ) p[d] = in[d].c_str();
      CHECK( g->gdxSymbolSetDomainX( nr, p ), "relaxed domain set" );
   }
   while( r.p( 15 ) )
   {
      const int k = r.in( 1, nr );
      auto c = genText( r );
      CHECK( g->gdxSymbolAddComment( k, c.c_str() ), "comment added" );
      m.syms[k - 1].comments.push_back( c );
   }
}
static void addAcro( Rnd &r, Gdx &g, Model &m )
{
   const auto n = newName( r, m );
   const int i = r.p( 70 ) ? r.in( 1, 40 ) : r.in( 1, 100000 );
   for( auto &a: m.acr ) if( sameCi( a.n, n ) || a.i == i ) return;
   const auto t = genText( r );
   CHECK( g->gdxAcronymAdd( n.c_str(), t.c_str(), i ) == (int) m.acr.size() + 1, "acronym added" );
   m.acr.push_back( { n, saneText( t ), i } );
}
static void buildFile( Rnd &r, Model &m, bool allowAppend )
{
   Gdx g;
   int err;
   m.compr = r.in( 0, 1 );
   m.producer = genText( r );
   CHECK( g->gdxOpenWriteEx( FN, m.producer.c_str(), m.compr, err ) && !err, "file opens for writing" );
   addUels( r, g, m, r.in( 0, r.p( 10 ) ? 900 : 20 ) );
   const int n = r.in( 0, 8 );
   for( int i = 0; i < n; i++ )
   {
      if( r.p( 20 ) ) addUels( r, g, m, r.in( 0, 5 ) );
      if( r.p( 15 ) ) addText( r, g, m );
      if( r.p( 12 ) ) addAcro( r, g, m );
      addSymbol( r, g, m, true );
      if( allowAppend && r.p( 20 ) )
      {
         CHECK( g->gdxClose() == 0, "file closes" );
         CHECK( g->gdxOpenAppend( FN, "appender", err ) && !err, "file opens for appending" );
      }
   }
   if( r.p( 90 ) ) CHECK( g->gdxErrorCount() == 0, "no errors" );
   CHECK( g->gdxClose() == 0, "file closes" );
}
