#include "model.hpp"
static void checkAgainst( Rnd &r, Gdx &g, Model &m, const char *fn )
{
   int err;
   CHECK( g->gdxOpenRead( fn, err ) && !err, "file opens for reading" );
   int sc, uc;
   g->gdxSystemInfo( sc, uc );
   CHECK( sc == (int) m.syms.size() && uc == (int) m.uels.size(), "number of symbols and elements" );
   char a[GMS_SSSIZE], b[GMS_SSSIZE];
   g->gdxFileVersion( a, b );
   CHECK( m.producer == b, "producer" );
   int fv, cl;
   CHECK( g->gdxFileInfo( fv, cl ) && fv == 7 && cl == m.compr, "file version and compression" );
   int mxU = 0;
   for( int i = 1; i <= uc; i++ )
   {
      int mp;
      CHECK( g->gdxUMUelGet( i, a, mp ) && m.uels[i - 1] == a && mp == -1, "element names by number" );
      mxU = std::max( mxU, (int) m.uels[i - 1].size() );
   }
   CHECK( g->gdxUELMaxLength() == mxU, "longest element" );
   for( size_t i = 0; i < m.texts.size(); i++ )
   {
      int node = -1;
      CHECK( g->gdxGetElemText( (int) i, a, node ) && m.texts[i] == a && node == 0, "set texts by number" );
   }
   if( !m.texts.empty() && r.p( 30 ) )
   {
      const int i = r.p( 30 ) ? 0 : r.in( 0, (int) m.texts.size() - 1 ), nd = r.in( 1, 9 );
      int node = -1;
      CHECK( g->gdxSetTextNodeNr( i, nd ) && g->gdxGetElemText( i, a, node ) && m.texts[i] == a && node == nd, "a number attached to a set text" );
      CHECK( !g->gdxSetTextNodeNr( i, nd + 1 ) && g->gdxGetElemText( i, a, node ) && node == nd, "a number attached to a set text stays" );
      CHECK( !g->gdxSetTextNodeNr( r.p( 50 ) ? -1 : (int) m.texts.size(), 1 ), "no such set text" );
   }
   { int node; CHECK( !g->gdxGetElemText( r.p( 50 ) ? -1 : (int) m.texts.size(), a, node ), "no such set text" ); }
   CHECK( g->gdxAcronymCount() == (int) m.acr.size(), "number of acronyms" );
   for( size_t i = 0; i < m.acr.size(); i++ )
   {
      int ix, o, w, au;
      CHECK( g->gdxAcronymGetInfo( (int) i + 1, a, b, ix ) && m.acr[i].n == a && m.acr[i].t == b, "acronym name and text" );
      CHECK( g->gdxAcronymGetMapping( (int) i + 1, o, w, au ) && o == m.acr[i].i, "acronym index" );
   }
   int mxS = 0;
   for( int n = 1; n <= sc; n++ )
   {
      auto &s = m.syms[n - 1];
      mxS = std::max( mxS, (int) s.name.size() );
      int dim, typ, cnt, ui, nr;
      CHECK( g->gdxSymbolInfo( n, a, dim, typ ) && s.name == a && dim == s.dim && typ == s.typ, "symbol name, dimension and type" );
      CHECK( g->gdxSymbolDim( n ) == s.dim, "symbol dimension" );
      CHECK( g->gdxFindSymbol( s.name.c_str(), nr ) && nr == n, "symbol found by name" );
      CHECK( g->gdxSymbolInfoX( n, cnt, ui, a ) && s.text == a && ui == s.uinfo, "symbol text and user info" );
      CHECK( cnt == ( s.aliasOf >= 0 ? 0 : s.dim == 0 ? 1 : (int) s.recs.size() ), "record count" );
      CHECK( !!g->gdxSetHasText( n ) == s.settext, "set text flag" );
      for( size_t c = 0; c < s.comments.size(); c++ )
         CHECK( g->gdxSymbolGetComment( n, (int) c + 1, a ) && s.comments[c].substr( 0, 255 ) == a, "comments" );
      CHECK( !g->gdxSymbolGetComment( n, (int) s.comments.size() + 1, a ) && !a[0], "no further comment" );
      if( s.dim > 0 )
      {
         int ds[20];
         KeyBufs kb;
         CHECK( g->gdxSymbolGetDomain( n, ds ), "domain query" );
         for( int d = 0; d < s.dim; d++ ) CHECK( ds[d] == ( s.dom.empty() ? 0 : s.dom[d] ), "domain symbols" );
         const int rc = g->gdxSymbolGetDomainX( n, kb.p );
         const bool dm = !s.dom.empty();
         CHECK( rc == ( s.domKind == 2 ? 2 : dm ? 3 : 1 ), "kind of domain" );
         for( int d = 0; d < s.dim; d++ )
            CHECK( sameCi( kb.b[d], s.domKind == 2 ? s.domStr[d] : dm && s.dom[d] ? m.syms[s.dom[d] - 1].name : "*" ), "domain names" );
      }
      int root = n;
      while( root > 0 && m.syms[root - 1].typ == 4 ) root = m.syms[root - 1].aliasOf;
      bool ok;
      if( root > 0 )
      {
         auto &rs = m.syms[root - 1];
         auto got = readRaw( g, n, s.dim, nvals[rs.typ], cnt, ok );
         CHECK( ok, "symbol readable" );
         std::vector<Rec> exp = rs.recs;
         if( s.dim == 0 && exp.empty() )
            CHECK( got.size() <= 1, "scalar default" );
         else
         {
            checkRecs( got, exp, s.dim, nvals[rs.typ], false, "records delivered", "keys delivered", "values delivered", "" );
            CHECK( cnt == (int) exp.size() || s.dim == 0, "announced record count" );
         }
         if( s.dim > 0 && r.p( 30 ) )
         {
            int li[20];
            std::vector<int> want( 20 );
            for( auto &x: exp ) for( int d = 0; d < s.dim; d++ ) want[d] = std::max( want[d], (int) m.uels[x.k[d] - 1].size() );
            const int mx = g->gdxSymbIndxMaxLength( n, li );
            for( int d = 0; d < s.dim; d++ ) CHECK( li[d] == want[d], "longest element per position" );
            CHECK( mx == *std::max_element( want.begin(), want.end() ), "longest element of the symbol" );
            CHECK( g->gdxUELRegisterStrStart() && g->gdxUELRegisterDone(), "the query leaves the file ready for the next operation" );
         }
      }
      else
      {
         auto got = readRaw( g, n, 1, 1, cnt, ok );
         CHECK( ok && (int) got.size() == uc, "alias of the universe delivers the universe" );
         for( int i = 0; i < uc; i++ ) CHECK( got[i].k[0] == i + 1, "universe in order" );
      }
   }
   CHECK( g->gdxSymbMaxLength() == mxS, "longest symbol name" );
   for( int no: { 0, -1, sc + 1 } )
   {
      char c[GMS_SSSIZE];
      CHECK( !g->gdxSetHasText( no ), "no such symbol, set text" );
      CHECK( no == 0 || ( !g->gdxSymbolGetComment( no, 1, c ) && !c[0] ), "no such symbol, comment" );
   }
   { int nr = 77; CHECK( !g->gdxFindSymbol( "nosuch__q", nr ) && nr == -1, "unknown symbol" ); CHECK( g->gdxFindSymbol( "*", nr ) && nr == 0, "universe found" ); }
   { int dim, typ; const int no = r.p( 50 ) ? -1 : sc + 1; CHECK( !g->gdxSymbolInfo( no, a, dim, typ ) && !a[0], "no such symbol" ); CHECK( g->gdxSymbolDim( no ) == -1, "no such symbol, dimension" ); }
   { int dim, typ, c2, ui; CHECK( g->gdxSymbolInfo( 0, a, dim, typ ) && std::string( "*" ) == a && dim == 1 && typ == 0, "universe info" );
     CHECK( g->gdxSymbolInfoX( 0, c2, ui, a ) && c2 == uc && ui == 0, "universe count" ); }
   CHECK( g->gdxErrorCount() == 0, "reading raises no errors" );
   g->gdxClose();
}
// P16: everything about a file except its data survives the round trip, also over append
extern "C" void api_meta()
{
   Rnd r( vf_seed() );
   Model m;
   buildFile( r, m, true );
   Gdx g;
   checkAgainst( r, g, m, FN );
}
// element sizes follow from the announced element range, at and around the limits of the sizes
static void fmtBounds( Rnd &r )
{
   Gdx g;
   int e = 0;
   const int compr = r.in( 0, 1 ), dim = r.in( 1, 3 );
   CHECK( g->gdxOpenWriteEx( FN, "vf", compr, e ) && !e, "file opens" );
   int lo[20], hi[20];
   for( int d = 0; d < dim; d++ )
   {
      const int64_t w = r.p( 40 ) ? r.in( 252, 258 ) : r.p( 60 ) ? r.in( 65532, 65538 ) : r.p( 70 ) ? r.in( 0, 100 ) : r.p( 50 ) ? r.in( 100000, 1000000 ) : INT32_MAX - 80000;
      lo[d] = r.p( 50 ) ? 1 : r.in( 1, 70000 );
      hi[d] = (int) ( lo[d] + w );
   }
   CHECK( g->gdxDataWriteRawStartKeyBounds( "x", "", dim, 1, 0, lo, hi ), "symbol starts" );
   std::set<std::vector<int>> keys;
   for( int q = r.in( 1, 12 ); q > 0; q-- )
   {
      std::vector<int> k( dim );
      for( int d = 0; d < dim; d++ ) k[d] = r.p( 30 ) ? lo[d] : r.p( 50 ) ? hi[d] - r.in( 0, std::min( 2, hi[d] - lo[d] ) ) : (int) ( lo[d] + r.u() % ( (uint64_t) hi[d] - lo[d] + 1 ) );
      keys.insert( k );
   }
   for( auto &k: keys ) { double v[5] { 7.25 }; CHECK( g->gdxDataWriteRaw( k.data(), v ), "record accepted" ); }
   CHECK( g->gdxDataWriteDone() && g->gdxClose() == 0, "file closes" );
   auto f = decodeGdx( slurp( FN ) );
   if( !f.ok ) fprintf( stderr, "decode: %s\n", f.why.c_str() );
   CHECK( f.ok && f.syms.size() == 1 && f.syms[0].recs.size() == keys.size(), "the file follows the published layout, element ranges" );
   size_t i = 0;
   for( auto &k: keys ) { CHECK( f.syms[0].recs[i].k == k, "elements in the file, element ranges" ); i++; }
   for( int d = 0; d < dim; d++ ) CHECK( f.syms[0].mn[d] == lo[d] && f.syms[0].mx[d] == hi[d], "announced element range in the file" );
   if( !compr ) spew( FN, f.swapped );
   CHECK( g->gdxOpenRead( FN, e ) && !e, "file opens" );
   int cnt;
   bool ok;
   auto got = readRaw( g, 1, dim, 1, cnt, ok );
   CHECK( ok && got.size() == keys.size(), "records of the file, element ranges" );
   i = 0;
   for( auto &k: keys ) { CHECK( got[i].k == k && got[i].v[0] == 7.25, "elements read, element ranges" ); i++; }
   g->gdxClose();
}
// a file whose text table has the same text twice (other writers do not merge equal texts)
static void fmtDup( Rnd &r )
{
   Gdx g;
   int e = 0;
   CHECK( g->gdxOpenWriteEx( FN, "vf", 0, e ) && !e, "file opens" );
   const int n = r.in( 2, 8 );
   std::vector<std::string> t;
   for( int i = 0; i < n; i++ ) { int nr; t.push_back( "zq_text" + std::to_string( i ) ); CHECK( g->gdxAddSetText( t[i].c_str(), nr ) && nr == i + 1, "text added" ); }
   CHECK( g->gdxDataWriteRawStart( "s", "", 1, 0, 0 ), "symbol starts" );
   std::vector<int> use;
   for( int i = 1; i <= 15; i++ ) { use.push_back( r.in( 1, n ) ); double v[5] { (double) use.back() }; CHECK( g->gdxDataWriteRaw( &i, v ), "record accepted" ); }
   CHECK( g->gdxDataWriteDone() && g->gdxClose() == 0, "file closes" );
   auto b = slurp( FN );
   std::vector<size_t> at;// where the file has each text, before any is overwritten
   for( int i = 0; i < n; i++ )
   {
      const auto it = std::search( b.begin(), b.end(), t[i].begin(), t[i].end() );
      CHECK( it != b.end(), "the text is in the file" );
      at.push_back( it - b.begin() );
   }
   for( int q = r.in( 1, 3 ); q > 0; q-- )
   {
      const int i = r.in( 0, n - 1 );
      t[i] = t[r.in( 0, i )];
      for( size_t j = 0; j < t[i].size(); j++ ) b[at[i] + j] = t[i][j];
   }
   spew( FN, b );
   CHECK( g->gdxOpenRead( FN, e ) && !e, "file opens" );
   int cnt;
   bool ok;
   auto got = readRaw( g, 1, 1, 1, cnt, ok );
   CHECK( ok && got.size() == use.size(), "all records" );
   for( size_t i = 0; i < use.size(); i++ )
   {
      char a[GMS_SSSIZE];
      int node;
      CHECK( g->gdxGetElemText( (int) got[i].v[0], a, node ) && t[use[i] - 1] == a, "the text of an element when the file has equal texts twice" );
   }
   g->gdxClose();
}
// P07: the file has the published layout, and its byte-swapped twin reads the same
extern "C" void api_fmt()
{
   Rnd r( vf_seed() );
   if( r.p( 15 ) ) { fmtBounds( r ); return; }
   if( r.p( 8 ) ) { fmtDup( r ); return; }
   Model m;
   buildFile( r, m, r.p( 30 ) );
   auto f = decodeGdx( slurp( FN ) );
   if( !f.ok ) fprintf( stderr, "decode: %s\n", f.why.c_str() );
   CHECK( f.ok, "the file follows the published layout" );
   CHECK( f.version == 7 && f.compr == m.compr && f.producer == m.producer, "file header" );
   CHECK( f.uels == m.uels, "element table in the file" );
   CHECK( f.texts == m.texts, "set text table in the file" );
   CHECK( f.acr.size() == m.acr.size(), "acronym table in the file" );
   for( size_t i = 0; i < m.acr.size(); i++ ) CHECK( f.acr[i].n == m.acr[i].n && f.acr[i].t == m.acr[i].t && f.acr[i].i == m.acr[i].i, "acronym entry in the file" );
   CHECK( f.syms.size() == m.syms.size(), "symbol table in the file" );
   for( size_t i = 0; i < m.syms.size(); i++ )
   {
      auto &s = m.syms[i];
      auto &x = f.syms[i];
      CHECK( x.name == s.name && x.dim == s.dim && x.typ == s.typ && x.uinfo == s.uinfo && x.text == s.text && x.count == (int) s.recs.size() && x.errs == 0 && !!x.settext == s.settext, "symbol entry in the file" );
      CHECK( x.compr == ( m.compr && s.dim > 0 && s.aliasOf < 0 ), "compression flag in the file" );
      CHECK( x.hasDom == !s.dom.empty() && ( !x.hasDom || x.dom == s.dom ), "domain in the file" );
      CHECK( x.hasDomStr == ( s.domKind == 2 ), "relaxed domain in the file" );
      if( x.hasDomStr ) for( int d = 0; d < s.dim; d++ ) CHECK( x.domStr[d] ? x.domStr[d] <= (int) f.doms.size() && sameCi( f.doms[x.domStr[d] - 1], s.domStr[d] ) : s.domStr[d] == "*", "relaxed domain names in the file" );
      CHECK( x.comments.size() == s.comments.size(), "comments in the file" );
      for( size_t c = 0; c < s.comments.size(); c++ ) CHECK( x.comments[c] == s.comments[c].substr( 0, 255 ), "comments in the file" );
      checkRecs( x.recs, s.recs, s.dim, nvals[s.typ], false, "records in the file", "keys in the file", "values in the file", "" );
   }
   if( !m.compr )
   {
      spew( "sw.gdx", f.swapped );
      Gdx g;
      checkAgainst( r, g, m, "sw.gdx" );
      unlink( "sw.gdx" );
   }
}
