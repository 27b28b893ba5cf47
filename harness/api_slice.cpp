#include "model.hpp"
static std::vector<std::pair<int, int>> domGot;
static void cbDom( int raw, int mapped, void *u ) { CHECK( u == (void *) &domGot, "the callback receives the caller's pointer" ); domGot.push_back( { raw, mapped } ); }
// P17
extern "C" void api_slice()
{
   Rnd r( vf_seed() );
   Model m;
   buildFile( r, m, true );
   Gdx g;
   int err;
   CHECK( g->gdxOpenRead( FN, err ) && !err, "opens" );
   const int nu = (int) m.uels.size();
   std::vector<int> um( nu + 1, -1 );// user numbers
   if( nu && r.p( 60 ) )
   {
      std::vector<int> p( nu );
      for( int i = 0; i < nu; i++ ) p[i] = i + 1 + r.in( 0, 1 ) * nu;
      for( size_t i = p.size(); i > 1; i-- ) std::swap( p[i - 1], p[r.u() % i] );
      std::set<int> used;
      CHECK( g->gdxUELRegisterMapStart(), "registration starts" );
      for( int i = 1; i <= nu; i++ )
         if( r.p( 70 ) && used.insert( p[i - 1] ).second )
         {
            CHECK( g->gdxUELRegisterMap( p[i - 1], m.uels[i - 1].c_str() ), "mapped" );
            um[i] = p[i - 1];
         }
      CHECK( g->gdxUELRegisterDone(), "registration ends" );
   }
   std::set<int> filt;
   for( int i = 1; i <= nu; i++ ) if( um[i] > 0 && r.p( 60 ) ) filt.insert( um[i] );
   CHECK( g->gdxFilterRegisterStart( 7 ), "filter starts" );
   for( int f: filt ) CHECK( g->gdxFilterRegister( f ), "filter element" );
   CHECK( g->gdxFilterRegisterDone(), "filter ends" );
   for( int q = r.in( 1, 14 ); q > 0; q-- )
   {
      const int sy = r.in( 0, (int) m.syms.size() );
      int root = sy;
      while( root > 0 && m.syms[root - 1].typ == 4 ) root = m.syms[root - 1].aliasOf;
      const int dim = root ? m.syms[root - 1].dim : 1, nv = root ? nvals[m.syms[root - 1].typ] : 1;
      std::vector<Rec> ref;
      if( root ) ref = m.syms[root - 1].recs;
      else for( int i = 1; i <= nu; i++ ) { Rec x; x.k = { i }; ref.push_back( x ); }
      if( root && dim == 0 && ref.empty() ) { int c; bool ok; ref = readRaw( g, sy, dim, nv, c, ok ); CHECK( ok && ref.size() == 1, "a scalar has one record" ); }
      for( size_t i = 0; i < ref.size(); i++ ) ref[i].frst = firstDiff( i ? &ref[i - 1].k : nullptr, ref[i].k );
      int cnt;
      bool ok;
      switch( r.in( 0, 8 ) )
      {
         case 0:
         {
            const auto a = readRaw( g, sy, dim, nv, cnt, ok );
            CHECK( ok && cnt == (int) ref.size(), "raw: record count" );
            checkRecs( a, ref, dim, nv, true, "raw: records", "raw: keys", "raw: values", "raw: first changed position" );
            break;
         }
         case 1:
         {
            auto e = ref;
            for( auto &x: e ) for( int k: x.k ) x.s.push_back( m.uels[k - 1] );
            const auto a = readStr( g, sy, dim, nv, cnt, ok );
            CHECK( ok && cnt == (int) ref.size(), "string: record count" );
            checkRecs( a, e, dim, nv, true, "string: records", "string: keys", "string: values", "string: first changed position" );
            break;
         }
         case 2:
         {
            const auto a = readFast( g, sy, dim, nv, cnt, ok );
            CHECK( ok && cnt == (int) ref.size(), "callback reader: record count" );
            checkRecs( a, ref, dim, nv, false, "callback reader: records", "callback reader: keys", "callback reader: values", "" );
            break;
         }
         case 3:
         {
            const int stop = r.p( 50 ) || ref.empty() ? -1 : r.in( 1, (int) ref.size() );
            const auto a = readFastEx( g, sy, dim, nv, cnt, ok, stop );
            CHECK( ok && cnt == (int) ref.size(), "stoppable callback reader: record count" );
            auto e = ref;
            if( stop > 0 ) e.resize( stop );
            checkRecs( a, e, dim, nv, true, "stoppable callback reader: records", "stoppable callback reader: keys", "stoppable callback reader: values", "stoppable callback reader: first changed position" );
            break;
         }
         case 4:
         case 5:
         case 6:
         {// slice or filtered callback reader
            std::vector<std::string> f( dim );
            std::vector<int> fn( dim, -1 );
            bool unknown = false;
            const bool all = r.p( 15 );
            const size_t one = all && !ref.empty() ? (size_t) r.in( 0, (int) ref.size() - 1 ) : 0;
            for( int d = 0; d < dim; d++ )
               if( all || r.p( 40 ) )
               {
                  if( r.p( all ? 1 : 5 ) ) { f[d] = "no such element"; unknown = true; }
                  else if( nu )
                  {
                     fn[d] = all && !ref.empty() ? ref[one].k[d] : !ref.empty() && r.p( 90 ) ? r.pick( ref ).k[d] : r.in( 1, nu );
                     f[d] = m.uels[fn[d] - 1];
                     if( f[d].empty() ) fn[d] = -1;
                     for( auto &c: f[d] ) if( r.p( 30 ) ) c = (char) ( c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c );
                  }
               }
            std::vector<const char *> fp;
            for( auto &x: f ) fp.push_back( x.c_str() );
            fp.push_back( nullptr );
            std::vector<Rec> e, got;
            for( auto &x: ref )
            {
               bool in = true;
               for( int d = 0; d < dim; d++ ) in &= fn[d] < 0 || fn[d] == x.k[d];
               if( in ) e.push_back( x );
            }
            if( r.p( 40 ) )
            {
               const int stop = r.p( 60 ) || e.empty() ? -1 : r.in( 1, (int) e.size() );
               sink = &got; sinkDim = dim; sinkNv = nv; sinkStop = stop;
               ok = g->gdxDataReadRawFastFilt( sy, fp.data(), cbFilt ) != 0;
               CHECK( ok == !unknown, "filtered callback reader refuses exactly unknown elements" );
               if( unknown ) { CHECK( got.empty(), "nothing for an unknown element" ); break; }
               if( stop > 0 ) e.resize( stop );
               checkRecs( got, e, dim, nv, false, "filtered callback reader: records", "filtered callback reader: keys", "filtered callback reader: values", "" );
               break;
            }
            int ec[20];
            CHECK( g->gdxDataReadSliceStart( sy, ec ), "slice reading starts" );
            std::vector<std::vector<int>> el( dim );
            for( int d = 0; d < dim; d++ )
            {
               std::set<int> s;
               for( auto &x: ref ) s.insert( x.k[d] );
               el[d].assign( s.begin(), s.end() );
               CHECK( ec[d] == (int) el[d].size(), "slice: number of elements used in a position" );
            }
            for( int d = dim; d < 20; d++ ) CHECK( ec[d] == 0, "slice: no elements beyond the dimension" );
            sink = &got; sinkNv = nv;
            sinkDim = 0;
            for( int d = 0; d < dim; d++ ) sinkDim += f[d].empty();
            int sd = -1;
            ok = g->gdxDataReadSlice( fp.data(), sd, cbFast ) != 0;
            CHECK( ok == !unknown, "slice refuses exactly unknown elements" );
            if( unknown ) { CHECK( got.empty(), "nothing for an unknown element" ); g->gdxDataReadDone(); break; }
            CHECK( sd == sinkDim, "slice: free positions" );
            CHECK( got.size() == e.size(), "slice: records" );
            KeyBufs kb;
            for( size_t i = 0; i < e.size(); i++ )
            {
               for( int d = 0, h = 0; d < dim; d++ )
                  if( f[d].empty() ) { CHECK( got[i].k[h] >= 0 && got[i].k[h] < (int) el[d].size() && el[d][got[i].k[h]] == e[i].k[d], "slice: keys" ); h++; }
               for( int j = 0; j < nv; j++ ) CHECK( sameVal( got[i].v[j], e[i].v[j] ), "slice: values" );
               if( i < 40 )
               {
                  CHECK( g->gdxDataSliceUELS( got[i].k.data(), kb.p ), "slice: names" );
                  for( int d = 0; d < dim; d++ )
                     CHECK( f[d].empty() ? m.uels[e[i].k[d] - 1] == kb.b[d] : sameCi( kb.b[d], m.uels[e[i].k[d] - 1] ), "slice: element names" );
               }
            }
            CHECK( g->gdxDataReadDone(), "slice reading ends" );
            break;
         }
         case 7:
         {
            if( !sy ) break;
            const int pos = r.in( 1, std::max( dim, 1 ) );
            const bool fl = r.p( 40 ), cb = r.p( 60 );
            std::set<int> s;
            std::set<int> errs;// one report per offending element
            if( dim ) for( auto &x: ref ) { const int k = x.k[pos - 1]; if( fl && !( um[k] > 0 && filt.count( um[k] ) ) ) { errs.insert( k ); continue; } s.insert( k ); }
            if( m.syms[sy - 1].dim == 0 ) break;
            domGot.clear();
            int n = -1;
            CHECK( g->gdxGetDomainElements( sy, pos, fl ? 7 : -1, cb ? cbDom : nullptr, n, &domGot ), "domain elements" );
            CHECK( n == (int) s.size(), "domain elements: number" );
            if( cb )
            {
               std::vector<std::pair<int, int>> e;
               int mx = 0;
               for( int i = 1; i <= nu; i++ ) mx = std::max( mx, um[i] );
               for( int k: s ) if( um[k] < 0 ) um[k] = ++mx;
               for( int k: s ) e.push_back( { um[k], k } );
               std::sort( e.begin(), e.end() );
               CHECK( domGot.size() == e.size(), "domain elements: calls" );
               for( size_t i = 0; i < e.size(); i++ ) CHECK( domGot[i].first == e[i].second && domGot[i].second == e[i].first, "domain elements: raw and user number in user order" );
            }
            const int ec = g->gdxDataErrorCount();
            CHECK( ec == std::min<int>( (int) errs.size(), 11 ), "records outside the filter are reported" );
            break;
         }
         default:
         {// mapped reading without restrictions
            int f[20];
            bool some = false;
            for( auto &x: ref ) for( int k: x.k ) some |= um[k] < 0;
            if( some ) break;
            CHECK( g->gdxDataReadMapStart( sy, cnt ), "mapped reading starts" );
            CHECK( cnt == (int) ref.size(), "mapped: record count" );
            auto e = ref;
            for( auto &x: e ) for( auto &k: x.k ) k = um[k];
            std::sort( e.begin(), e.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
            for( size_t i = 0; i < e.size(); i++ ) e[i].frst = firstDiff( i ? &e[i - 1].k : nullptr, e[i].k );
            const auto a = readMapRest( g, dim, nv );
            checkRecs( a, e, dim, nv, true, "mapped: records", "mapped: keys", "mapped: values", "mapped: first changed position" );
            CHECK( g->gdxDataReadDone(), "mapped reading ends" );
            (void) f;
         }
      }
   }
   g->gdxClose();
}
