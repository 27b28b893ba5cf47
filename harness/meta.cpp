// Contracts of the queries for symbols, domains, set texts and comments. The tables of symbols and texts are used through their
// contract (an entry has a name and an object; any number of entries), so tables of any size are covered.
// VF-GLOBALS AnyWriteMode AnyReadMode
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
// VF-REPLACE gdlib::strhash::TXStrHashList<gdx::TgdxSymbRecord*>::GetObject => stub_SymObj
// VF-REPLACE gdlib::strhash::TXStrHashList<gdx::TgdxSymbRecord*>::GetString => stub_SymName
// VF-REPLACE gdlib::strhash::TXStrHashList<int>::GetObject => stub_TxtObj
// VF-REPLACE gdlib::strhash::TXStrHashList<int>::GetString => stub_TxtName
// VF-REPLACE gdlib::gmsobj::TXStrings::Add => stub_CAdd
// VF-REPLACE gdlib::gmsobj::TXList<char>::operator[] => stub_CAt
// VF-REPLACE utils::assignStrToBuf => stub_Str
// VF-REPLACE rtl::sysutils_p3::IntToStr => stub_Int
#include "common.hpp"
extern "C" void vf_init_globals();
#ifdef VF_NATIVE
extern "C" void vf_init_globals() {}
#define NATIVE_SKIP vf_assume( false )
#else
#define NATIVE_SKIP
#endif
static int g_n, g_at, g_node, g_bad;
static char g_name[260];
static uint64_t g_symmem[( sizeof( TgdxSymbRecord ) + 7 ) / 8];
static TgdxSymbRecord *g_sym;
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
extern "C" TgdxSymbRecord **stub_SymObj( const TNameList *, int n )
{
   ENSURES( n >= 1 && n <= g_n && n == g_at, "only the entry asked for, and only an existing one, is used" );
   return &g_sym;
}
extern "C" char *stub_SymName( const TNameList *, int n )
{
   ENSURES( n >= 1 && n <= g_n && n == g_at, "only the entry asked for, and only an existing one, is used" );
   return g_name;
}
extern "C" int *stub_TxtObj( const TSetTextList *, int n )
{
   ENSURES( n >= 0 && n < g_n && n == g_at, "only the text asked for, and only an existing one, is used" );
   return &g_node;
}
extern "C" char *stub_TxtName( const TSetTextList *, int n )
{
   ENSURES( n >= 0 && n < g_n && n == g_at, "only the text asked for, and only an existing one, is used" );
   return g_name;
}
extern "C" void stub_Str( const std::string &, char *buf, int n )
{
   g_bad++;
   buf[0] = '?';
   buf[1] = 0;
}
extern "C" std::string stub_Int( int64_t ) { return std::string {}; }
static int g_cadds, g_cn, g_cat;
static size_t g_clen;
static const void *g_clist;
static const char *g_ctext;
extern "C" int stub_CAdd( TCommentsList *l, const char *s, size_t n )
{
   g_cadds++;
   g_clist = l;
   g_ctext = s;
   g_clen = n;
   return 0;
}

extern "C" char *stub_CAt( TCommentsList *, int i )
{
   ENSURES( i >= 0 && i < g_cn && i == g_cat - 1, "only the comment asked for, and only an existing one, is used" );

   return g_name;
}
static void text( char *p, int max )
{
   for( int i = 0; i < max; i++ ) p[i] = (char) nd_u8();
   p[max] = 0;
}
static bool same( const char *a, const char *b )
{
   bool on = true, ok = true;
   for( int i = 0; i < 256; i++ )
   {
      ok = ok & ( !on | ( a[i] == b[i] ) );
      on = on & ( b[i] != 0 );
   }
   return ok;
}
static void setup( TGXFileObj &W )
{
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   static uint64_t nl[( sizeof( TNameList ) + 7 ) / 8];
   *(void **) &W.NameList = nl;
   g_n = nd_range( 0, INT32_MAX );
   ( (TNameList *) nl )->FCount = g_n;
   g_sym = (TgdxSymbRecord *) g_symmem;
   g_at = nd_int();
   g_sym->SDim = nd_range( 0, 20 );
   g_sym->SDataCount = nd_int();
   g_sym->SUserInfo = nd_int();
   g_sym->SDataType = (gdxSyType) nd_range( 0, 4 );
}
// what a symbol is reported to be
extern "C" void c_info()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   text( g_name, 63 );
   text( g_sym->SExplTxt.data(), 255 );
   static char id[256], ex[256];
   int dim = nd_int(), typ = nd_int(), cnt = nd_int(), usr = nd_int();
   const bool in = g_at >= 1 && g_at <= g_n, uni = g_at == 0;
   const int r1 = W.gdxSymbolInfo( g_at, id, dim, typ ), r2 = W.gdxSymbolInfoX( g_at, cnt, usr, ex ), d = W.gdxSymbolDim( g_at );
   ENSURES( !!r1 == ( in || uni ) && !!r2 == ( in || uni ), "exactly existing symbols and the universe are reported" );
   ENSURES( dim == ( in ? g_sym->SDim : uni ? 1 : -1 ) && d == dim, "dimension" );
   ENSURES( typ == ( in ? (int) g_sym->SDataType : (int) dt_set ), "type" );
   ENSURES( in ? same( id, g_name ) : uni ? id[0] == '*' && !id[1] : !id[0], "name" );
   ENSURES( cnt == ( in ? g_sym->SDim ? g_sym->SDataCount : 1 : uni ? W.UelCntOrig : 0 ) && usr == ( in ? g_sym->SUserInfo : 0 ), "count of records and user information" );
   ENSURES( in ? same( ex, g_sym->SExplTxt.data() ) : uni ? same( ex, "Universe" ) : !ex[0], "explanatory text" );
   *(void **) &W.NameList = nullptr;
   COVER( in, "in" );
   COVER( !in, "out" );
}
// parameter 0: number of a domain kept (1) or not (0)
extern "C" void c_domain()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   static int dom[20];
   int got[20];
   const bool has = vf_param( 0 );
   for( int i = 0; i < 20; i++ ) { dom[i] = nd_int(); got[i] = -7; }
   *(void **) &g_sym->SDomSymbols = has ? dom : nullptr;
   const bool in = g_at >= 1 && g_at <= g_n;
   const int r = W.gdxSymbolGetDomain( g_at, got );
   ENSURES( !!r == in, "domains of exactly the existing symbols" );
   bool ok = true;
   for( int i = 0; i < 20; i++ ) ok = ok & ( got[i] == ( !in || i >= g_sym->SDim ? -7 : has ? dom[i] : 0 ) );
   ENSURES( ok, "the domains given, or the universe" );
   *(void **) &W.NameList = nullptr;
   COVER( in, "in" );
   COVER( !in, "out" );
}
// the text and node of a set text; a node is set once
extern "C" void c_settext()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   W.TraceLevel = TGXFileObj::TraceLevels::trl_none;
   *(bool *) &W.verboseTrace = false;
   static uint64_t tl[( sizeof( TSetTextList ) + 7 ) / 8];
   const bool has = nd_bool();
   *(void **) &W.SetTextList = has ? tl : nullptr;
   g_n = nd_range( 0, INT32_MAX );
   ( (TSetTextList *) tl )->FCount = g_n;
   g_at = nd_int();
   g_node = nd_int();
   text( g_name, 255 );
   static char t[256];
   int node = nd_int();
   const int was = g_node, to = nd_int();
   const bool in = has && g_at >= 0 && g_at < g_n, set = nd_bool();
   const int s = set ? W.gdxSetTextNodeNr( g_at, to ) : 0;
   if( set ) ENSURES( !!s == ( in && !was ), "a node is given once" );
   ENSURES( g_node == ( s ? to : was ), "the node given, and no other change" );
   const int r = W.gdxGetElemText( g_at, t, node );
   ENSURES( !!r == in, "texts of exactly the existing numbers" );
   ENSURES( node == ( in ? g_node : 0 ), "node" );
   ENSURES( in ? same( t, g_name ) : has ? g_bad == 1 : !t[0], "text" );
   *(void **) &W.SetTextList = nullptr;
   COVER( in && s, "in" );
   COVER( !in, "out" );
}
// a comment goes to the symbol asked for (or the current one), cut at 255 characters
extern "C" void c_comment()
{
   NATIVE_SKIP;
   vf_init_globals();
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   new( &W.MajContext ) std::string();
   W.MajContext.reserve( 120 );
   W.fmode = fw_init;
   W.fstatus = TGXFileObj::stat_write;
   W.LastError = nd_int();
   W.ErrCnt = W.ErrCntTotal = nd_range( 0, 1000 );
   static uint64_t curmem[( sizeof( TgdxSymbRecord ) + 7 ) / 8];
   auto *cur = (TgdxSymbRecord *) curmem;
   new( &g_sym->SCommentsList ) std::optional<TCommentsList>();
   new( &cur->SCommentsList ) std::optional<TCommentsList>();
   const bool had = nd_bool();
   if( had )
   {
      g_sym->SCommentsList.emplace();
      cur->SCommentsList.emplace();
   }
   static char s[301];
   text( s, 300 );
   int len = 0;
   bool on = true;
   for( int i = 0; i < 300; i++ ) { on = on & ( s[i] != 0 ); len += on; }
   W.CurSyPtr = nd_bool() ? cur : nullptr;
   auto *to = g_at <= 0 ? W.CurSyPtr : g_at <= g_n ? g_sym : nullptr;
   const int e = W.ErrCnt;
   const int r = W.gdxSymbolAddComment( g_at, s );
   ENSURES( !!r == ( to != nullptr ), "accepted exactly for a symbol that exists" );
   ENSURES( g_cadds == ( to ? 1 : 0 ) && W.ErrCnt == e + ( to ? 0 : 1 ), "one comment, or one error" );
   if( to )
   {
      ENSURES( g_clist == &*to->SCommentsList && g_ctext == s, "that text, at that symbol" );
      ENSURES( g_clen == (size_t) ( len < 255 ? len : 255 ), "cut at 255 characters" );
      ENSURES( to == g_sym ? cur->SCommentsList.has_value() == had : g_sym->SCommentsList.has_value() == had, "no other symbol is changed" );
   }
   *(void **) &W.NameList = nullptr;
   COVER( to == g_sym, "symbol" );
   COVER( to == cur, "current" );
   COVER( !to, "none" );
}
// the comments of a symbol, any number of them
extern "C" void c_getcomment()
{
   NATIVE_SKIP;
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   new( &g_sym->SCommentsList ) std::optional<TCommentsList>();
   const bool has = nd_bool(), in = g_at >= 1 && g_at <= g_n;
   if( has ) g_sym->SCommentsList.emplace();
   const int n = g_cn = nd_range( 0, INT32_MAX ), q = g_cat = nd_int();
   if( has ) g_sym->SCommentsList->FCount = n;
   text( g_name, 255 );
   static char t[256];
   const int r = W.gdxSymbolGetComment( g_at, q, t );
   const bool want = in && has && q >= 1 && q <= n;
   ENSURES( !!r == want, "exactly the comments that exist" );
   ENSURES( want ? same( t, g_name ) : !t[0], "the comment" );
   if( has ) g_sym->SCommentsList->FCount = 0;
   *(void **) &W.NameList = nullptr;
   COVER( want, "in" );
   COVER( !want, "out" );
}
