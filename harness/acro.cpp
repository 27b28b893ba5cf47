// Contracts of the acronym mapping applied to every value read (TGXFileObj::AcronymRemap) and of the value <-> number conversion.
// The list of acronyms (of any length) is represented by its contract: FindEntry delivers the position of the entry with that
// number or -1, AddEntry the position of a new entry with that number, operator[] the entry at a valid position.
// VF-REPLACE gdlib::gmsstrm::TMiBufferedStream::TMiBufferedStream => stub_ctor
// VF-REPLACE gdx::TGXFileObj::WriteTrace => stub_Trace
// VF-REPLACE gdx::TAcronymList::FindEntry => stub_Find
// VF-REPLACE gdx::TAcronymList::AddEntry => stub_Add
// VF-REPLACE gdx::TAcronymList::operator[] => stub_At
#include "common.hpp"
#include "ghost.hpp"
#include "ghoststubs.hpp"
#include "gclgms.h"
extern "C" void stub_Trace( const TGXFileObj *, std::string_view ) {}
static int g_pos, g_asked, g_nfind, g_nadd, g_new;
static NoDtor<TAcronym> g_entry;
extern "C" int stub_Find( TAcronymList *, int Map )
{
   g_asked = Map;
   g_nfind++;
   return g_pos;
}
extern "C" int stub_Add( TAcronymList *, const char *, const char *, int Map )
{
   g_nadd++;
   g_entry.v.AcrMap = Map;
   g_entry.v.AcrReadMap = -1;
   g_entry.v.AcrAutoGen = false;
   g_pos = g_new;
   return g_pos;
}
extern "C" TAcronym *stub_At( TAcronymList *, int Index )
{
   ENSURES( Index >= 0 && Index == g_pos, "only the entry with that number is touched" );
   return &g_entry.v;
}
static void setup( TGXFileObj &W )
{
   W.Zvalacr = GMS_SV_ACR;
   W.NextAutoAcronym = nd_range( 0, INT32_MAX - 1 );
   W.MapAcrToNaN = nd_bool();
   for( auto &x: W.intlValueMapDbl ) x = nd_double();
}
// a value that is not an acronym passes; with the wish for it an acronym becomes the reader's not-available value
extern "C" void c_pass()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   static uint64_t mem[( sizeof( TAcronymList ) + 7 ) / 8];
   *(void **) &W.AcronymList = mem;
   const double v = nd_double();
   const bool acr = v >= GMS_SV_ACR && !std::isinf( v );
   REQUIRES( !acr || W.MapAcrToNaN );
   REQUIRES( !std::isnan( v ) );
   const int next = W.NextAutoAcronym;
   const double r = W.AcronymRemap( v );
   if( acr )
      ENSURES( vf_bits( r ) == vf_bits( W.intlValueMapDbl[TgdxIntlValTyp::vm_valna] ), "acronyms become not available on request" );
   else if( !std::isinf( v ) )
      ENSURES( vf_bits( r ) == vf_bits( v ), "other values pass" );
   ENSURES( W.NextAutoAcronym == next && g_nadd == 0, "nothing is registered" );
   COVER( acr, "acronym" );
   COVER( v == 1.0, "other" );
   *(void **) &W.AcronymList = nullptr;
}
// the number an acronym value is read as; parameter 0: 1 the number is in the list, 0 it is not, 2 in the list and mapped
extern "C" void c_remap()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   W.MapAcrToNaN = false;
   W.NextAutoAcronym = nd_range( 0, vf_param( 2 ) - 1 );
#ifdef VF_NATIVE
   auto *list = new TAcronymList;
   *(void **) &W.AcronymList = list;
#else
   static uint64_t mem[( sizeof( TAcronymList ) + 7 ) / 8];
   *(void **) &W.AcronymList = mem;
#endif
   const int known = vf_param( 0 );
   const int org = nd_range( 1, vf_param( 1 ) );// (all numbers: c_number)
   // the unit is a field: parameter 3 = 1 takes a power of two for it, with which all numbers are within reach of the solver
   if( vf_param( 3 ) ) W.Zvalacr = 0x1p990;
   const double v = W.Zvalacr * org;
   const int readmap = known == 2 ? nd_range( 1, vf_param( 2 ) ) : nd_range( -1, 0 );
   const bool autog = nd_bool();
   g_new = nd_range( 0, INT32_MAX );
   g_pos = known ? nd_range( 0, INT32_MAX ) : -1;
   g_nfind = g_nadd = 0;
   TAcronym &e = g_entry.v;
   e.AcrMap = known ? org : 0;
   e.AcrReadMap = readmap;
   e.AcrAutoGen = autog;
#ifdef VF_NATIVE
   if( known )
   {
      const int p = list->AddEntry( "", "", org );
      ( *list )[p].AcrReadMap = readmap;
      ( *list )[p].AcrAutoGen = autog;
   }
#endif
   const int next = W.NextAutoAcronym;
   const double r = W.AcronymRemap( v );
   const bool fresh = known != 2 && next > 0;
   const int want = known == 2 ? readmap : fresh ? next : org;
   ENSURES( vf_bits( r ) == vf_bits( W.gdxAcronymValue( want ) ), "the mapped number, else the next free number, else the number itself" );
   ENSURES( W.NextAutoAcronym == next + fresh, "a number is given once" );
#ifdef VF_NATIVE
   const int at = list->FindEntry( org );
   ENSURES( ( at >= 0 ) == ( known || fresh ), "registered" );
   const TAcronym &f = at >= 0 ? ( *list )[at] : e;
#else
   ENSURES( g_nfind == 1 && g_asked == org, "looked up by its number" );
   ENSURES( g_nadd == ( !known && fresh ), "registered once" );
   const TAcronym &f = e;
#endif
   if( fresh )
   {
      ENSURES( f.AcrMap == org && f.AcrReadMap == next && f.AcrAutoGen, "the new number is remembered" );
   }
   else if( known )
      ENSURES( f.AcrMap == org && f.AcrReadMap == readmap && f.AcrAutoGen == autog, "an existing mapping stays" );
   COVER( fresh || known == 2, "end" );
   *(void **) &W.AcronymList = nullptr;
}
// number -> value -> number; parameter 0: the numbers are param0 * 2^20 + 1 ... (all of that block)
extern "C" void c_number()
{
   VF_OBJ( TGXFileObj, W, vf_noname );
   setup( W );
   const int n = nd_range( vf_param( 0 ), vf_param( 1 ) );
   const double v = W.gdxAcronymValue( n );
   ENSURES( n <= 0 ? v == 0.0 : v >= GMS_SV_ACR, "an acronym value is recognisable" );
   ENSURES( W.gdxAcronymIndex( v ) == ( n <= 0 ? 0 : n ), "the value carries the number" );
   COVER( true, "end" );
}
