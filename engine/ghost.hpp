// Contract of the byte stream below the GDX layer: what was written is read back, in order.
// (That the buffered / compressed file stream meets this contract is the subject of its own property.)
// The ghost keeps the log as (size, value) chunks so that the solver does not have to reason about byte positions; a
// reader that takes the bytes in differently sized chunks than the writer wrote them makes the run undecided, not failed.
#pragma once
#ifndef GHOST_CAP
#define GHOST_CAP 24
#endif
#ifdef VF_NATIVE
static std::string vf_noname { "/dev/null" };
#else
extern std::string vf_noname;
#endif
struct GhostStream : TMiBufferedStream
{
   uint64_t val[GHOST_CAP];
   uint8_t siz[GHOST_CAP];
   uint32_t wpos, rpos;
   GhostStream() : TMiBufferedStream( vf_noname, gdlib::gmsstrm::fmOpenRead )
   {
      wpos = rpos = 0;
      order_word = order_integer = order_double = 0;
      size_word = 2; size_integer = 4; size_double = 8;
      NormalOrder = true;
   }
   uint32_t Write( const void *B, uint32_t n ) override
   {
      vf_assert( wpos < GHOST_CAP, "UNDECIDED more chunks than the ghost log holds" );
      vf_assert( n == 1 || n == 2 || n == 4 || n == 8, "UNDECIDED chunk size" );
      uint64_t v = 0;
      if( n == 1 ) v = *(const uint8_t *) B;
      else if( n == 2 ) v = *(const uint16_t *) B;
      else if( n == 4 ) v = *(const uint32_t *) B;
      else if( n == 8 ) v = *(const uint64_t *) B;
      val[wpos] = v;
      siz[wpos] = (uint8_t) n;
      wpos++;
      return n;
   }
   void SetPosition( int64_t ) override {}
   uint32_t Read( void *B, uint32_t n ) override
   {
      vf_assert( rpos < wpos, "the reader reads past what the writer wrote" );
      vf_assert( n == siz[rpos], "UNDECIDED chunking" );
      const uint64_t v = val[rpos];
      if( n == 1 ) *(uint8_t *) B = (uint8_t) v;
      else if( n == 2 ) *(uint16_t *) B = (uint16_t) v;
      else if( n == 4 ) *(uint32_t *) B = (uint32_t) v;
      else if( n == 8 ) *(uint64_t *) B = v;
      rpos++;
      return n;
   }
};
