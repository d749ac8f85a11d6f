/* C12 : bounded string helpers (stringex.h).  Explicit enumeration of every
   operation sequence on a guarded buffer, against a std::string model. */
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include "stringex.h"
#include "watdefs.h"
#include "mpc_func.h"
int snprintf_append_trunc( char *string, const size_t max_len, const char *format, ...);

enum { CPY, CAT, CPY_E, CAT_E, PRINT_E, APPEND, APPEND_T, NOPS };
static const char *opname[NOPS] = { "strlcpy", "strlcat", "strlcpy_err", "strlcat_err", "snprintf_err", "snprintf_append", "snprintf_append_trunc" };
static char *page, *srcpage;           /* 4096 readable bytes, followed by an inaccessible page */

static long apply( int op, char *dst, const char *src, size_t dsize, int fmt)
{
   switch( op)
      {
      case CPY : return (long)strlcpy( dst, src, dsize);
      case CAT : return (long)strlcat( dst, src, dsize);
      case CPY_E : return (long)strlcpy_err( dst, src, dsize);
      case CAT_E : return (long)strlcat_err( dst, src, dsize);
      case PRINT_E : return fmt ? snprintf_err( dst, dsize, "%s", src) : snprintf_err( dst, dsize, "%.*s%c", (int)strlen( src) - 1, src, src[strlen( src) - 1]);
      case APPEND_T : return fmt ? snprintf_append_trunc( dst, dsize, "%s", src) : snprintf_append_trunc( dst, dsize, "%.*s%c", (int)strlen( src) - 1, src, src[strlen( src) - 1]);
      default : return fmt ? snprintf_append( dst, dsize, "%s", src) : snprintf_append( dst, dsize, "%.*s%c", (int)strlen( src) - 1, src, src[strlen( src) - 1]);
      }
}
struct Want { bool dies; std::string s; long rval; bool touched; };
static Want model( int op, const std::string &cur, const std::string &src, size_t d)
{
   Want w; w.dies = false; w.touched = true;
   const bool cat = op == CAT || op == CAT_E || op == APPEND || op == APPEND_T;
   std::string full = cat ? cur + src : src;
   w.rval = (long)full.size( );
   const bool fits = full.size( ) < d;
   w.s = full.substr( 0, d ? d - 1 : 0);
   if( !d) { w.touched = false; w.s = cur; if( op == CAT || op == CAT_E) w.rval = (long)src.size( ); }
   w.dies = !fits && op != CPY && op != CAT && op != APPEND_T;
   return w;
}
#define GUARD 24
/* dst is laid so that dst + dsize is the end of the accessible page: a byte too far faults */
static bool step( int op, char *dst, size_t d, std::string &cur, const std::string &src, int fmt)
{
   Want w = model( op, cur, src, d);
   char *s = srcpage + 4096 - src.size( ) - 1;
   memcpy( s, src.c_str( ), src.size( ) + 1);
   vh.transitions++;
   if( w.dies)
      {
      fflush( stdout); fflush( stderr);
      pid_t p = fork( );
      if( !p)
         {
         freopen( "/dev/null", "w", stderr);   /* the message is composed, though */
         vh.finished = true;
         signal( SIGABRT, SIG_DFL); signal( SIGSEGV, SIG_DFL);
         apply( op, dst, s, d, fmt);
         _exit( 42);
         }
      int st = 0; waitpid( p, &st, 0);
      const bool ended = ( WIFEXITED( st) && WEXITSTATUS( st) && WEXITSTATUS( st) != 42) || ( WIFSIGNALED( st) && WTERMSIG( st) == SIGABRT);
      if( !ended) vh_fail( "overflow-not-reported", "%s with %d bytes into a buffer of %d (holding %d) didn't stop the program properly (status %x)", opname[op], (int)src.size( ), (int)d, (int)cur.size( ), st);
      else vh.validated++;
      return false;
      }
   std::string before( dst - GUARD, GUARD);
   long r = apply( op, dst, s, d, fmt);
   if( r != w.rval) vh_fail( "return", "%s('%s' + '%s', %d) returned %ld, want %ld", opname[op], cur.c_str( ), src.c_str( ), (int)d, r, w.rval);
   if( std::string( dst - GUARD, GUARD) != before) vh_fail( "underrun", "%s wrote before the buffer", opname[op]);
   if( d && ( strnlen( dst, d) >= d || w.s != dst)) vh_fail( "content", "%s('%s' + '%s', %d) gave '%.*s', want '%s'", opname[op], cur.c_str( ), src.c_str( ), (int)d, (int)d, dst, w.s.c_str( ));
   else vh.validated++;
   cur = w.s;
   return true;
}
static int max_len;
static void explore( int depth, char *dst, size_t d, const std::string &cur)
{
   vh.states++;
   vh_outcome( vh_hash( cur));
   if( !depth) return;
   std::string save( dst, d);
   for( int op = 0; op < NOPS; op++)
      for( int n = 0; n <= max_len; n++)
         {
         if( !d && ( op == APPEND || op == APPEND_T)) continue;
         if( ( op == PRINT_E || op == APPEND || op == APPEND_T) && !n && depth % 2) continue;
         std::string src;
         for( int i = 0; i < n; i++) src += (char)( 'a' + ( depth * 7 + i + op) % 26);
         if( n == 3) src[1] = '%';
         if( n == 4) src[2] = (char)0xe9;
         /* overflow endings need a process each: explored from the first two steps only */
         std::string c = cur;
         if( model( op, cur, src, d).dies && depth < max_len / 4) continue;
         memcpy( dst, save.data( ), d);
         vh_at( opname[op], (long)d, n, depth); vh_s( 0, cur.c_str( ));
         if( step( op, dst, d, c, src, n == 0 || n % 2)) explore( depth - 1, dst, d, c);
         }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   page = (char *)mmap( nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   srcpage = (char *)mmap( nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   mprotect( page + 4096, 4096, PROT_NONE);
   mprotect( srcpage + 4096, 4096, PROT_NONE);
   memset( page, 0x5a, 4096);
   max_len = 8;
   uint64_t idx = 0;
   for( size_t d = 0; d <= 12; d++)
      for( int first = 0; first <= max_len; first++)
         {
         if( idx++ % vh.nshards != (uint64_t)vh.shard) continue;
         char *dst = page + 4096 - d;
         std::string cur, src;
         for( int i = 0; i < first; i++) src += (char)( 'A' + i);
         if( d) *dst = 0;
         vh_at( "first", (long)d, first);
         step( CPY, dst, d, cur, src, 0);
         explore( vh.thorough ? 4 : 3, dst, d, cur);
         }
   /* long strings around powers of two */
   for( size_t d : { 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 1023u, 1024u })
      for( size_t n1 = 0; n1 <= d + 2; n1++)
         {
         if( idx++ % vh.nshards != (uint64_t)vh.shard) continue;
         for( int op = 0; op < NOPS; op++)
            for( int k = -2; k <= 2; k++)
               {
               char *dst = page + 4096 - d;
               std::string cur( n1 < d ? n1 : d - 1, 'x');
               strcpy( dst, cur.c_str( ));
               const bool cat = op == CAT || op == CAT_E || op == APPEND || op == APPEND_T;
               long n = cat ? (long)d - (long)cur.size( ) + k : (long)d + k;
               if( n < 1) continue;
               if( model( op, cur, std::string( n, 'y'), d).dies && n1 % 16) continue;
               vh_at( "long", op, (long)d, (long)n1, n); vh.states++;
               step( op, dst, d, cur, std::string( n, 'y'), 1);
               }
         }
   /* strlcat on a buffer that holds no terminator at all leaves it as it is */
   if( !vh.shard)
      for( size_t d = 0; d < 40; d++) for( size_t n = 0; n < 20; n++)
         {
         char *dst = page + 4096 - d; memset( dst, 'q', d);
         char *s = srcpage + 4096 - n - 1; memset( s, 'z', n); s[n] = 0;
         vh_at( "unterminated", (long)d, (long)n); vh.states++;
         size_t r = strlcat( dst, s, d);
         bool ok = r == d + n; for( size_t i = 0; i < d; i++) ok &= dst[i] == 'q';
         if( !ok) vh_fail( "unterminated", "strlcat into %d unterminated bytes", (int)d); else vh.validated++;
         }
   /* replacing a phrase : every text, phrase and replacement over two letters, in a buffer with just enough room */
   {
   std::vector<std::string> words; words.push_back( "");
   const size_t tmax = vh.thorough ? 12 : 9;
   for( size_t i = 0; i < words.size( ) && words[i].size( ) < tmax; i++) for( char ch : { 'a', 'b' }) words.push_back( words[i] + ch);
   for( auto &t : words)
      {
      if( idx++ % vh.nshards != (uint64_t)vh.shard) continue;
      for( auto &o : words) { if( o.empty( )) continue; if( o.size( ) > 3) break;
         for( auto &n : words)
            {
            if( n.size( ) > 4) break;
            std::string want; long cnt = 0; size_t longest = t.size( );
            for( size_t i = 0; i < t.size( ); )
               if( !t.compare( i, o.size( ), o)) { want += n; i += o.size( ); cnt++; longest = std::max( longest, want.size( ) + t.size( ) - i); } else want += t[i++];
            char *dst = page + 4096 - longest - 1; memset( page + 4000, 0x5a, 96); strcpy( dst, t.c_str( ));
            vh_ats( "replace", t.c_str( ), o.c_str( )); vh_s( 2, n.c_str( )); vh.states++; vh.transitions++;
            const long got = text_search_and_replace( dst, o.c_str( ), n.c_str( ));
            if( got != cnt || want != dst || dst[-1] != 0x5a) vh_fail( "replace", "'%s' with '%s' replaced by '%s': %ld, '%s'; should be %ld, '%s'", t.c_str( ), o.c_str( ), n.c_str( ), got, dst, cnt, want.c_str( ));
            else vh.validated++;
            }
         }
      }
   }
   vh_sample( "all operation sequences of length %d on buffers of 0..12 bytes", vh.thorough ? 5 : 4);
   return vh_done( );
}
