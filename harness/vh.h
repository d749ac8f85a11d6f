/* vh.h - tiny exhaustive-exploration support library used by every harness.

   A harness is a closed driver that enumerates a bounded space completely and
   compares the real code with a reference model on every state.  This file
   only does the bookkeeping: sharding, counting, crash / hang / premature-exit
   capture, and a machine readable report.                                   */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>

struct VhFail { std::string key, msg; };
struct Vh
{
   int shard = 0, nshards = 1;
   bool thorough = false;
   const char *out = nullptr;
   const char *only = nullptr;
   uint64_t states = 0, transitions = 0, validated = 0;
   std::unordered_set<uint64_t> outcomes;
   std::vector<VhFail> fails;
   std::map<std::string, int> per_key;
   std::vector<std::string> samples;
   std::map<std::string, uint64_t> counters;
   uint64_t n_fail = 0;
   bool finished = false;
   volatile uint64_t tick = 0;
   /* current case, for crash reports */
   const char *label = "startup";
   long ci[8]; double cd[8]; int nci = 0, ncd = 0;
   char cs[3][700];
};
static Vh vh;

static std::string vh_esc( const char *s)
{
   std::string r;
   for( ; *s; s++)
      {
      unsigned char c = (unsigned char)*s;
      char b[8];
      if( c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if( c < 32 || c > 126) { snprintf( b, sizeof( b), "\\u%04x", c); r += b; }
      else r += (char)c;
      }
   return r;
}

static std::string vh_case( )
{
   std::string r = vh.label;
   char b[80];
   for( int i = 0; i < vh.nci; i++) { snprintf( b, sizeof( b), " %ld", vh.ci[i]); r += b; }
   for( int i = 0; i < vh.ncd; i++) { snprintf( b, sizeof( b), " %.17g", vh.cd[i]); r += b; }
   for( int i = 0; i < 3; i++) if( vh.cs[i][0]) { r += " |"; r += vh.cs[i]; r += "|"; }
   return r;
}

/* The runner sends SIGTERM when the time allowed has run out : stop before the
   next case, and report what has been found up to then. */
static volatile sig_atomic_t vh_stop;
static void vh_stopped( void);
static inline void vh_at( const char *label)
{ if( __builtin_expect( vh_stop, 0)) vh_stopped( ); vh.label = label; vh.nci = vh.ncd = 0; vh.cs[0][0] = vh.cs[1][0] = vh.cs[2][0] = 0; vh.tick++; }
static inline void vh_i( long a) { if( vh.nci < 8) vh.ci[vh.nci++] = a; }
static inline void vh_d( double a) { if( vh.ncd < 8) vh.cd[vh.ncd++] = a; }
static inline void vh_s( int k, const char *s) { strncpy( vh.cs[k], s, sizeof( vh.cs[k]) - 1); vh.cs[k][sizeof( vh.cs[k]) - 1] = 0; }
static inline void vh_at( const char *l, long a) { vh_at( l); vh_i( a); }
static inline void vh_at( const char *l, long a, long b) { vh_at( l); vh_i( a); vh_i( b); }
static inline void vh_at( const char *l, long a, long b, long c) { vh_at( l); vh_i( a); vh_i( b); vh_i( c); }
static inline void vh_at( const char *l, long a, long b, long c, long d) { vh_at( l); vh_i( a); vh_i( b); vh_i( c); vh_i( d); }
static inline void vh_ats( const char *l, const char *s) { vh_at( l); vh_s( 0, s); }
static inline void vh_ats( const char *l, const char *s, const char *t) { vh_at( l); vh_s( 0, s); vh_s( 1, t); }

static inline uint64_t vh_hash( const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
   const unsigned char *c = (const unsigned char *)p;
   for( size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
   return h;
}
static inline uint64_t vh_hash( const std::string &s) { return vh_hash( s.data( ), s.size( )); }
static inline void vh_outcome( uint64_t h) { if( vh.outcomes.size( ) < 4000000) vh.outcomes.insert( h); }
static inline void vh_outcome( const char *s) { vh_outcome( vh_hash( s, strlen( s))); }

__attribute__(( format( printf, 1, 2))) static void vh_sample( const char *fmt, ...)
{
   if( vh.samples.size( ) >= 6) return;
   char b[600]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof( b), fmt, ap); va_end( ap);
   vh.samples.push_back( b);
}

static void vh_write( const char *abnormal)
{
   if( !vh.out) return;
   FILE *f = fopen( vh.out, "wb");
   if( !f) return;
   fprintf( f, "{\"states\": %llu, \"transitions\": %llu, \"validated\": %llu, \"outcomes\": %llu, \"n_fail\": %llu,\n",
      (unsigned long long)vh.states, (unsigned long long)vh.transitions, (unsigned long long)vh.validated,
      (unsigned long long)vh.outcomes.size( ), (unsigned long long)vh.n_fail);
   fprintf( f, "\"counters\": {");
   bool first = true;
   for( auto &c : vh.counters)
      { fprintf( f, "%s\"%s\": %llu", first ? "" : ", ", vh_esc( c.first.c_str( )).c_str( ), (unsigned long long)c.second); first = false; }
   fprintf( f, "},\n\"samples\": [");
   first = true;
   for( auto &s : vh.samples) { fprintf( f, "%s\"%s\"", first ? "" : ", ", vh_esc( s.c_str( )).c_str( )); first = false; }
   fprintf( f, "],\n\"fails\": [");
   first = true;
   for( auto &s : vh.fails)
      { fprintf( f, "%s{\"key\": \"%s\", \"msg\": \"%s\"}", first ? "" : ",\n", vh_esc( s.key.c_str( )).c_str( ), vh_esc( s.msg.c_str( )).c_str( )); first = false; }
   fprintf( f, "],\n\"abnormal\": ");
   if( abnormal)
      fprintf( f, "{\"what\": \"%s\", \"case\": \"%s\"}", vh_esc( abnormal).c_str( ), vh_esc( vh_case( ).c_str( )).c_str( ));
   else
      fprintf( f, "null");
   fprintf( f, ", \"finished\": %s}\n", vh.finished ? "true" : "false");
   fclose( f);
}

/* A violation.  'key' names the specific class of failing input (matched
   against the known-findings file), the message describes the case. */
__attribute__(( format( printf, 2, 3))) static void vh_fail( const char *key, const char *fmt, ...)
{
   vh.n_fail++;
   int &n = vh.per_key[key];
   if( ++n > 3 || vh.fails.size( ) > 60) return;
   char b[1500]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof( b), fmt, ap); va_end( ap);
   vh.fails.push_back( { key, std::string( b) + " [at " + vh_case( ) + "]" });
}

static void vh_stopped( void)
{
   vh_stop = 0;
   vh_write( NULL);              /* 'finished' is false : a partial report */
   _exit( 76);
}
static void vh_on_term( int) { vh_stop = 1; }
static void vh_death( const char *what)
{
   static volatile int once = 0;
   if( once || vh.finished) return;
   once = 1;
   vh_write( what);
}
extern "C" void __sanitizer_set_death_callback( void (*)( void)) __attribute__(( weak));
static void vh_death_cb( void) { vh_death( "sanitizer-report-or-crash"); }
static void vh_atexit( void) { if( !vh.finished) { vh_death( "premature exit() inside the library"); _exit( 77); } }
static void vh_sig( int s)
{
   char b[60]; snprintf( b, sizeof( b), "signal %d", s);
   signal( SIGALRM, SIG_DFL); alarm( 10);       /* never hang in the report itself */
   vh_death( b);
   _exit( 78);
}
static uint64_t vh_last_tick; static int vh_stalls;
static int vh_stall_limit = 3;          /* x 10 CPU-seconds without progress */
static void vh_alarm( int)
{
   if( vh.tick == vh_last_tick)
      { if( ++vh_stalls >= vh_stall_limit) { vh_death( "no progress (hang)"); _exit( 79); } }
   else vh_stalls = 0;
   vh_last_tick = vh.tick;
}

static inline bool vh_mine( uint64_t idx) { return (int)( idx % (uint64_t)vh.nshards) == vh.shard; }

static void vh_init( int argc, char **argv)
{
   { struct rlimit fs; fs.rlim_cur = fs.rlim_max = 400u << 20; setrlimit( RLIMIT_FSIZE, &fs); }      /* no program run by a harness may fill the disk */
   for( int i = 1; i < argc; i++)
      {
      if( !strcmp( argv[i], "--shard") && i + 1 < argc) sscanf( argv[++i], "%d/%d", &vh.shard, &vh.nshards);
      else if( !strcmp( argv[i], "--thorough")) vh.thorough = true;
      else if( !strcmp( argv[i], "--out") && i + 1 < argc) vh.out = argv[++i];
      else if( !strcmp( argv[i], "--only") && i + 1 < argc) vh.only = argv[++i];
      }
   vh_at( "startup");
   atexit( vh_atexit);
   if( __sanitizer_set_death_callback)
      __sanitizer_set_death_callback( vh_death_cb);
   else
      {
      static const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
      static char altstack[65536];
      stack_t ss; memset( &ss, 0, sizeof( ss)); ss.ss_sp = altstack; ss.ss_size = sizeof( altstack);
      sigaltstack( &ss, NULL);
      struct sigaction sa; memset( &sa, 0, sizeof( sa)); sa.sa_handler = vh_sig; sa.sa_flags = SA_ONSTACK;
      for( int s : sigs) sigaction( s, &sa, NULL);
      }
   signal( SIGVTALRM, vh_alarm);
   struct sigaction st; memset( &st, 0, sizeof( st)); st.sa_handler = vh_on_term; st.sa_flags = SA_RESTART;
   sigaction( SIGTERM, &st, NULL);
   struct itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
   setitimer( ITIMER_VIRTUAL, &it, NULL);
}
static int vh_done( )
{
   vh.finished = true;
   vh_write( NULL);
   fprintf( stderr, "shard %d/%d states %llu transitions %llu validated %llu outcomes %zu fails %llu\n", vh.shard, vh.nshards,
      (unsigned long long)vh.states, (unsigned long long)vh.transitions, (unsigned long long)vh.validated, vh.outcomes.size( ), (unsigned long long)vh.n_fail);
   fflush( stderr);
   return 0;
}
#endif
