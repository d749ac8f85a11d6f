/* C35: 'add_off', as a black box, against a made-up ephemeris server: every spacecraft observation gets the
   spacecraft's position then, and nothing else changes. */
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include "watdefs.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "jplstub/sched.h"
#include "hzstub/horizons.h"
typedef std::string S;
static const char *prog, *prog_asan;
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); e = e == S::npos ? t.size( ) : e + 1; r.push_back( t.substr( i, e - i)); i = e; } return r; }
struct Craft { const char *code; int id; };
static const Craft crafts[] = { { "C51", -163 }, { "C57", -95 }, { "C53", -139089 }, { "C52", -128485 }, { "C56", -141043 }, { "250", -48 }, { "274", -170 }, { "C49", -234 }, { "C50", -235 }, { "C54", -98 }, { "C55", -227 }, { "C59", -148840 }, { "245", -79 }, { "249", -21 }, { "258", -139479 }, { "273", -680 }, { "XXX", 0 }, { "C48", 0 } };

/* ---- what goes in, and what should come out ---- */
enum { PLAIN, POS, OBS };                 /* passed through; an old position; an observation */
struct Line { S text; int kind; int obs; };
struct Ob { const char *code; int id; S mjd; bool ades; double old[3]; bool has_old; };
static std::vector<Line> in; static std::vector<Ob> obs;
static S mjd_of( double jd_utc) { char b[40]; snprintf( b, sizeof b, "%.6f", jd_utc + td_minus_utc( jd_utc) / 86400. - 2400000.5); return b; }
static void put( const S &t, int kind = PLAIN, int o = -1) { in.push_back( Line{ t, kind, o }); }
static S date_text( long day, long us)      /* millionths of a day */
{ int d, m; long y; char b[40]; day_to_dmy( day, &d, &m, &y, 0); snprintf( b, sizeof b, "%04ld %02d %02d.%06ld", y, m, d, us); return b; }
static const double AU = 149597870.7;
static void old_record( const S &head, const char *code, const double *v, int n, S *txt, double *val)
{
   const bool au = n % 3 == 2; *txt = "";
   for( int i = 0; i < 3; i++)
      {
      char f[30]; const double x = au ? v[i] / 1e7 : v[i]; snprintf( f, sizeof f, au ? "%c%10.8f " : fabs( x) < 99999. ? "%c%10.4f " : "%c%10.3f ", x < 0. ? '-' : '+', fabs( x)); *txt += f;
      val[i] = (x < 0. ? -1. : 1.) * atof( f + 1) * (au ? AU : 1.);
      }
   *txt = (au ? S( "2 ") : S( "1 ")) + *txt; (void)code; (void)head;
}
static void add_80( const char *code, int id, long day, long us, bool with_old, int n)
{
   char b[120]; const S d = date_text( day, us), head = n % 4 == 1 ? "z9987K06UJ8Y  " : n % 4 == 2 ? "    CK10Y100 G" : "     K20K42H  ";
   Ob o; o.code = code; o.id = id; o.ades = false; o.has_old = with_old; o.mjd = mjd_of( (double)day - .5 + us / 1e6);
   snprintf( b, sizeof b, "%.14sS%s%02d %02d %02d.%02d +%02d %02d %02d.%d          %4.1f rV~5zHR%s\n", head.c_str( ), d.c_str( ), n % 24, n % 60, n % 59, n % 97, n % 90, n % 53, n % 57, n % 10, 18.3, code);
   put( b, OBS, (int)obs.size( ));
   if( with_old)
      {
      const double v[3] = { 1234.5678 + n * 1001.25, -98765.25 + n, 300000.125 - n * 77. }; S t; old_record( head, code, v, n, &t, o.old);
      S l = head.substr( 0, 14) + "s" + d + t; l.resize( 72, ' '); l += S( "~5zHR") + code;
      put( l + "\n", POS, (int)obs.size( ));
      }
   obs.push_back( o);
}
static void add_ades( const char *code, int id, long day, long ms, bool with_old, int n)
{
   char b[200]; int d, m; long y; day_to_dmy( day, &d, &m, &y, 0); const double jd = (double)day - .5 + ms / 86400000.; Ob o; o.code = code; o.id = id; o.ades = true; o.has_old = with_old; o.mjd = mjd_of( jd);
   put( "  <optical>\n"); snprintf( b, sizeof b, "    <trkSub>T%06d</trkSub>\n", n); put( b); put( "    <mode>CCD</mode>\n"); snprintf( b, sizeof b, "    <stn>%s</stn>\n", code); put( b);
   const int k = (int)obs.size( );
   if( with_old) { put( n % 2 ? "    <sys>ICRF_KM</sys>\n" : "    <sys>ICRF_AU</sys>\n", POS, k); put( "    <ctr>399</ctr>\n", POS, k); for( int i = 1; i <= 3; i++) { snprintf( b, sizeof b, "    <pos%d>%.4f</pos%d>\n", i, 1234.5 * i - n, i); put( b, POS, k); } if( n % 3 == 0) for( int i = 1; i <= 3; i++) { snprintf( b, sizeof b, "    <vel%d>%.4f</vel%d>\n", i, .5 * i - n, i); put( b, POS, k); } }
   snprintf( b, sizeof b, "    <obsTime>%04ld-%02d-%02dT%02ld:%02ld:%02ld.%03ldZ</obsTime>\n", y, m, d, ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000); put( b, OBS, k);
   snprintf( b, sizeof b, "    <ra>%.6f</ra>\n    <dec>%.6f</dec>\n    <astCat>Gaia2</astCat>\n", n * 1.5, n * .5); for( auto &l : split( b)) put( l); put( "  </optical>\n");
   obs.push_back( o);
}
static void add_ades_ground( const char *stn, bool rover, long day, long ms, int n)
{
   char b[200]; int d, m; long y; day_to_dmy( day, &d, &m, &y, 0); put( "  <optical>\n"); snprintf( b, sizeof b, "    <stn>%s</stn>\n", stn); put( b);
   if( rover) { put( "    <sys>WGS84</sys>\n"); put( "    <ctr>399</ctr>\n"); for( int i = 1; i <= 3; i++) { snprintf( b, sizeof b, "    <pos%d>%.4f</pos%d>\n", i, 12.5 * i + n, i); put( b); } }
   snprintf( b, sizeof b, "    <obsTime>%04ld-%02d-%02dT%02ld:%02ld:%02ld.%03ldZ</obsTime>\n", y, m, d, ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000); put( b); put( "    <ra>12.5</ra>\n"); put( "  </optical>\n");
}
static S all( void) { S t; for( auto &l : in) t += l.text; return t; }
/* does the server give this one a position? (everything of a spacecraft goes in one query, for small files) */
static bool served( const Ob &o)
{
   if( !o.id || hz_kind( o.id) == HZ_NO_SERVER) return false;
   if( hz_kind( o.id) == HZ_ALL_OR_NONE) { for( auto &q : obs) if( q.id == o.id && !hz_covers( q.id, atof( q.mjd.c_str( )))) return false; return true; }
   return hz_covers( o.id, atof( o.mjd.c_str( )));
}
/* one position record, by the rules in add_off.c and the MPC's : sign apart, decimal points where they belong */
static bool good_80( const S &l, const S &s, const double *st, S *why)
{
   /* l : what came out;  s : the observation */
   S h = s; h.resize( s.size( )); char b[200]; if( l.size( ) != s.size( )) { *why = "length"; return false; }
   if( l.substr( 0, 14) != s.substr( 0, 14) || l[14] != 's' || l.substr( 15, 17) != s.substr( 15, 17) || l.substr( 72) != s.substr( 72)) { *why = "columns"; return false; }
   bool au = false; for( int i = 0; i < 3; i++) if( fabs( st[i]) > 9999999.) au = true;
   if( l[32] != (au ? '2' : '1') || l[33] != ' ') { *why = "unit"; return false; }
   for( int i = 0; i < 3; i++)
      {
      const S f = l.substr( 34 + (size_t)i * 12, 12); double x = fabs( st[i]) / (au ? AU : 1.); if( f[0] != (st[i] > 0. ? '+' : '-') || f[11] != ' ') { *why = "sign"; return false; }
      const size_t dot = f.find( '.'); const char *e; char *end; const double got = strtod( f.c_str( ) + 1, &end); e = end; if( e != f.c_str( ) + 11 || dot == S::npos) { *why = "number"; return false; }
      const int dec = (int)( 10 - dot); const double unit = pow( 10., -dec); if( fabs( got - x) > .50001 * unit) { snprintf( b, sizeof b, "value %.9f, not %.9f", got, x); *why = b; return false; }
      /* where the point may be */
      if( au ? (dec != 8 && !(dec == 7 && x > 9.)) : (dec != 4 && !(dec == 3 && x > 99998.) && !(dec == 2 && x > 999998.))) { *why = "decimals"; return false; }
      }
   if( l.substr( 70, 2) != "  ") { *why = "columns 71-72"; return false; }
   return true;
}
static bool good_tag( const S &l, const char *tag, double x, S *why)
{
   char b[100], v[60], t[60]; if( sscanf( l.c_str( ), " <%59[^>]>%59[^<]</%59[^>]>", t, v, b) != 3 || strcmp( t, tag) || strcmp( b, tag) || strlen( v) > 13) { *why = S( "not a ") + tag; return false; }
   const char *dot = strchr( v, '.'); char *e; const double got = strtod( v, &e); if( *e || !dot) { *why = S( tag) + " number"; return false; }
   if( fabs( got - x) > 1.0001 * pow( 10., -(double)strlen( dot + 1)) || strlen( dot + 1) < (strlen( v) < 13 ? 10u : 1u)) { *why = S( tag) + " value"; return false; }
   return true;
}
static int run_prog( const char *args, bool asan = false)
{
   const S cmd = S( "ASAN_OPTIONS=detect_leaks=0:exitcode=177 timeout -s KILL 60 ") + (asan ? prog_asan : prog) + " " + args + " > stdout.txt 2>&1"; return system( cmd.c_str( ));
}
static S clean_left( void) { S r; DIR *d = opendir( "."); std::vector<S> v; while( dirent *e = readdir( d)) { S n = e->d_name; if( n.compare( 0, 7, "add_off") == 0) v.push_back( n); } closedir( d); for( auto &n : v) { r += n + " "; unlink( n.c_str( )); } return r; }
static void judge( const char *key, const char *what, const S &got, bool ades, bool deltas)
{
   const auto g = split( got); size_t k = 0; char b[200]; int n_set = 0, n_failed = 0; auto at = [&]( size_t i) { return i < g.size( ) ? g[i] : S( "*end*"); };
   if( !ades && at( k++).compare( 0, 12, "COM add_off ")) { vh_fail( key, "%s: begins '%s'", what, at( 0).c_str( )); return; }
   for( auto &o : obs) (served( o) ? n_set : n_failed)++;
   for( auto &l : in)
      {
      const bool sv = l.obs >= 0 && served( obs[(size_t)l.obs]);
      if( l.kind == POS && sv) continue;
      if( l.kind != OBS || !sv) { if( at( k++) != l.text) { vh_fail( key, "%s: line %zu is '%s', should be '%s'", what, k, at( k - 1).c_str( ), l.text.c_str( )); return; } continue; }
      const Ob &o = obs[(size_t)l.obs]; double st[6]; hz_state( o.id, o.mjd.c_str( ), st); S why;
      if( !o.ades)
         {
         snprintf( b, sizeof b, "COM vel (km/s) %.16s%+13.7f%+13.7f%+13.7f %.3s\n", l.text.c_str( ) + 15, st[3], st[4], st[5], o.code);
         if( at( k++) != b) { vh_fail( key, "%s: line %zu is '%s', should be '%s'", what, k, at( k - 1).c_str( ), b); return; }
         if( deltas && o.has_old)
            {
            double d[3]; if( sscanf( at( k++).c_str( ), "COM delta from orig offsets (km) %lf %lf %lf", d, d + 1, d + 2) != 3 || fabs( d[0] - st[0] + o.old[0]) > .002 || fabs( d[1] - st[1] + o.old[1]) > .002 || fabs( d[2] - st[2] + o.old[2]) > .002)
               { vh_fail( key, "%s: '%s', should be %.3f %.3f %.3f", what, at( k - 1).c_str( ), st[0] - o.old[0], st[1] - o.old[1], st[2] - o.old[2]); return; }
            }
         if( at( k++) != l.text) { vh_fail( key, "%s: line %zu is '%s', should be '%s'", what, k, at( k - 1).c_str( ), l.text.c_str( )); return; }
         if( !good_80( at( k++), l.text, st, &why)) { vh_fail( key, "%s: position %.4f %.4f %.4f written as '%s' (%s)", what, st[0], st[1], st[2], at( k - 1).c_str( ), why.c_str( )); return; }
         }
      else
         {
         bool au = false; for( int i = 0; i < 3; i++) if( fabs( st[i]) > 9999999.) au = true; const double u = au ? AU : 1., w = au ? AU / 86400. : 1.; static const char *const tags[6] = { "pos1", "pos2", "pos3", "vel1", "vel2", "vel3" };
         if( at( k++) != (au ? "    <sys>ICRF_AU</sys>\n" : "    <sys>ICRF_KM</sys>\n") || at( k++) != "    <ctr>399</ctr>\n") { vh_fail( key, "%s: line %zu is '%s'", what, k, at( k - 1).c_str( )); return; }
         for( int i = 0; i < 6; i++) if( !good_tag( at( k++), tags[i], st[i] / (i < 3 ? u : w), &why)) { vh_fail( key, "%s: '%s' for %.12f (%s)", what, at( k - 1).c_str( ), st[i] / (i < 3 ? u : w), why.c_str( )); return; }
         if( at( k++) != l.text) { vh_fail( key, "%s: line %zu is '%s', should be '%s'", what, k, at( k - 1).c_str( ), l.text.c_str( )); return; }
         }
      vh.validated++;
      }
   if( !ades) { int a = -1, c = -1; if( sscanf( at( k++).c_str( ), "COM %d positions set by add_off; %d failed in", &a, &c) != 2 || a != n_set || c != n_failed) { vh_fail( "count", "%s: '%s', but %d set and %d failed", what, at( k - 1).c_str( ), n_set, n_failed); return; } }
   if( k != g.size( )) vh_fail( key, "%s: then '%s'", what, at( k).c_str( ));
   else vh.validated++;
}
static void trial( const char *key, const char *what, bool ades, bool asan, bool deltas = false)
{
   spit( "in.txt", all( )); unlink( "out.txt"); vh_ats( key, what); vh.states++; vh.transitions += in.size( );
   const int rc = run_prog( deltas ? "in.txt out.txt -d" : "in.txt out.txt", asan); if( rc) { vh_fail( key, "%s: status %d, '%s'", what, rc, slurp( "stdout.txt").substr( 0, 300).c_str( )); return; }
   const S got = slurp( "out.txt"); judge( key, what, got, ades, deltas); vh_outcome( got.substr( got.find( '\n') + 1).c_str( ));
   const S left = clean_left( ); if( left.size( ) && strcmp( key, "again")) vh.counters["answers-left-behind"]++;
}
static void reset_in( void) { in.clear( ); obs.clear( ); }
static const long DAY = 2458000;
static void op_80( int op, int pos)
{
   const long day = DAY + pos, us = 123456 + 1717 * pos;
   switch( op)
      {
      case 0: put( "     K20K42H  C2020 12 25.69572814 45 21.50 +04 41 41.2          18.3 rV~5zHR703\n"); break;
      case 1: add_80( "C51", -163, day, us, true, pos); break;
      case 2: add_80( "C57", -95, day, us, false, pos + 2); break;
      case 3: add_80( "C53", -139089, day + 1000, us, true, pos); break;             /* beyond its ephemeris */
      case 4: add_80( "C53", -139089, day, us, true, pos + 1); break;
      case 5: add_80( "XXX", 0, day, us, pos % 2 == 0, pos); break;
      case 6: put( "COM a comment with S in column 15? no\n"); break;
      case 7: add_80( "C52", -128485, pos % 2 ? day : day + 1000, us, true, pos + 3); break;
      case 8: { const Ob *o = obs.empty( ) ? NULL : &obs.back( ); if( !o) put( "# first\n"); else { for( size_t i = in.size( ); i--; ) if( in[i].kind == OBS) { Line l = in[i]; l.obs = (int)obs.size( ); Ob c = *o; put( l.text, OBS, l.obs); obs.push_back( c); break; } } break; }
      case 9: add_80( "C56", -141043, day, us, true, pos); break;
      }
}
static void op_ades( int op, int pos)
{
   const long day = DAY + pos, ms = 12345678 + 17171 * pos;
   switch( op)
      {
      case 0: add_ades( "C51", -163, day, ms, true, pos); break;
      case 1: add_ades( "C57", -95, day, ms, false, pos); break;
      case 2: add_ades( "C53", -139089, day + 1000, ms, true, pos); break;
      case 3: add_ades_ground( "703", false, day, ms, pos); break;
      case 4: add_ades_ground( "703", false, day - 1, ms - 17171, pos); break;           /* when the one before was made */
      case 5: add_ades_ground( "247", true, day, ms, pos); break;
      case 6: add_ades_ground( "247", true, day - 1, ms - 17171, pos); break;
      }
}
/* ---- two at a time ---- */
static Sched *sch;
static void reset( void) { memset( (void *)sch, 0, sizeof( Sched)); sch->controlled = 1; sch->die_slot = -1; sem_init( &sch->to_ctl, 1, 0); for( auto &s : sch->s) sem_init( &s.go, 1, 0); }
static pid_t launch( int slot)
{
   fflush( NULL); sch->s[slot].state = READY; const pid_t p = fork( );
   if( !p)
      {
      struct itimerval z; memset( &z, 0, sizeof z); setitimer( ITIMER_VIRTUAL, &z, NULL); char i[20], o[20], s[20]; snprintf( i, 20, "in%d.txt", slot); snprintf( o, 20, "out%d.txt", slot); snprintf( s, 20, "%d", slot);
      const int fd = open( "/dev/null", O_WRONLY); dup2( fd, 1); dup2( fd, 2); setenv( "VH_SCHED", "sched.bin", 1); setenv( "VH_SLOT", s, 1); execl( prog, prog, i, o, (char *)NULL); _exit( 99);
      }
   return p;
}
static void two( int mode, int np)
{
   std::vector<Line> fi[3]; std::vector<Ob> fo[3];
   for( int s = 0; s < np; s++)
      {
      reset_in( ); 
      for( int k = 0; k < (np == 2 ? 2 : 1); k++) { const int w = mode == 0 ? k : mode == 1 ? (k + s) % 2 : 5 + k + 2 * s; add_80( crafts[w].code, crafts[w].id, DAY + 10 * k + (mode == 2 ? 0 : s), 500000 + 100 * k, k % 2 == 0, 3 * s + k); }
      fi[s] = in; fo[s] = obs; char n[20]; snprintf( n, 20, "in%d.txt", s); spit( n, all( ));
      }
   std::vector<int> choice; uint64_t count = 0;
   while( 1)
      {
      reset( ); for( int s = 0; s < np; s++) { char n[20]; snprintf( n, 20, "out%d.txt", s); unlink( n); } pid_t pid[3]; for( int s = 0; s < np; s++) pid[s] = launch( s);
      std::vector<int> en_n; S trace; bool good = true;
      /* what comes before the first query touches nothing shared */
      for( int i = 0; i < np && good; i++) { sch->s[i].state = RUNNING; sem_post( &sch->s[i].go); struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts); ts.tv_sec += 60; int rc; while( (rc = sem_timedwait( &sch->to_ctl, &ts)) && errno == EINTR) ; if( rc) good = false; }
      while( good)
         {
         int en[3], n = 0, alive = 0; for( int i = 0; i < np; i++) { if( sch->s[i].state == READY) en[n++] = i; if( sch->s[i].state != GONE) alive++; }
         if( !alive) break;
         if( !n) { good = false; break; }
         const size_t at = en_n.size( ); const int c = at < choice.size( ) ? choice[at] : 0, who = en[c < n ? c : 0]; en_n.push_back( n); trace += (char)( '0' + who);
         sch->s[who].state = RUNNING; sem_post( &sch->s[who].go); struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts); ts.tv_sec += 60; int rc; while( (rc = sem_timedwait( &sch->to_ctl, &ts)) && errno == EINTR) ; if( rc) { good = false; break; }
         }
      int st[3]; for( int s = 0; s < np; s++) { if( !good) kill( pid[s], SIGKILL); waitpid( pid[s], &st[s], 0); }
      vh_at( "together", mode, np); vh_s( 0, trace.c_str( )); vh.states++; vh.transitions += en_n.size( ); count++; vh_outcome( trace.c_str( ));
      for( int s = 0; s < np; s++)
         {
         char n[20], w[120]; snprintf( n, 20, "out%d.txt", s); snprintf( w, sizeof w, "%d at a time, steps %s, number %d", np, trace.c_str( ), s); in = fi[s]; obs = fo[s];
         if( !good || st[s]) vh_fail( "together", "%s: status %d", w, st[s]); else judge( "together", w, slurp( n), false, false);
         }
      clean_left( );
      while( choice.size( ) < en_n.size( )) choice.push_back( 0);
      while( !choice.empty( ) && choice.back( ) + 1 >= en_n[choice.size( ) - 1]) choice.pop_back( );
      if( choice.empty( )) break;
      choice.back( )++;
      }
   vh.counters["schedules"] += count;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   prog = getenv( "PROG_ADDOFF"); prog_asan = getenv( "PROG_ADDOFFASAN"); if( !prog || !prog_asan) { fprintf( stderr, "no program\n"); return 3; }
   spit( "sched.bin", S( sizeof( Sched), '\0')); { const int fd = open( "sched.bin", O_RDWR); sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close( fd); }
   uint64_t idx = 0; char w[100];
   /* (1) every sequence of kinds of record */
   for( int depth = 0; depth <= (vh.thorough ? 5 : 4); depth++)
      {
      long total = 1; for( int k = 0; k < depth; k++) total *= 10;
      for( long h = 0; h < total; h++)
         {
         if( !vh_mine( idx++)) continue;
         reset_in( ); long x = h; snprintf( w, sizeof w, "records "); for( int k = 0; k < depth; k++) { op_80( (int)( x % 10), k); snprintf( w + strlen( w), 5, "%ld", x % 10); x /= 10; }
         trial( "records", w, false, h % 20 == 7, h % 3 == 1);
         }
      }
   for( int depth = 0; depth <= (vh.thorough ? 5 : 4); depth++)
      {
      long total = 1; for( int k = 0; k < depth; k++) total *= 7;
      for( long h = 0; h < total; h++)
         {
         if( !vh_mine( idx++)) continue;
         reset_in( ); put( "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"); put( "<ades version=\"2022\">\n"); long x = h; snprintf( w, sizeof w, "ADES "); for( int k = 0; k < depth; k++) { op_ades( (int)( x % 7), k); snprintf( w + strlen( w), 5, "%ld", x % 7); x /= 7; } put( "</ades>\n");
         trial( "ades", w, true, h % 10 == 7);
         }
      }
   /* (2) every spacecraft, many sizes of offset */
   for( int c = 0; c < 18; c++) for( int block = 0; block < (vh.thorough ? 40 : 8); block++)
      {
      if( hz_kind( crafts[c].id) == HZ_ALL_OR_NONE && block > 2) continue;
      if( !vh_mine( idx++)) continue;
      reset_in( ); for( int k = 0; k < 60; k++) add_80( crafts[c].code, crafts[c].id, (hz_kind( crafts[c].id) ? DAY : 2448100 + block * 331) + k, (k * 16667 + 1) % 1000000, k % 2, k); snprintf( w, sizeof w, "spacecraft %s %d", crafts[c].code, block); trial( "spacecraft", w, false, block == 1, true);
      reset_in( ); put( "<ades version=\"2022\">\n"); for( int k = 0; k < 60; k++) add_ades( crafts[c].code, crafts[c].id, (hz_kind( crafts[c].id) ? DAY : 2448100 + block * 331) + k, (k * 1666711L + 1) % 86400000, crafts[c].id && k % 2, k); if( crafts[c].id) { snprintf( w, sizeof w, "ADES spacecraft %s %d", crafts[c].code, block); trial( "spacecraft", w, true, block == 1); }
      }
   /* (3) more observations than fit in one query */
   for( int n = 500; n < 1100; n += (vh.thorough ? 7 : 41)) for( int mix = 1; mix <= 3; mix++)
      {
      if( !vh_mine( idx++)) continue;
      reset_in( ); for( int k = 0; k < n; k++) add_80( crafts[k % mix ? 5 + k % mix : 0].code, crafts[k % mix ? 5 + k % mix : 0].id, DAY + k / 50, (k % 50) * 20000 + 7 * mix, false, k); snprintf( w, sizeof w, "%d observations by %d spacecraft", n, mix); trial( "many", w, false, n % 3 == 0);
      }
   /* (4) what comes out goes in again */
   for( int c = 0; c < 16; c++) if( vh_mine( idx++) && crafts[c].id)
      {
      reset_in( ); for( int k = 0; k < 10; k++) add_80( crafts[c].code, crafts[c].id, DAY + k, 345 + k, k % 2, k); if( !served( obs[0])) continue;
      spit( "in.txt", all( )); run_prog( "in.txt out.txt"); auto g = split( slurp( "out.txt")); S t; for( auto &l : g) if( l.compare( 0, 4, "COM ")) t += l; spit( "in.txt", t); run_prog( "in.txt out.txt"); vh.states++; vh.transitions += 2; S u; for( auto &l : split( slurp( "out.txt"))) if( l.compare( 0, 4, "COM ")) u += l;
      if( u != t) vh_fail( "again", "%s: a second run changes the positions", crafts[c].code); else vh.validated++;
      }
   /* (5) two or three at the same time */
   for( int mode = 0; mode < 3; mode++) { if( vh_mine( idx++)) two( mode, 2); if( vh_mine( idx++)) two( mode, 3); }
   vh_sample( "every sequence of records; every order of simultaneous runs");
   return vh_done( );
}
