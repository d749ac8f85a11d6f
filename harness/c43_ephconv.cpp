/* C43: spacecraft ephemerides and element sets converted and joined by mms, themis, jpl2b32 and them_cat. */
#include "vh.h"
#include <algorithm>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <vector>
#include <math.h>
#include "watdefs.h"
#include "date.h"
typedef std::string S; typedef long double ld;
static void spit( const S &fn, const S &t) { FILE *f = fopen( fn.c_str( ), "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static bool slurp( const S &fn, S &r) { r.clear( ); FILE *f = fopen( fn.c_str( ), "rb"); char b[4000]; size_t n; if( !f) return false; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return true; }
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); if( e == S::npos) e = t.size( ); r.push_back( t.substr( i, e - i)); i = e + 1; } return r; }
static S fmt( const char *f, ...) __attribute__(( format( printf, 1, 2)));
static S fmt( const char *f, ...) { char b[1000]; va_list a; va_start( a, f); vsnprintf( b, sizeof b, f, a); va_end( a); return b; }
static S out, err;
/* standard output and diagnostics apart; 'limit' is the largest file the program can write */
static int run( const char *env, const std::vector<S> &args, long limit = -1, int crash = -1, bool flush = false)
{
   const char *p = getenv( env); if( !p) { fprintf( stderr, "no %s\n", env); exit( 3); }
   const pid_t pid = fork( );
   if( !pid)
      {
      const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600), fe = open( "err.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( fe, 2); std::vector<char *> v; v.push_back( (char *)"tool"); for( const S &a : args) v.push_back( (char *)a.c_str( )); v.push_back( NULL);
      struct rlimit c = { 0, 0 }; setrlimit( RLIMIT_CORE, &c); if( limit >= 0) { signal( SIGXFSZ, SIG_IGN); struct rlimit l = { (rlim_t)limit, (rlim_t)limit }; setrlimit( RLIMIT_FSIZE, &l); }
      if( crash >= 0) setenv( "CRASH_AT", fmt( "%d", crash).c_str( ), 1); if( flush) setenv( "CRASH_FLUSH", "1", 1);
      alarm( 60); execv( p, v.data( )); _exit( 127);
      }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; slurp( "out.txt", out); slurp( "err.txt", err); return WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st);
}
/* civil date of a day number from 1970 Jan 1, and back, by counting */
static bool leap( int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static int mdays( int y, int m) { return m == 2 ? 28 + leap( y) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static void civil( long d, int &y, int &m, int &dd, int &yday) { for( y = 1970; d >= 365 + leap( y); y++) d -= 365 + leap( y); yday = (int)d + 1; for( m = 1; d >= mdays( y, m); m++) d -= mdays( y, m); dd = (int)d + 1; }
static const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
static S when( double jd) { char b[100]; full_ctime( b, jd, CALENDAR_JULIAN_GREGORIAN); return b; }
static const ld jd70 = 2440587.5L;
static bool near_( const S &s, ld v, ld tol) { return !s.empty( ) && fabsl( strtold( s.c_str( ), NULL) - v) <= tol; }
/* after the states: a blank line, the source, then the first and last time */
static bool tail( const std::vector<S> &o, size_t at, double jd0, ld last, ld step)
{
   if( o.size( ) < at + 4 || !o[at].empty( )) return false;
   const S a = "Ephemeris start: ", b = "Ephemeris end:   "; S s, e; for( size_t i = at; i < o.size( ); i++) { if( !o[i].compare( 0, a.size( ), a)) s = o[i].substr( a.size( )); if( !o[i].compare( 0, b.size( ), b)) e = o[i].substr( b.size( )); }
   bool ok = false; for( int k = -1; k < 2 && !ok; k++) ok = s == when( jd0 + k * .3 / 86400.); if( !ok) return false;
   const double je = get_time_from_string( 0., e.c_str( ), FULL_CTIME_YMD, NULL); return je > last - 2. / 86400. && je < last + step + 2. / 86400.;
}
/* day0: days from 1970 of the first state; each state 120 s after the last */
static void mms( long day0, int sec0, int n, int f, int num, int style, bool junk)
{
   vh_at( "mms", day0, n, f); S in, hdr = fmt( "Spacecraft = MMS%d\n", num); std::vector<S> st; std::vector<ld> t; in = "MMS Definitive Ephemeris\n"; if( style & 1) in += hdr;
   for( int i = 0; i < n; i++)
      {
      const long s = sec0 + 120L * i, d = day0 + s / 86400; int y, m, dd, yd; civil( d, y, m, dd, yd); const int r = (int)(s % 86400); const ld tai = d + 4383 + (ld)r / 86400.L;
      const S tt = fmt( "%04d-%03d/%02d:%02d:%02d", y, yd, r / 3600, r / 60 % 60, r % 60); const S v = fmt( "%23.9f%23.9f%23.9f%23.12f%23.12f%23.12f", 1000. + i * 7.125, -2000. - i, i * 3.5, .001 * i, -1. - i * .01, 2. + num); S l = tt + S( 23 - tt.size( ), ' ') + fmt( "%.10Lf", tai); l += S( 44 - l.size( ), ' ') + v; l = l.substr( 0, 184); l += S( 184 - l.size( ), ' ');
      st.push_back( l.substr( 44)); t.push_back( tai + 2436204.5L + 32.184L / 86400.L); if( junk && i % 5 == 2) in += "# comment between states, which is none although it is as long as one: 2015-072/00:00:00 and so on and so on and so on and so on and so on and so on and so on\n"; in += l + (style & 4 ? "   1.0   99\r\n" : "\n");
      }
   if( !(style & 1)) in += hdr;
   spit( "m.txt", in); std::vector<S> a = { "m.txt" }; const bool tofile = style & 2; unlink( "m.eph"); if( tofile) a.push_back( "m.eph"); if( f != 72 || (style & 1)) { if( style & 4) { a.push_back( "-f"); a.push_back( fmt( "%d", f)); } else a.push_back( fmt( "-f%d", f)); }
   const int rc = run( "PROG_MMS", a); S text = out; if( tofile) slurp( "m.eph", text); const std::vector<S> o = split( text); vh.states++; vh_outcome( vh_hash( text.data( ), text.size( ))); const int want = (n + f - 1) / f;
   if( rc || o.size( ) < (size_t)want + 4) { vh_fail( "mms", "exit %d with %zu lines for %d states, one in %d", rc, o.size( ), n, f); return; }
   double j = 0, step = 0; int cnt = -1, k = 0; sscanf( o[0].c_str( ), "%lf %lf %d%n", &j, &step, &cnt, &k);
   if( fabsl( j - t[0]) > 6e-7 || fabs( step - f / 720.) > 6e-7 || cnt > want || cnt < want - 1 || o[0].substr( k) != fmt( " 0,149597870.7,86400 (500) Geocentric: MMS%d = 2015-011%c", num, "ABCD"[num - 1])) vh_fail( "mms-header", "'%s' for %d states from %.6Lf, one in %d of MMS%d", o[0].c_str( ), n, t[0], f, num);
   for( int i = 0; i < want; i++)
      {
      const S &l = o[i + 1]; const size_t sp = l.find( ' '); if( sp == S::npos || !near_( l.substr( 0, sp), t[i * f], 6e-7) || l.substr( sp + 1) != st[i * f]) { vh_fail( "mms-state", "line %d is '%.60s', for %.6Lf '%.40s'", i, l.c_str( ), t[i * f], st[i * f].c_str( )); return; } vh.validated++;
      }
   if( !tail( o, want + 1, (double)t[0], t[(want - 1) * f], f / 720.L)) vh_fail( "mms-end", "after the states: '%s' '%s'", o[o.size( ) - 2].c_str( ), o.back( ).c_str( ));
}
static void themis( long day0, int min0, int n, int f, int which, int style)
{
   static const int ids[] = { 30580, 30581, 30582, 30797, 30798 }; vh_at( "themis", day0, n, f);
   auto stamp = [&]( long k) { const long q = min0 + k, d = day0 + q / 1440; int y, m, dd, yd; civil( d, y, m, dd, yd); return fmt( "%04d-%02d-%02dT%02ld:%02ld:00.000", y, m, dd, q % 1440 / 60, q % 60); };
   S in = "CCSDS_OEM_VERS       = 2.0\nORIGINATOR           = SSL\nMETA_START\nOBJECT_NAME          = THEMIS\n" + fmt( "OBJECT_ID            = %d\n", ids[which]) + "START_TIME           = " + stamp( 0) + "\nSTOP_TIME            = " + stamp( n - 1) + "\nMETA_STOP\n\n"; std::vector<S> st;
   for( int i = 0; i < n; i++) { st.push_back( fmt( "%16.6f %16.6f %16.6f %12.9f %12.9f %12.9f", 1000. + i, -5000. + i * 2., i * .5, 1. + i * .001, which * 1., -i * .01)); in += stamp( i) + " " + st.back( ) + "\n"; if( style & 4 && i % 7 == 3) in += "COMMENT none\n\n"; }
   spit( "t.txt", in); std::vector<S> a = { "t.txt" }; unlink( "t.eph"); if( style & 2) { if( style & 1) { a.push_back( "-o"); a.push_back( "t.eph"); } else a.push_back( "-ot.eph"); } if( f != 144 || (style & 1)) { if( style & 2) { a.push_back( "-f"); a.push_back( fmt( "%d", f)); } else a.push_back( fmt( "-f%d", f)); }
   const int rc = run( "PROG_THEMIS", a); S text = out; if( style & 2) slurp( "t.eph", text); const std::vector<S> o = split( text); vh.states++; vh_outcome( vh_hash( text.data( ), text.size( ))); const int want = (n + f - 1) / f; const ld t0 = jd70 + day0 + min0 / 1440.L;
   if( rc || o.size( ) < (size_t)want + 4) { vh_fail( "themis", "exit %d with %zu lines for %d states, one in %d: %s", rc, o.size( ), n, f, err.c_str( )); return; }
   double j = 0, step = 0; int cnt = -1, k = 0; sscanf( o[0].c_str( ), "%lf %lf %d%n", &j, &step, &cnt, &k);
   if( fabsl( j - t0) > 6e-7 || fabs( step - f / 1440.) > 6e-7 || cnt > want || cnt < want - 2 - 1440 / f || o[0].substr( k) != fmt( " -1,149597870.7,86400 (500) Geocentric: NORAD %d = 2007-004%c = THEMIS %c", ids[which], "ABCDE"[which], "ABCDE"[which])) vh_fail( "themis-header", "'%s' for %d states from %.6Lf, one in %d", o[0].c_str( ), n, t0, f);
   for( int i = 0; i < want; i++)
      {
      const S &l = o[i + 1]; const size_t sp = l.find( ' '); if( sp == S::npos || !near_( l.substr( 0, sp), t0 + i * f / 1440.L, 6e-7) || l.substr( l.find_first_not_of( ' ', sp)) != st[i * f].substr( st[i * f].find_first_not_of( ' '))) { vh_fail( "themis-state", "line %d is '%.60s', for %.6Lf '%.40s'", i, l.c_str( ), t0 + i * f / 1440.L, st[i * f].c_str( )); return; } vh.validated++;
      }
   if( !tail( o, want + 1, (double)t0, t0 + (n - 1) / 1440.L - 1e-6L, 1e-6L)) vh_fail( "themis-end", "after the states: '%s' '%s'", o[o.size( ) - 2].c_str( ), o.back( ).c_str( ));
}
static void b32( int id, long day0, int step, int n, int shape, int style)
{
   vh_at( "jpl2b32", id, n, shape); const S fn = fmt( "%d.txt", id), bn = fmt( "%d.b32", id); S in = " Horizons\n$$SOE\n"; std::vector<double> x; double mx = 0;
   for( int i = 0; i < n; i++)
      {
      int y, m, dd, yd; const long d = day0 + (long)i * step; civil( d, y, m, dd, yd); in += fmt( "%.9f = A.D. %04d-%.3s-%02d 00:00:00.0000 (CT)%s\n", (double)(jd70 + d), y, mon + 3 * (m - 1), dd, style & 1 ? " " : "");
      for( int c = 0; c < 3; c++) { const int sgn = (i * 3 + c) % 5 < 2 ? -1 : 1; double v = shape == 0 ? sgn * (.001 + .0001 * i + .00005 * c) : shape == 1 ? sgn * pow( 10., -(double)((i * 3 + c) % 11)) : shape == 2 ? (c == i % 3 ? sgn * 39.5 : 0.) : sgn * (c + 1) * 1e-6 * (i + 1); const S q = fmt( "%23.15E", v); v = atof( q.c_str( )); x.push_back( v); mx = std::max( mx, fabs( v)); in += q; }
      in += "\n"; if( style & 2) in += " 9.999999999999999E+09 9.999999999999999E+09 9.999999999999999E+09\n 1.0 2.0 3.0\n"; if( style & 4) { in += fmt( "%.9f = A.D. %04d-%.3s-%02d 12:00:00.0000 (CT)\n", (double)(jd70 + d) + .5, y, mon + 3 * (m - 1), dd); in += " 9.000000000000000E+09 9.000000000000000E+09 9.000000000000000E+09\n"; }
      }
   in += "$$EOE\n"; spit( fn, in); unlink( bn.c_str( )); const int rc = run( "PROG_JPL2B32", { fn }); S b; slurp( bn, b); vh.states++; vh_outcome( vh_hash( b.data( ), std::min( b.size( ), (size_t)128 + 12 * n)));
   if( rc || b.size( ) < 128 + 12u * n) { vh_fail( "b32", "exit %d, %zu bytes for %d states", rc, b.size( ), n); return; }
   int off = 0, i2 = 0, six = 0, bits = 0, zero = -1; long cnt = 0; double j = 0, s = 0, sc = 0; const S h( b.c_str( ), strnlen( b.data( ), 128));
   if( sscanf( h.c_str( ), "%d %d %lf %lf %ld %d %lf %d %d", &off, &i2, &j, &s, &cnt, &six, &sc, &bits, &zero) != 9 || off != 128 || i2 != id || j != (double)(jd70 + day0) || s != (n > 1 ? step : 0) || cnt != n || six != 6 || fabs( sc / (mx / 1.5e9) - 1.) > 1e-5 || bits != 32 || zero || h.size( ) > 127) { vh_fail( "b32-header", "'%s' for %d states of %d from %.1Lf, step %d, scale %g", h.c_str( ), n, id, jd70 + day0, step, mx / 1.5e9); return; }
   for( int i = 0; i < 3 * n; i++) { int32_t v; memcpy( &v, b.data( ) + 128 + 4 * i, 4); if( fabs( v - x[i] * 1.5e9 / mx) > 1.01) { vh_fail( "b32-value", "coordinate %d of state %d, %.15g, is stored as %d, so %.15g", i % 3, i / 3, x[i], v, v * mx / 1.5e9); return; } vh.validated++; }
   for( size_t i = 128 + 12 * n; i < b.size( ); i++) if( b[i] != '\n' && (b[i] < ' ' || b[i] > '~')) { vh_fail( "b32-trailer", "byte %zu is %d", i, b[i]); break; }
   unlink( fn.c_str( )); unlink( bn.c_str( ));
}
/* element sets for each day from 'a' up to but not including 'b' */
static S sets( char who, int a, int b, std::vector<S> &each) { each.clear( ); S r; for( int d = a; d < b; d++) { S e = fmt( "\n# MJD %.6f (%s)\nTHEMIS %c\n1 30580U 07004A   %05d.00000000  .00000000  00000-0  00000-0 0    0%c\n2 30580   1.0000   2.0000 1234567   3.0000   4.0000  1.00000000    0%c\n", (double)d, who == 'o' ? "old" : "new", who, d, who, who); each.push_back( e); r += e; } return r; }
static S head( const char *who, int a, int b, bool upd) { return (upd ? S( "# Last updated with eph2tle, compiled Jan 01 2019\n") : S( "# no date\n")) + fmt( "# Ephem range: %.6f %.6f %.6f\n# %s residuals\n# Ephemeris start: %s %d\n# Ephemeris end: %s %d\n# 1 30580U 07004A\n", (double)a, (double)b, 1., who, who, a, who, b); }
static void join( int a0, int b0, int a1, int b1, int style)
{
   vh_at( "them_cat", a0, b0, a1); std::vector<S> eo, en; const bool upd = style & 1; const S old = head( "old", a0, b0, upd) + sets( 'o', a0, b0, eo), nw = head( "new", a1, b1, upd) + sets( 'n', a1, b1, en); S got; const bool adjoin = a1 - 1 >= a0 && a1 - 1 < b0;
   auto one = [&]( long limit, int crash = -1, bool flush = false)
      {
      spit( "old.tle", old); spit( "new.tle", nw); unlink( "ickywax.ugh"); const int rc = run( "PROG_THEM_CAT", { "old.tle", "new.tle" }, limit, crash, flush); const bool have = slurp( "old.tle", got); S n2; slurp( "new.tle", n2); vh.states++; vh_outcome( vh_hash( got.data( ), got.size( )));
      if( n2 != nw) vh_fail( "join-new", "the new file is changed"); if( !have) vh_fail( "join-lost", "there is no file left (exit %d)", rc); return rc;
      };
   int rc = one( -1);
   if( !adjoin) { if( !rc || got != old) vh_fail( "join-refused", "%d-%d and %d-%d do not adjoin, but exit %d and a file of %zu bytes", a0, b0, a1, b1, rc, got.size( )); else vh.validated++; return; }
   S body; for( int d = a0; d < a1; d++) body += eo[d - a0]; for( const S &e : en) body += e; const size_t p = got.find( "\n\n# MJD"); const S hd = p == S::npos ? got : got.substr( 0, p + 1), bd = p == S::npos ? "" : got.substr( p + 1);
   /* the header of the new file after its last time follows the old sets */
   S want = body; { S mid; const S nh = head( "new", a1, b1, upd); mid = nh.substr( nh.find( "# 1 30580U")); size_t pos = 0; for( int d = a0; d < a1; d++) pos += eo[d - a0].size( ); want.insert( pos, mid); }
   if( rc || bd != want) { vh_fail( "join", "exit %d: %d-%d and %d-%d make %zu bytes of element sets, not %zu", rc, a0, b0, a1, b1, bd.size( ), want.size( )); return; } vh.validated++;
   const std::vector<S> h = split( hd), h0 = split( head( "old", a0, b0, upd)); double r0, r1; if( h.size( ) != h0.size( )) { vh_fail( "join-head", "'%s'", hd.c_str( )); return; }
   for( size_t i = 0; i < h.size( ); i++)
      {
      bool ok = h[i] == h0[i]; if( !h0[i].compare( 0, 15, "# Ephem range: ")) ok = sscanf( h[i].c_str( ) + 15, "%lf %lf", &r0, &r1) == 2 && !h[i].compare( 0, 15, "# Ephem range: ") && r0 == a0 && r1 == b1; else if( !h0[i].compare( 0, 15, "# Ephemeris end")) ok = h[i] == fmt( "# Ephemeris end: new %d", b1); else if( !h0[i].compare( 0, 14, "# Last updated")) ok = !h[i].compare( 0, 42, h0[i], 0, 42);
      if( !ok) vh_fail( "join-head", "'%s' becomes '%s'", h0[i].c_str( ), h[i].c_str( )); else vh.validated++;
      }
   if( (style & 2) || (a0 + 2 >= b0)) for( int fl = 0; fl < 2; fl++)
      {
      const S full = got; int cp = 0;
      for( ; cp < 100000; cp++)
         {
         vh_at( "killed", a0, cp, fl); rc = one( -1, cp, fl); if( rc == 0) break;
         /* an hour in the text may have changed with the clock, so the whole new file is known by its body */
         const size_t q = got.find( "\n\n# MJD"); const bool is_new = q != S::npos && got.substr( q + 1) == want && got.size( ) == full.size( );
         if( rc != 1000 + SIGKILL) vh_fail( "join-killed", "killed at point %d: %d", cp, rc); else if( got != old && !is_new) { vh_fail( "join-killed", "killed at point %d of the join, the file has %zu bytes, neither the old %zu nor the new %zu", cp, got.size( ), old.size( ), full.size( )); break; } else vh.validated++;
         }
      if( cp < 5) vh_fail( "join-points", "only %d points where it may be killed", cp);
      got = full;
      }
   if( style & 2) { const S full = got; for( long lim = 0; lim < (long)full.size( ); lim += (style & 4 ? 1 : 97)) { vh_at( "full disk", a0, lim, full.size( )); rc = one( lim); if( got != old) { vh_fail( "join-full-disk", "no room after %ld of %zu bytes: exit %d, and a file of %zu bytes takes the old one's place", lim, full.size( ), rc, got.size( )); break; } else if( !rc) vh_fail( "join-unreported", "exit 0 with no room after %ld bytes", lim); else vh.validated++; } }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); const bool t = vh.thorough; uint64_t k = 0;
   std::vector<int> fr, ft; for( int f = 1; f <= 1440; f++) { if( 720 % f == 0) fr.push_back( f); if( 1440 % f == 0) ft.push_back( f); }
   const long days[] = { 16508, 16860, 17166, 18321, 22279 };      /* 2015 Mar 14, 2016 Feb 29, 2016 Dec 31, 2020 Feb 29, 2030 Dec 31 */
   for( long d : days) for( int f : fr) { std::vector<int> ns = { 1, 2, f - 1, f, f + 1, 2 * f - 1, 2 * f, 2 * f + 1 }; if( t) for( int i = 3; i < 1500; i += 61) ns.push_back( i); std::sort( ns.begin( ), ns.end( )); ns.erase( std::unique( ns.begin( ), ns.end( )), ns.end( )); for( int n : ns) if( n > 0) for( int s = 0; s < 8; s++) if( vh_mine( k++)) mms( d, (int)((k * 7) % 3) * 43200 - (k % 3 == 1 ? 0 : 0), n, f, 1 + (int)(k / 8 + s) % 4, s, (k / 3) % 2); }
   const long days2[] = { 17936, 16858, 14244, 22279 }; for( long d : days2) for( int f : ft) { std::vector<int> ns = { 2, f - 1, f, f + 1, 2 * f + 1, 1441 }; if( t) for( int i = 3; i < 3000; i += 131) ns.push_back( i); std::sort( ns.begin( ), ns.end( )); ns.erase( std::unique( ns.begin( ), ns.end( )), ns.end( )); for( int n : ns) if( n > 0) for( int s = 0; s < 8; s++) if( vh_mine( k++)) themis( d, (int)(k * 131 % 1440), n, f, (int)(k / 8 + s) % 5, s); }
   for( int id : { 1, 10, 599, 904, 9002, 9999 }) for( int step : { 1, 2, 10, 365 }) for( int n : { 1, 2, 3, 10, 31, 400 }) for( int sh = 0; sh < 4; sh++) for( int s = 0; s < 8; s++) if( t || n != 400 || s == 7) if( vh_mine( k++)) b32( id, 14271 - 5 * (long)(k % 400), step, n, sh, s);
   const int B = 58500; for( int len = 1; len <= (t ? 12 : 7); len++) for( int from = -2; from <= len + 2; from++) for( int l2 = 1; l2 <= (t ? 12 : 5); l2++) for( int s = 0; s < 2; s++) if( vh_mine( k++)) join( B, B + len, B + from, B + from + l2, s | (l2 == 2 ? 2 : 0) | (t && len == 3 ? 4 : 0));
   if( !vh.shard)
      {
      spit( "m.txt", "x\n"); for( const char *p : { "PROG_MMS", "PROG_THEMIS" }) for( const char *a : { "-f0", "-f7", "-f1441", "-fx", "-q", "-f-7" }) { vh_ats( "refused", a); unlink( "o.eph"); const int rc = run( p, { "m.txt", a }); vh.states++; if( !rc || rc >= 1000 || !out.empty( )) vh_fail( "refused", "%s %s: exit %d, '%.100s'", p, a, rc, out.c_str( )); else vh.validated++; }
      for( const char *p : { "PROG_MMS", "PROG_THEMIS", "PROG_JPL2B32" }) { const int rc = run( p, { "nosuchfile" }); vh.states++; if( !rc || rc >= 1000) vh_fail( "missing", "%s: exit %d for a missing file", p, rc); else vh.validated++; const int r2 = run( p, { } ); if( !r2 || r2 >= 1000) vh_fail( "missing", "%s: exit %d without a file", p, r2); }
      mkdir( "dir", 0700); int rc = run( "PROG_MMS", { "m.txt", "dir" }); if( !rc || rc >= 1000) vh_fail( "unwritable", "mms: exit %d when its output cannot be opened", rc); else vh.validated++; rc = run( "PROG_THEMIS", { "m.txt", "-odir" }); if( !rc || rc >= 1000) vh_fail( "unwritable", "themis: exit %d when its output cannot be opened", rc); else vh.validated++;
      }
   return vh_done( );
}
