/* C36: 'astephem', as a black box, on made-up 'astorb.dat' files: the object asked for, and where it is. */
#include "vh.h"
#include <sys/wait.h>
#include <fcntl.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
typedef std::string S;
int get_earth_loc( const double t_millennia, double *results);
static const char *prog, *prog_asan;
static const double PI_ = 3.14159265358979323846, K = .01720209895, CDAY = 173.144632674240;
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static int run( const char *p, const std::vector<S> &args)
{
   const pid_t pid = fork( );
   if( !pid)
      {
      const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600), nul = open( "err.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( nul, 2);
      std::vector<char *> a; a.push_back( (char *)"astephem"); for( auto &x : args) a.push_back( (char *)x.c_str( )); a.push_back( NULL); alarm( 20); execv( p, a.data( )); _exit( 127);
      }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; return WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st);
}
struct Orb { S name; int number; double H, G, M, om, node, inc, e, a; long epoch; };
static double rnd( uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double)( s >> 11) / 9007199254740992.; }
static double trunc_to( double x, double f) { return floor( x * f + .5) / f; }
static Orb make( int i)
{
   uint64_t s = 0x9e3779b97f4a7c15ULL * (uint64_t)( i + 1); for( int k = 0; k < 10; k++) rnd( s); Orb o; o.number = 0;
   o.H = trunc_to( 3. + 24. * rnd( s), 100.); static const double g[] = { .15, .15, -.12, .4, .25 }; o.G = g[i % 5];
   o.M = trunc_to( 360. * rnd( s), 1e6); o.om = trunc_to( 360. * rnd( s), 1e6); o.node = trunc_to( 360. * rnd( s), 1e6);
   o.inc = trunc_to( (i % 7 == 3 ? 165. : i % 7 == 5 ? 80. : i % 4 == 1 ? .4 : 25.) * rnd( s), 1e6); o.e = trunc_to( (i % 6 == 2 ? .95 : .35) * rnd( s), 1e8);
   o.a = trunc_to( i % 6 == 2 ? 1.2 + 2. * rnd( s) : i % 9 == 4 ? 30. + 30. * rnd( s) : 2. + 2. * rnd( s), 1e8); static const long ep[] = { 20260605L, 20261121L, 19991101L, 20000229L, 20210701L }; o.epoch = ep[i % 5];
   if( o.M >= 360.) o.M = 0.; return o;
}
static S record( const Orb &o)
{
   char b[400], num[10] = ""; memset( b, ' ', sizeof b); if( o.number) snprintf( num, sizeof num, "%6d", o.number);
   struct { int at; char t[30]; } f[12]; int n = 0;
   auto put = [&]( int at, const char *fmt, double v) { f[n].at = at; snprintf( f[n++].t, 30, fmt, v); };
   auto puts_ = [&]( int at, const char *t) { f[n].at = at; snprintf( f[n++].t, 30, "%s", t); };
   puts_( 0, num); puts_( 7, o.name.c_str( )); puts_( 26, "E. Bowell"); put( 42, "%5.2f", o.H); put( 48, "%5.2f", o.G); char e[20]; snprintf( e, sizeof e, "%8ld", o.epoch); puts_( 106, e);
   put( 115, "%10.6f", o.M); put( 126, "%10.6f", o.om); put( 137, "%10.6f", o.node); put( 147, "%10.6f", o.inc); put( 158, "%10.8f", o.e); put( 168, "%13.8f", o.a);
   for( int i = 0; i < n; i++) memcpy( b + f[i].at, f[i].t, strlen( f[i].t));
   b[267] = '\n'; return S( b, 268);
}
static void state( const Orb &o, double jd, double *p)                     /* J2000 ecliptic */
{
   int y = (int)( o.epoch / 10000), m = (int)( o.epoch / 100 % 100), d = (int)( o.epoch % 100); const double ep = (double)dmy_to_day( d, m, y, CALENDAR_GREGORIAN) - .5;
   const double n = K / (o.a * sqrt( o.a)); double M = fmod( o.M * PI_ / 180. + n * (jd - ep), 2. * PI_); if( M > PI_) M -= 2. * PI_; if( M < -PI_) M += 2. * PI_;
   double lo = -PI_ - 1., hi = PI_ + 1.; for( int i = 0; i < 80; i++) { const double E = .5 * (lo + hi); if( E - o.e * sin( E) < M) lo = E; else hi = E; }
   const double E = .5 * (lo + hi), x = o.a * (cos( E) - o.e), y1 = o.a * sqrt( 1. - o.e * o.e) * sin( E), w = o.om * PI_ / 180., N = o.node * PI_ / 180., I = o.inc * PI_ / 180.;
   const double u = x * cos( w) - y1 * sin( w), v = x * sin( w) + y1 * cos( w);
   p[0] = u * cos( N) - v * cos( I) * sin( N); p[1] = u * sin( N) + v * cos( I) * cos( N); p[2] = v * sin( I);
}
struct Eph { double ra, dec, dist, r, mag, elong; };
static Eph ephemeris( const Orb &o, double jd)
{
   double e[6], p[3], d = 0.; Eph r; get_earth_loc( (jd - 2451545.) / 365250., e);
   for( int it = 0; it < 8; it++) { state( o, jd - d / CDAY, p); d = 0.; for( int j = 0; j < 3; j++) d += (p[j] - e[j]) * (p[j] - e[j]); d = sqrt( d); }
   r.dist = d; r.r = sqrt( p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); const double R = sqrt( e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
   double q[3]; for( int j = 0; j < 3; j++) q[j] = p[j] - e[j];
   const double ob = 84381.448 / 3600. * PI_ / 180., x = q[0], y = q[1] * cos( ob) - q[2] * sin( ob), z = q[1] * sin( ob) + q[2] * cos( ob);
   r.ra = atan2( y, x) * 180. / PI_; if( r.ra < 0.) r.ra += 360.; r.dec = asin( z / d) * 180. / PI_;
   double a = (d * d + R * R - r.r * r.r) / (2. * d * R); a = std::max( -1., std::min( 1., a)); r.elong = acos( a) * 180. / PI_;
   a = (d * d + r.r * r.r - R * R) / (2. * d * r.r); a = std::max( -1., std::min( 1., a)); const double ph = acos( a), t = tan( ph / 2.);
   r.mag = o.H + 5. * log10( d * r.r) - 2.5 * log10( (1. - o.G) * exp( -3.33 * pow( t, .63)) + o.G * exp( -1.87 * pow( t, 1.22)));
   return r;
}
static bool compare( const Orb &o, double t0, double dt, int n, const S &what)
{
   const S out = slurp( "out.txt"); size_t at = 0; int line = 0, heads = 0;
   while( at < out.size( ))
      {
      size_t e = out.find( '\n', at); if( e == S::npos) e = out.size( ); const S l = out.substr( at, e - at); at = e + 1;
      if( l.find( "RA") != S::npos && l.find( "dec") != S::npos) { heads++; continue; }
      if( line >= n) { vh_fail( "lines", "%s: more than %d lines: '%s'", what.c_str( ), n, l.c_str( )); return false; }
      const double jd = t0 + dt * line; int d, h, m, dd, ds; long y, s; char mon[8], deg[8] = ""; double dm, dist, r, mag, el; vh.states++;
      if( sscanf( l.c_str( ), "%d %3s %ld: %dh%dm%ld.%ds %7s %lf' %lf %lf %lf %lf", &d, mon, &y, &h, &m, &s, &ds, deg, &dm, &dist, &r, &mag, &el) != 13) { vh_fail( "format", "%s: '%s'", what.c_str( ), l.c_str( )); return false; }
      dd = atoi( deg); const Eph x = ephemeris( o, jd); int d2, m2; long y2; day_to_dmy( (long)floor( jd + .5 + .00001), &d2, &m2, &y2, CALENDAR_GREGORIAN);
      if( d != d2 || y != y2 || strcmp( mon, set_month_name( m2, NULL))) { vh_fail( "date", "%s: '%s' for JD %.5f", what.c_str( ), l.c_str( ), jd); return false; }
      const double c = cos( x.dec * PI_ / 180.); const double lag = .012 / CDAY * K * sqrt( 2. / x.r) / x.dist * 180. / PI_, sra = (lag + 1e-5) / c, sd = lag + 1e-5;   /* light-time is found to .01 AU */
      const double ra = (double)h * 15. + (double)m / 4. + ((double)s + .1 * ds) / 240., dec = (fabs( (double)dd) + dm / 60.) * (deg[0] == '-' ? -1. : 1.); double dra = x.ra - ra; if( dra > 180.) dra -= 360.; if( dra < -180.) dra += 360.;
      if( h > 23 || m > 59 || s > 59 || dra < -.051 / 240. - sra || dra > .1 / 240. + sra) { vh_fail( "ra", "%s, JD %.5f: '%s', really %.6f", what.c_str( ), jd, l.c_str( ), x.ra); return false; }
      if( dm >= 60. || dd > 90 || dd < -90 || fabs( dec - x.dec) > .0051 / 60. + sd) { vh_fail( "dec", "%s, JD %.5f: '%s', really %.6f", what.c_str( ), jd, l.c_str( ), x.dec); return false; }
      if( fabs( dist - x.dist) > .00052 || fabs( r - x.r) > .00052) { vh_fail( "distance", "%s, JD %.5f: '%s', really %.5f and %.5f", what.c_str( ), jd, l.c_str( ), x.dist, x.r); return false; }
      if( fabs( mag - x.mag) > .055) { vh_fail( "magnitude", "%s, JD %.5f: '%s', really %.3f", what.c_str( ), jd, l.c_str( ), x.mag); return false; }
      if( fabs( el - x.elong) > .055) { vh_fail( "elongation", "%s, JD %.5f: '%s', really %.3f", what.c_str( ), jd, l.c_str( ), x.elong); return false; }
      vh.validated++; line++; char o_[40]; snprintf( o_, sizeof o_, "%d %d %.1f %.0f", h, dd, mag, el); vh_outcome( o_);
      }
   if( line != n || heads != (n + 23) / 24) { vh_fail( "lines", "%s: %d lines and %d headings, %d wanted", what.c_str( ), line, heads, n); return false; }
   return true;
}
static S cat_text( const std::vector<Orb> &v) { S t; for( auto &o : v) t += record( o); return t; }
int main( int argc, char **argv)
{
   vh_init( argc, argv); prog = getenv( "PROG_ASTEPHEM"); prog_asan = getenv( "PROG_ASTEPHEMASAN"); if( !prog || !prog_asan) { fprintf( stderr, "no program\n"); return 3; }
   uint64_t idx = 0; const double start = 2461000.5;
   /* (1) every object of every catalogue */
   static const char *desigs[] = { "1960 SH", "1971 UP1", "1993 FW", "1995 AA", "1995 AB", "1995 AA1", "1995 AB1", "1995 AA12", "1995 BA", "1999 TC36", "2004 XP14", "2004 XZ130", "2010 AB", "2010 AB1", "2010 AB2", "2010 AB100", "2010 BB", "2010 CA", "2010 CB", "2014 MU69", "2022 AP7", "2022 YZ500", "2026 AA", "2026 WB3" };
   const int nd = (int)( sizeof desigs / sizeof desigs[0]), max_n = vh.thorough ? 24 : 12;
   for( int a = 0; a <= max_n; a++) for( int b = 0; b <= nd; b++) for( int skip = 0; skip < (vh.thorough ? 3 : 1); skip++)
      {
      if( !a && !b) continue;
      if( !vh_mine( idx++)) continue;
      std::vector<Orb> cat; const int first = (a * 7 + skip * 5) % (nd - b + 1);
      for( int i = 0; i < a; i++) { Orb o = make( i + 100); o.number = i + 1; o.name = S( "Object" ) + (char)( 'A' + i % 26); cat.push_back( o); }
      for( int i = 0; i < b; i++) { Orb o = make( i + 300); o.name = desigs[first + i]; cat.push_back( o); }
      spit( "astorb.dat", cat_text( cat));
      auto ask = [&]( const S &name, const Orb *o) {
         vh_at( "lookup", a, b, first); vh_s( 0, name.c_str( )); std::vector<S> args = { S( "-o") + name, "-t2461000.5", "-n1" }; const bool asan = (a + b + (int)name.size( )) % 8 == 0; const int rc = run( asan ? prog_asan : prog, args); vh.states++;
         const S w = "catalogue of " + std::to_string( a) + " numbered and " + std::to_string( b) + " from " + desigs[b ? first : 0] + ": '-o" + name + "'";
         if( o) { if( rc) vh_fail( "not-found", "%s: status %d, '%.100s%.200s'", w.c_str( ), rc, slurp( "out.txt").c_str( ), slurp( "err.txt").c_str( )); else compare( *o, start, 1., 1, w); }
         else if( !rc || rc >= 1000 || slurp( "out.txt").find( "dist") != S::npos || slurp( "err.txt").find( "Sanitizer") != S::npos) vh_fail( "wrong-object", "%s: status %d, '%.200s%.300s'", w.c_str( ), rc, slurp( "out.txt").c_str( ), slurp( "err.txt").c_str( ));
         else vh.validated++; };
      for( auto &o : cat) ask( o.number ? std::to_string( o.number) : o.name, &o);
      for( int i : { 0, -1, a + 1, a + b, a + b + 1, 500000, 99999999 }) if( i < 1 || i > a) ask( std::to_string( i), NULL);
      for( int i = 0; i < nd; i++) if( i < first || i >= first + b) ask( desigs[i], NULL);
      ask( "2099 ZZ9", NULL); ask( "1801 AA", NULL); ask( "Nobody", NULL);
      if( (a + b) % 5 == 0) for( int len = 30; len < 39; len++) ask( S( (size_t)len, 'x'), NULL);
      }
   /* (2) where each object is, over centuries, with every way of giving the time and the steps */
   const int n_orb = vh.thorough ? 2500 : 420;
   for( int i = 0; i < n_orb; i++)
      {
      if( !vh_mine( idx++)) continue;
      Orb o = make( i + 1000); o.number = 1; o.name = "One"; Orb dull = make( 5); dull.number = 2; dull.name = "Two"; spit( "astorb.dat", record( o) + record( dull));
      static const double dts[] = { 1., 10., .5, 37.25, -1., 365.25, .04 }; static const int ns[] = { 20, 1, 60, 24, 25, 48, 0 };
      for( int k = 0; k < 7; k++)
         {
         int d, m; long y; const double t0 = 2451544.5 + (double)( (i * 131 + k * 7919) % 12000) + (k % 2 ? .5 : 0.); std::vector<S> args; const double dt = dts[k]; const int n = ns[(k + i) % 7]; char b[60];
         day_to_dmy( (long)floor( t0 + .5), &d, &m, &y, CALENDAR_GREGORIAN);
         if( k % 3 == 0) { snprintf( b, sizeof b, "-t%.5f", t0); args.push_back( b); }
         else if( k % 3 == 1) { snprintf( b, sizeof b, "-t%ld %s %d%s", y, set_month_name( m, NULL), d, k % 2 ? ".5" : ""); args.push_back( b); }
         else { snprintf( b, sizeof b, "-t%ld", y); args.push_back( b); args.push_back( set_month_name( m, NULL)); snprintf( b, sizeof b, "%d%s", d, k % 2 ? ".5" : ""); args.push_back( b); }
         if( i % 2) args.push_back( "-o1");
         snprintf( b, sizeof b, "-s%g", dt); if( k || i % 3) args.push_back( b);
         snprintf( b, sizeof b, "-n%d", n); if( n != 20) args.push_back( b);
         S w = "orbit " + std::to_string( i); for( auto &x : args) w += " " + x; vh_at( "ephemeris", i, k); vh_s( 0, w.c_str( ));
         const int rc = run( (i + k) % 20 ? prog : prog_asan, args);
         if( rc) vh_fail( "run", "%s: status %d '%.200s%.200s'", w.c_str( ), rc, slurp( "out.txt").c_str( ), slurp( "err.txt").c_str( )); else compare( o, t0, dt, n, w);
         }
      }
   /* (3) declinations about zero, whole degrees and minutes */
   for( int i = 0; i < (vh.thorough ? 400 : 80); i++)
      {
      if( !vh_mine( idx++)) continue;
      Orb o = make( i + 9000); o.number = 1; o.name = "One"; spit( "astorb.dat", record( o));
      for( int t = 0; t < 2000; t++)
         {
         const double t0 = 2458849.5 + t; const Eph a = ephemeris( o, t0), b = ephemeris( o, t0 + 1.); if( floor( a.dec) == floor( b.dec) || a.dist < .05) continue;
         if( fabs( a.dec) > 3. && t % 4) continue;
         const double cross = std::max( floor( a.dec), floor( b.dec)), f = (cross - a.dec) / (b.dec - a.dec); char x[40]; snprintf( x, sizeof x, "-t%.5f", t0 + f - .01); vh_at( "crossing", i, t);
         const int rc = run( prog, { S( x), "-s.001", "-n20" }); if( rc) vh_fail( "run", "status %d", rc); else { double tt = floor( (t0 + f - .01) * 1e5 + .5) / 1e5; compare( o, tt, .001, 20, "orbit " + std::to_string( i) + " " + x); }
         }
      }
   /* (4) damaged records and files */
   {
      Orb o = make( 77); o.number = 1; o.name = "One"; const S r = record( o);
      for( size_t cut = 0; cut <= r.size( ); cut++) { if( !vh_mine( idx++)) continue; spit( "astorb.dat", r.substr( 0, cut)); vh_at( "cut", (long)cut); const int rc = run( prog_asan, { "-t2461000.5", "-n2" }); vh.states++; if( cut < r.size( ) - 1) { if( !rc || slurp( "err.txt").find( "Sanitizer") != S::npos || rc >= 1000) vh_fail( "damaged", "a record cut at %zu: status %d '%.300s'", cut, rc, slurp( "err.txt").c_str( )); else vh.validated++; } }
      if( vh_mine( idx++)) { unlink( "astorb.dat"); const int rc = run( prog, { "-o1" }); if( !rc || rc >= 1000) vh_fail( "damaged", "no astorb.dat: status %d", rc); }
   }
   vh_sample( "every object of every catalogue looked up; ephemerides of %d orbits", n_orb);
   return vh_done( );
}
