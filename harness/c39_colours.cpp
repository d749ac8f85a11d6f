/* C39: star colours (colors.cpp, colors2.cpp) and the time on Mars (marstime.cpp): the published relations, held to on
   fine grids over their whole ranges, and undone by their inverses. */
#include "vh.h"
#include <sys/wait.h>
#include <fcntl.h>
#include "colors.h"
typedef std::string S; typedef long double ld;
double tt_to_mtc( const double jd);
double mtc_to_tt( const double mtc);
double mars_true_solar_minus_mean_solar_time( const double jd);
double mtst_at_airy_to_tt( const double mtst);
static const ld vi_bv[13] = { -0.06865072L, 0.8837997L, -0.3889774L, -0.004998126L, 0.3867544L, -0.5422331L, -0.08926476L, 0.5194797L, -0.2044681L, -0.1009025L, 0.09543256L, -0.02567529L, 0.002393742L };
static const ld vi_vr[13] = { -0.4708373L, 0.5920728L, -0.01095294L, -0.2281118L, -0.09372892L, 0.1931393L, 0.05077253L, -0.09927284L, 0.008560631L, 0.01922702L, -0.00720188L, 0.000774302L, 0.0L };
static const ld vr_bv[13] = { 0.4860429L, 0.6904008L, -1.229411L, 2.99003L, 7.104513L, -16.37799L, -29.77123L, 43.90751L, 61.4581L, -52.65358L, -61.35921L, 22.97835L, 23.85013L };
static const ld bv_vr[13] = { -0.4140951L, 0.7357165L, -0.05242979L, -0.6293304L, 2.332871L, 3.812365L, -5.082941L, -6.520325L, 4.817797L, 5.065505L, -1.706011L, -1.568243L, 0.0L };
static const int bessell[46][3] = { { 38, 31, 66 }, { 30, 21, 51 }, { 22, 11, 36 }, { 15, 5, 21 }, { 8, 2, 6 }, { 1, -5, -11 }, { -5, -10, -25 }, { -12, -17, -38 }, { -18, -20, -48 }, { -24, -21, -58 }, { -29, -23, -69 }, { -35, -25, -79 }, { -40, -25, -87 }, { -45, -26, -94 }, { -50, -30, -101 }, { -54, -35, -108 }, { -59, -45, -114 }, { -64, -51, -120 }, { -68, -60, -127 }, { -72, -68, -131 }, { -77, -76, -134 }, { -81, -85, -137 }, { -85, -94, -142 }, { -89, -104, -147 }, { -93, -113, -151 }, { -98, -122, -155 }, { -102, -131, -158 }, { -106, -142, -157 }, { -110, -154, -160 }, { -115, -166, -162 }, { -119, -178, -164 }, { -124, -189, -166 }, { -128, -199, -166 }, { -133, -210, -165 }, { -138, -222, -164 }, { -143, -234, -161 }, { -148, -245, -157 }, { -154, -256, -153 }, { -160, -266, -148 }, { -165, -277, -143 }, { -172, -288, -137 }, { -178, -299, -131 }, { -185, -309, -125 }, { -191, -320, -119 }, { -199, -331, -112 }, { -206, -342, -106 } };
static ld poly( const ld *c, ld x) { ld r = 0.; for( int i = 12; i >= 0; i--) r = r * (x - 1.L) + c[i]; return r + 1.L; }
static void forward( const char *name, double (*f)( const double), const ld *c, double lo, double hi, int per_unit)
{
   vh_at( name); const long i0 = (long)floor( (lo - 1.) * per_unit), i1 = (long)ceil( (hi + 1.) * per_unit);
   for( long i = i0 + vh.shard; i <= i1; i += vh.nshards)
      {
      const double x = (double)i / per_unit; if( fabs( x - lo) < 1e-12 || fabs( x - hi) < 1e-12) continue;
      const double got = f( x); vh_outcome( vh_hash( &got, sizeof got)); vh.states++; vh.transitions++;
      if( x < lo || x > hi) { if( got != 99.) vh_fail( "colour-range", "%s( %.9g) is outside %g to %g, but gives %.9g instead of 99", name, x, lo, hi, got); else vh.validated++; continue; }
      const ld want = poly( c, x); if( !(fabsl( got - want) < 1e-11)) vh_fail( "colour", "%s( %.9g) = %.12g, should be %.12Lg", name, x, got, want); else vh.validated++;
      }
   static const double far[] = { -99., 99., -1e+9, 1e+9, -1e-3, 1e-3, -1e-9, 1e-9 };
   for( int i = 0; i < 8; i++) { const bool inside = i >= 4; const double x0 = i & 1 ? hi : lo, x = inside ? x0 + far[i] : far[i], got = f( x); const bool in = x > lo && x < hi; if( in ? !(fabsl( got - poly( c, x)) < 1e-11) : got != 99.) vh_fail( "colour-range", "%s( %.12g) = %.12g near the end of its range %g to %g", name, x, got, lo, hi); else vh.validated++; vh.states++; }
}
static void inverse( const char *name, double (*inv)( const double), const ld *c, double lo, double hi, int per_unit)
{
   vh_at( name); const ld ylo = poly( c, lo), yhi = poly( c, hi);
   const long i0 = (long)ceil( lo * per_unit), i1 = (long)floor( hi * per_unit);
   for( long i = i0 + vh.shard; i <= i1; i += vh.nshards)
      {
      const double x = (double)i / per_unit; if( x < lo + 1e-7 || x > hi - 1e-7) continue;
      if( poly( c, x + 1e-4) <= poly( c, x)) { vh.counters["not increasing here"]++; continue; }
      const double y = (double)poly( c, x), got = inv( y); vh.states++; vh.transitions++; vh_outcome( vh_hash( &got, sizeof got));
      if( !(fabs( got - x) < 2.1e-6)) vh_fail( "colour-inverse", "%s( %.12g) = %.9g, should be %.9g", name, y, got, x); else vh.validated++;
      }
   /* a grid of the colours given: what comes back must be the colour asked for; outside, 99 */
   const long j0 = (long)floor( ((double)ylo - 1.) * per_unit), j1 = (long)ceil( ((double)yhi + 1.) * per_unit);
   for( long j = j0 + vh.shard; j <= j1; j += vh.nshards)
      {
      const double y = (double)j / per_unit, got = inv( y); vh.states++; vh.transitions++; if( fabsl( y - ylo) < 1e-9 || fabsl( y - yhi) < 1e-9) continue;
      const bool in = y > ylo && y < yhi;
      if( !in) { if( got != 99.) vh_fail( "colour-range", "%s( %.9g): no such colour, but gives %.9g instead of 99", name, y, got); else vh.validated++; }
      else if( !(got >= lo && got <= hi) || !((poly( c, got - 2.1e-6) <= y + 1e-12) && (poly( c, got + 2.1e-6) >= y - 1e-12))) vh_fail( "colour-inverse", "%s( %.9g) = %.9g, whose colour is %.9Lg", name, y, got, poly( c, got)); else vh.validated++;
      }
}
static ld lin( ld x, ld x0, ld y0, ld x1, ld y1) { return y0 + (y1 - y0) * (x - x0) / (x1 - x0); }
static void tycho( int per_unit)
{
   vh_at( "tycho");
   for( long i = -3L * per_unit + vh.shard; i <= 4L * per_unit; i += vh.nshards)
      {
      const double x = (double)i / per_unit, bv = johnson_b_minus_v_from_tycho_b_minus_v( x); vh.states++; vh.transitions += 3; bool ok = true;
      if( fabs( x + .2) > 1e-12 && fabs( x - 1.8) > 1e-12)
         for( int k = 0; k < 3; k++)
            {
            const double vt = k * 7.25 - 1.5, v = johnson_v_from_tycho_b_minus_v( x, vt);
            if( x < -.2 || x > 1.8) { if( bv != 99. || v != 99.) { vh_fail( "colour-range", "Tycho B-V %.9g is outside -.2 to 1.8, but gives %.9g and %.9g", x, bv, v); ok = false; } continue; }
            const ld d = x < .1 ? lin( x, -.2L, -.006L, .1L, 0.) : x < .5 ? lin( x, .1L, 0., .5L, .046L) : x < 1.4 ? lin( x, .5L, .046L, 1.4L, -.008L) : lin( x, 1.4L, -.008L, 1.8L, -.032L);
            const ld e = x < .1 ? lin( x, -.2L, .014L, .1L, 0.) : x < .5 ? lin( x, .1L, 0., .5L, -.005L) : x < 1.4 ? -.005L : lin( x, 1.4L, -.005L, 1.8L, -.015L);
            if( !(fabsl( bv - (.85L * x + d)) < 1e-12)) { vh_fail( "tycho", "Tycho B-V %.9g gives Johnson B-V %.12g, should be %.12Lg", x, bv, .85L * x + d); ok = false; }
            if( !(fabsl( v - (vt - .09L * x + e)) < 1e-12)) { vh_fail( "tycho", "Tycho B-V %.9g, V %.9g gives Johnson V %.12g, should be %.12Lg", x, vt, v, vt - .09L * x + e); ok = false; }
            }
      double r[5] = { 7e+7, 7e+7, 7e+7, 7e+7, 7e+7 }; const int rc = tycho_to_johnson_colors( x, r + 0); vh_outcome( vh_hash( r, sizeof r));
      if( r[3] != 7e+7) { vh_fail( "bessell", "tycho_to_johnson_colors( %.9g) writes a fourth value", x); ok = false; }
      if( fabs( x + .25) > 1e-12 && fabs( x - 2.) > 1e-12)
         {
         if( x < -.25 || x > 2.) { if( rc != -1) { vh_fail( "colour-range", "tycho_to_johnson_colors( %.9g): out of the table, but returns %d", x, rc); ok = false; } }
         else if( rc) { vh_fail( "bessell", "tycho_to_johnson_colors( %.9g) returns %d", x, rc); ok = false; }
         else
            {
            const ld u = ((ld)x + .25L) / .05L; int cell = (int)floorl( u + 1e-9L); if( fabsl( u - roundl( u)) < 1e-9L) vh.counters["table points"]++;
            cell--; if( cell < 0) cell = 0; if( cell > 42) cell = 42;
            for( int k = 0; k < 3; k++)
               {
               ld s = 0.; for( int p = 0; p < 4; p++) { ld w = 1.; for( int q = 0; q < 4; q++) if( q != p) w *= (u - (cell + q)) / (ld)(p - q); s += w * bessell[cell + p][k]; }
               s *= .001L; if( k == 1) s += x; static const char *nm[] = { "V-VT", "B-V", "V-Hp" };
               if( !(fabsl( r[k] - s) < 1e-9)) { vh_fail( "bessell", "Tycho B-V %.9g: %s is %.9g, should be %.9Lg", x, nm[k], r[k], s); ok = false; }
               }
            }
         }
      if( ok) vh.validated++;
      }
}
/* Mars24's formulas (Allison & McEwen 2000): its equations B-1 to B-5 and C-1, C-2 */
static ld pi_ = 3.14159265358979323846L;
static ld sind( ld x) { return sinl( fmodl( x, 360.L) * pi_ / 180.L); }
static ld eot_deg( ld jd, ld *ls, ld *fms, ld *vm)
{
   const ld t = jd - 2451545.L, m = 19.3871L + .52402073L * t, a = 270.3871L + .524038496L * t;
   static const ld A[7] = { 71, 57, 39, 37, 21, 20, 18 }, tau[7] = { 2.2353L, 2.7543L, 1.1177L, 15.7866L, 2.1354L, 2.4694L, 32.8493L }, ph[7] = { 49.409L, 168.173L, 191.837L, 21.736L, 15.704L, 95.528L, 49.095L };
   ld pbs = 0.; for( int i = 6; i >= 0; i--) pbs += A[i] * 1e-4L * cosl( fmodl( 360.L * t / (365.25L * tau[i]) + ph[i], 360.L) * pi_ / 180.L);
   const ld c = (10.691L + 3e-7L * t) * sind( m) + .623L * sind( 2. * m) + .05L * sind( 3. * m) + .005L * sind( 4. * m) + .0005L * sind( 5. * m) + pbs;
   if( fms) *fms = a; if( vm) *vm = c; const ld l = a + c; if( ls) *ls = l;
   return 2.861L * sind( 2. * l) - .071L * sind( 4. * l) + .002L * sind( 6. * l) - c;
}
static ld msd( ld jd) { return (jd - 2451549.5L) / 1.0274912517L + 44796.L - .0009626L; }
static void mars( double lo, double hi, double step)
{
   vh_at( "mars"); const long n = (long)((hi - lo) / step); double worst = 0.;
   for( long i = vh.shard; i <= n; i += vh.nshards)
      {
      const double jd = lo + i * step, mtc = tt_to_mtc( jd), back = mtc_to_tt( mtc), e = mars_true_solar_minus_mean_solar_time( jd); vh.states++; vh.transitions += 4; bool ok = true; vh_outcome( vh_hash( &e, sizeof e));
      if( !(fabsl( mtc - msd( jd)) < 1e-9)) { vh_fail( "mars-mean", "JD %.6f: mean time %.9f, should be %.9Lf", jd, mtc, msd( jd)); ok = false; }
      if( !(fabs( back - jd) < 2e-9)) { vh_fail( "mars-mean", "JD %.9f comes back as %.9f", jd, back); ok = false; }
      const ld we = eot_deg( jd, NULL, NULL, NULL) / 360.L; if( !(fabsl( e - we) < 1e-10)) { vh_fail( "mars-eot", "JD %.6f: equation of time is %.12f sols, should be %.12Lf", jd, e, we); ok = false; }
      const double again = mtst_at_airy_to_tt( mtc + e); if( fabs( again - jd) > worst) worst = fabs( again - jd);
      if( !(fabs( again - jd) < 1e-8)) { vh_fail( "mars-true", "JD %.9f: from its true solar time, comes back as %.9f", jd, again); ok = false; }
      if( ok) vh.validated++;
      }
   char b[80]; snprintf( b, sizeof b, "worst true-time round trip %.3g day", worst); vh_sample( "%s", b);
}
static S out;
static int run( const char *env, const std::vector<S> &args)
{
   const char *p = getenv( env); if( !p) { fprintf( stderr, "no %s\n", env); exit( 3); }
   const pid_t pid = fork( );
   if( !pid) { const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( fd, 2); std::vector<char *> v; v.push_back( (char *)"tool"); for( const S &a : args) v.push_back( (char *)a.c_str( )); v.push_back( NULL); alarm( 20); execv( p, v.data( )); _exit( 127); }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; out.clear( ); FILE *f = fopen( "out.txt", "rb"); char b[2000]; size_t n; while( f && (n = fread( b, 1, sizeof b, f)) > 0) out.append( b, n); if( f) fclose( f); return WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st);
}
static bool clock_ok( const char *s, ld day, ld tol_ms)
{
   int h, m, sec, ms, n = 0; if( sscanf( s, "%2d:%2d:%2d.%3d%n", &h, &m, &sec, &ms, &n) != 4 || n != 12 || h > 23 || m > 59 || sec > 59) return false;
   const ld got = ((h * 60 + m) * 60 + sec) * 1000.L + ms, want = (day - floorl( day)) * 86400000.L; return fabsl( remainderl( got - want, 86400000.L)) < tol_ms;
}
static const char *after( const char *key) { const size_t n = out.find( key); return n == S::npos ? "" : out.c_str( ) + n + strlen( key); }
static void program( const std::vector<double> &jds)
{
   static const double lons[] = { 0., 137.4417, 222.5583, 359.9999, -4.6, 184.702, 90., 33.22 };
   for( size_t i = vh.shard; i < jds.size( ); i += vh.nshards)
      {
      char a[40], l[40]; snprintf( a, sizeof a, "%.9f", jds[i]); const double jd = atof( a), lon = lons[(i / vh.nshards) % 8]; snprintf( l, sizeof l, "%.4f", lon); vh_ats( "marstime", a, l);
      const bool with = (i / vh.nshards) & 1; std::vector<S> args; args.push_back( a); if( with) args.push_back( l); const int rc = run( "PROG_MARSTIME", args); vh.states++; vh_outcome( out.c_str( ));
      ld ls, fms, vm; const ld e = eot_deg( jd, &ls, &fms, &vm) / 360.L, m = msd( jd); bool ok = !rc; const char *why = "status";
      if( ok) { why = "a_fms, v_minus_m, longitude of sun"; ld x, y, z; ok = sscanf( after( "a_fms ="), "%Lf; v_minus_m = %Lf; longitude of sun = %Lf", &x, &y, &z) == 3 && fabsl( x - fms) < 2e-6 && fabsl( y - vm) < 2e-6 && fabsl( z - ls) < 2e-6; }
      if( ok) { why = "MTC and eot"; ld x, y; char t[20]; ok = sscanf( after( "MTC ="), "%Lf (%13[0-9:.]); eot = %Lf", &x, t, &y) == 3 && fabsl( x - m) < 2e-6 && fabsl( y - e) < 1e-6 && clock_ok( t, m, .6); }
      if( ok) { why = "LTST at Airy"; ok = clock_ok( after( "LTST at Airy: "), m + e, .6); }
      if( ok) { why = "Recovered JD"; ok = fabsl( strtold( after( "Recovered JD: "), NULL) - jd) < 2e-8; }
      if( ok && with) { why = "LTST at loc"; ok = clock_ok( after( "LTST at loc: "), m + e - (ld)lon / 360.L, .6); }
      if( ok && with) { why = "LMST at loc"; ok = clock_ok( after( "LMST at loc: "), m - (ld)lon / 360.L, .6); }
      if( ok && !with) { why = "a place out of nowhere"; ok = out.find( "at loc") == S::npos; }
      if( !ok) vh_fail( "mars-program", "marstime %s %s: %s wrong (mean time %.9Lf, equation of time %.9Lf): '%.300s'", a, with ? l : "", why, m, e, out.c_str( )); else vh.validated++;
      }
}
static void colour_programs( int per_unit)
{
   for( long i = -per_unit + vh.shard; i <= 5L * per_unit; i += vh.nshards)
      {
      char a[40]; snprintf( a, sizeof a, "%.4f", (double)i / per_unit); const double x = atof( a); vh_ats( "colors", a); vh.states++;
      const int rc = run( "PROG_COLORS", { a }); bool ok = !rc;
      static const struct { const char *n; double (*f)( const double); } fn[] = { { "v_minus_i_to_b_minus_v", v_minus_i_to_b_minus_v }, { "v_minus_i_to_v_minus_r", v_minus_i_to_v_minus_r }, { "b_minus_v_to_v_minus_i", b_minus_v_to_v_minus_i }, { "v_minus_r_to_v_minus_i", v_minus_r_to_v_minus_i }, { "v_minus_r_to_b_minus_v", v_minus_r_to_b_minus_v }, { "b_minus_v_to_v_minus_r", b_minus_v_to_v_minus_r } };
      for( auto &q : fn) { const char *p = after( q.n); const char *e = strchr( p, '='); if( !e || fabs( atof( e + 1) - q.f( x)) > 1e-6) ok = false; }
      double r[4]; const int out_of = tycho_to_johnson_colors( x, r); if( !ok) vh_fail( "colour-program", "colors %s: '%.400s'", a, out.c_str( ));
      run( "PROG_COLORS2", { a }); vh_outcome( out.c_str( ));
      bool ok2; if( out_of) ok2 = out.find( '=') == S::npos;
      else { ok2 = fabs( atof( after( "V-VT =")) - r[0]) < 6e-5 && fabs( atof( after( "B-V =")) - r[1]) < 6e-5 && fabs( atof( after( "V-Hp =")) - r[2]) < 6e-5; const size_t p = out.find( "(from"); const double o = johnson_b_minus_v_from_tycho_b_minus_v( x); if( p == S::npos) ok2 = false; else { const size_t q = out.rfind( '=', p); if( q == S::npos || fabs( atof( out.c_str( ) + q + 1) - o) > 6e-5) ok2 = false; } }
      if( !ok2) vh_fail( "colour-program", "colors2 %s: '%.300s'", a, out.c_str( )); else if( ok) vh.validated++;
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); const int per = vh.thorough ? 1000000 : 100000;
   forward( "v_minus_i_to_b_minus_v", v_minus_i_to_b_minus_v, vi_bv, -.23, 3.7, per); forward( "v_minus_i_to_v_minus_r", v_minus_i_to_v_minus_r, vi_vr, -.3, 4., per);
   forward( "v_minus_r_to_b_minus_v", v_minus_r_to_b_minus_v, vr_bv, -.1, 1.75, per); forward( "b_minus_v_to_v_minus_r", b_minus_v_to_v_minus_r, bv_vr, -.23, 1.95, per);
   inverse( "b_minus_v_to_v_minus_i", b_minus_v_to_v_minus_i, vi_bv, -.23, 3.7, per); inverse( "v_minus_r_to_v_minus_i", v_minus_r_to_v_minus_i, vi_vr, -.3, 4., per);
   tycho( per); mars( 2341972.5, 2561117.5, vh.thorough ? .0137 : .173);
   std::vector<double> jds; for( int i = 0; i < (vh.thorough ? 8000 : 1200); i++) jds.push_back( 2341972.5 + i * (219145. / (vh.thorough ? 8000 : 1200)));
   for( int s = 0; s < (vh.thorough ? 400 : 64); s++)    /* close to midnight, by mean and by true time */
      for( int k = -12; k <= 12; k++) { const ld t = 44796. + s * 137 - 20000 + k * .0002L / 86400.L; jds.push_back( (double)((t - 44796.L + .0009626L) * 1.0274912517L + 2451549.5L)); ld j = jds.back( ); for( int it = 0; it < 6; it++) j = (t - eot_deg( j, NULL, NULL, NULL) / 360.L - 44796.L + .0009626L) * 1.0274912517L + 2451549.5L; jds.push_back( (double)j); }
   program( jds); colour_programs( vh.thorough ? 1000 : 200);
   return vh_done( );
}
