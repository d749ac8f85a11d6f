/* C37: 'csv2ades', as a black box, on made-up Gaia files: which observations come out, and what they say; and the
   library's own reading of the result. */
#include "vh.h"
#include <sys/wait.h>
#include <fcntl.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "mpc_func.h"
typedef std::string S;
static const char *prog, *prog_asan;
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); if( e == S::npos) e = t.size( ); r.push_back( t.substr( i, e - i)); i = e + 1; } return r; }
static S fmt( const char *f, double x) { char b[60]; snprintf( b, sizeof b, f, x); return b; }
static int run( const char *p, const S &arg)
{
   const pid_t pid = fork( );
   if( !pid)
      {
      const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600), nul = open( "err.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( nul, 2);
      alarm( 60); execl( p, "csv2ades", arg.c_str( ), NULL); _exit( 127);
      }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; return WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st);
}
/* the columns of the two releases */
static const char *dr3[] = { "solution_id", "source_id", "denomination", "number_mp", "transit_id", "observation_id", "epoch", "epoch_err", "epoch_utc", "ra", "dec", "ra_error_systematic", "dec_error_systematic", "ra_dec_correlation_systematic", "ra_error_random", "dec_error_random", "ra_dec_correlation_random", "g_mag", "g_flux", "g_flux_error", "x_gaia", "y_gaia", "z_gaia", "vx_gaia", "vy_gaia", "vz_gaia", "x_gaia_geocentric", "y_gaia_geocentric", "z_gaia_geocentric", "vx_gaia_geocentric", "vy_gaia_geocentric", "vz_gaia_geocentric", "position_angle_scan", "astrometric_outcome_ccd", "astrometric_outcome_transit", NULL };
static const char *fpr[] = { "solution_id", "source_id", "denomination", "number_mp", "transit_id", "observation_id", "epoch", "epoch_err", "epoch_utc", "ra", "dec", "ra_error_systematic", "dec_error_systematic", "ra_dec_correlation_systematic", "ra_error_random", "dec_error_random", "ra_dec_correlation_random", "x_gaia", "y_gaia", "z_gaia", "vx_gaia", "vy_gaia", "vz_gaia", "x_gaia_geocentric", "y_gaia_geocentric", "z_gaia_geocentric", "vx_gaia_geocentric", "vy_gaia_geocentric", "vz_gaia_geocentric", "position_angle_scan", "astrometric_outcome_ccd", "astrometric_outcome_transit", "fov", NULL };
struct Obs { int number; std::map<S, S> v; };
static uint64_t seed_; static double rnd( void) { seed_ ^= seed_ << 13; seed_ ^= seed_ >> 7; seed_ ^= seed_ << 17; return (double)( seed_ >> 11) / 9007199254740992.; }
static S java( double x) { return fabs( x) < 1e-3 && x != 0. ? fmt( "%.12E", x) : fmt( "%.17g", x); }       /* as the archive writes small numbers */
static Obs make( int number, int n, double epoch)
{
   Obs o; o.number = number; seed_ = 0x9e3779b97f4a7c15ULL * (uint64_t)( n + 7); for( int i = 0; i < 8; i++) rnd( ); auto &v = o.v;
   for( int i = 0; dr3[i]; i++) v[dr3[i]] = java( rnd( ) * 100.); v["fov"] = "1"; v["solution_id"] = "1636148068921376768"; v["source_id"] = "-4284967216"; v["denomination"] = n % 3 ? "toutatis" : "1999_ra_dec"; v["number_mp"] = std::to_string( number); v["transit_id"] = "47101903417545381"; v["observation_id"] = "471019034175453811";
   v["epoch"] = fmt( "%.11f", epoch + .0008); v["epoch_utc"] = fmt( "%.11f", epoch); v["astrometric_outcome_ccd"] = "\"[1 1 1 1 1 1 1 1 1]\""; v["astrometric_outcome_transit"] = "1";
   static const double decs[] = { .00001, -.00001, 89.9999999, -89.9999999, 0., 1e-5 }; v["ra"] = java( n % 11 == 5 ? 359.9999999 : n % 11 == 7 ? .000012345 : rnd( ) * 360.); v["dec"] = java( n % 7 == 3 ? decs[n / 7 % 6] : asin( 2. * rnd( ) - 1.) * 57.29577951308232);
   v["ra_error_random"] = java( n % 5 ? rnd( ) * 40. : rnd( ) * 3000.); v["dec_error_random"] = java( n % 4 ? rnd( ) * 40. : rnd( ) * .9); static const double cs[] = { .9999607648, -.9999607648, 1., -1., 0., 4.321987654e-5, -8.7654321e-4, 1.23e-9 }; v["ra_dec_correlation_random"] = java( n % 3 == 1 ? cs[n / 3 % 8] : 2. * rnd( ) - 1.);
   for( int i = 0; i < 6; i++) { char t[40]; snprintf( t, sizeof t, "%s%c_gaia_geocentric", i < 3 ? "" : "v", 'x' + i % 3); v[t] = java( i < 3 ? (2. * rnd( ) - 1.) * (n % 6 == 2 ? .0005 : .012) : (2. * rnd( ) - 1.) * (n % 6 == 4 ? 1e-6 : 4e-4)); }
   v["g_mag"] = n % 9 == 4 ? "null" : n % 9 == 6 ? "" : fmt( n % 2 ? "%.6f" : "%.15f", 5. + rnd( ) * 16.); v["g_flux"] = java( 40. + rnd( ) * 1e5); v["g_flux_error"] = java( .1 + rnd( ) * 30.);
   return o;
}
static S line( const char **cols, const Obs &o) { S t; for( int i = 0; cols[i]; i++) { if( i) t += ","; t += o.v.at( cols[i]); } return t + "\n"; }
static S names( const char **cols) { S t; for( int i = 0; cols[i]; i++) { if( i) t += ","; t += cols[i]; } return t + "\n"; }
static const S top = "<?xml version='1.0' encoding='utf-8'?>\n<ades version='2022'>\n <obsBlock>\n  <obsContext>\n   <observatory>\n    <mpcCode>258</mpcCode>\n   </observatory>\n  </obsContext>\n  <obsData>\n", bottom = "  </obsData>\n </obsBlock>\n</ades>\n";
static bool near_( const S &what, const char *field, const S &got, double want, double tol)
{
   char *e; const double x = strtod( got.c_str( ), &e); if( !got.empty( ) && !*e && fabs( x - want) <= tol) return true;
   vh_fail( field, "%s: <%s> is '%s', should be %.12g", what.c_str( ), field, got.c_str( ), want); return false;
}
static void check_one( const S &what, const Obs &o, bool mags, const std::map<S, S> &f, const S &order)
{
   auto val = [&]( const char *k) { return strtod( o.v.at( k).c_str( ), NULL); }; auto get = [&]( const char *k) { auto i = f.find( k); return i == f.end( ) ? S( "(none)") : i->second; }; bool ok = true; vh.states++;
   if( get( "permID") != std::to_string( o.number)) { vh_fail( "which", "%s: <permID> %s, not %d", what.c_str( ), get( "permID").c_str( ), o.number); return; }
   static const char *fixed_[][2] = { { "mode", "TDI" }, { "stn", "258" }, { "sys", "ICRF_KM" }, { "ctr", "399" } }; for( auto &x : fixed_) if( get( x[0]) != x[1]) { vh_fail( "fixed", "%s: <%s> is %s", what.c_str( ), x[0], get( x[0]).c_str( )); ok = false; }
   for( int i = 0; i < 3; i++) { char t[40], k[8]; snprintf( t, sizeof t, "%c_gaia_geocentric", 'x' + i); snprintf( k, sizeof k, "pos%d", i + 1); ok &= near_( what, k, get( k), val( t) * AU_IN_KM * (1. - 1.550519768e-8), .00006); snprintf( t, sizeof t, "v%c_gaia_geocentric", 'x' + i); snprintf( k, sizeof k, "vel%d", i + 1); ok &= near_( what, k, get( k), val( t) * AU_IN_KM / 86400., 2e-9); }
   ok &= near_( what, "ra", get( "ra"), val( "ra"), 6e-10); ok &= near_( what, "dec", get( "dec"), val( "dec"), 6e-10); ok &= near_( what, "rmsRA", get( "rmsRA"), val( "ra_error_random") / 1000., 6e-6); ok &= near_( what, "rmsDec", get( "rmsDec"), val( "dec_error_random") / 1000., 6e-6); ok &= near_( what, "rmsCorr", get( "rmsCorr"), val( "ra_dec_correlation_random"), 2e-6);
   const S t = get( "obsTime"); int y, m, d, h, mi; double s; char z; const double day = val( "epoch_utc") + 2455197.5;
   if( t.size( ) != 24 || sscanf( t.c_str( ), "%4d-%2d-%2dT%2d:%2d:%6lf%c", &y, &m, &d, &h, &mi, &s, &z) != 7 || z != 'Z' || h > 23 || mi > 59 || s >= 60.) { vh_fail( "obsTime", "%s: '%s'", what.c_str( ), t.c_str( )); ok = false; }
   else { const double diff = ((double)dmy_to_day( d, m, y, CALENDAR_GREGORIAN) - .5 - day) * 86400. + h * 3600. + mi * 60. + s; if( diff < -.00106 || diff > .00055) { vh_fail( "obsTime", "%s: '%s' for %s, off by %.4f s", what.c_str( ), t.c_str( ), o.v.at( "epoch_utc").c_str( ), diff); ok = false; } }
   if( get( "astCat") != "Gaia3") { vh_fail( "fixed", "%s: <astCat> is %s", what.c_str( ), get( "astCat").c_str( )); ok = false; }
   const bool has = mags && isdigit( (unsigned char)o.v.at( "g_mag")[0]);
   if( has != (f.count( "mag") > 0) || has != (f.count( "rmsMag") > 0) || has != (get( "band") == "G")) { vh_fail( "magnitude", "%s: %s", what.c_str( ), has ? "left out" : "made up"); ok = false; }
   if( has) { ok &= near_( what, "mag", get( "mag"), val( "g_mag"), 5.2e-5); ok &= near_( what, "rmsMag", get( "rmsMag"), 2.5 / log( 10.) * val( "g_flux_error") / val( "g_flux"), .00052 + .0002 * val( "g_flux_error") / val( "g_flux")); }
   (void)order; if( ok) vh.validated++; vh_outcome( (t + get( "ra")).c_str( ));
}
static void check_all( const S &what, const std::vector<const Obs *> &want, bool mags)
{
   const S out = slurp( "out.txt"); if( out.compare( 0, top.size( ), top) || out.size( ) < top.size( ) + bottom.size( ) || out.compare( out.size( ) - bottom.size( ), bottom.size( ), bottom)) { vh_fail( "header", "%s: the header or trailer is not whole: '%.300s'", what.c_str( ), out.c_str( )); return; }
   size_t k = 0; std::map<S, S> f; bool in = false;
   for( const S &l0 : split( out.substr( top.size( ), out.size( ) - top.size( ) - bottom.size( ))))
      {
      const size_t a = l0.find_first_not_of( ' '); const S l = a == S::npos ? "" : l0.substr( a);
      if( l == "<optical>") { if( in) vh_fail( "format", "%s: nested", what.c_str( )); in = true; f.clear( ); }
      else if( l == "</optical>") { in = false; if( k >= want.size( )) { vh_fail( "extra", "%s: an observation of %s that was not asked for", what.c_str( ), f["permID"].c_str( )); return; } check_one( what + ", observation " + std::to_string( k), *want[k], mags, f, l); k++; }
      else { const size_t b = l.find( '>'), c = l.rfind( "</"); if( !in || l[0] != '<' || b == S::npos || c == S::npos || c < b || l.substr( c + 2) != l.substr( 1, b)) { vh_fail( "format", "%s: '%s'", what.c_str( ), l0.c_str( )); return; } const S key = l.substr( 1, b - 1); if( f.count( key)) vh_fail( "format", "%s: <%s> twice", what.c_str( ), key.c_str( )); f[key] = l.substr( b + 1, c - b - 1); }
      }
   if( k != want.size( )) vh_fail( "missing", "%s: %zu observations, not %zu", what.c_str( ), k, want.size( ));
   /* and as this library reads them */
   FILE *g = fopen( "out.txt", "rb"); void *ctx = init_ades2mpc( ); char b[600]; size_t n = 0, pos = 0; 
   while( fgets_with_ades_xlation( b, sizeof b, ctx, g))
      {
      const size_t len = strcspn( b, "\r\n"); if( len != 80 || memcmp( b + 77, "258", 3)) continue; vh.states++;
      if( b[14] == 's') { if( !n || n > want.size( )) continue; pos++; double v[3]; const bool au = b[32] == '2'; bool good = true; for( int i = 0; i < 3; i++) { const char *q = b + 34 + 12 * i; if( *q != '+' && *q != '-') good = false; v[i] = atof( S( q + 1, 10).c_str( )) * (*q == '-' ? -1. : 1.) * (au ? AU_IN_KM : 1.); }
         const Obs &o = *want[n - 1]; double d = 0.; for( int i = 0; i < 3; i++) { char t[30]; snprintf( t, sizeof t, "%c_gaia_geocentric", 'x' + i); const double x = v[i] - atof( o.v.at( t).c_str( )) * AU_IN_KM; d += x * x; }
         if( !good || sqrt( d) > (au ? 3. : .3)) vh_fail( "read-back", "%s: '%.80s' puts Gaia %.3f km off", what.c_str( ), b, sqrt( d)); else vh.validated++; continue; }
      n++; if( n > want.size( )) break; const Obs &o = *want[n - 1]; double ra, dec, p1, p2; unsigned tf = 0; int f1, f2; const double jd = extract_date_from_mpc_report( b, &tf);
      if( fabs( jd - atof( o.v.at( "epoch_utc").c_str( )) - 2455197.5) > 1.1e-6) vh_fail( "read-back", "%s: '%.80s', really epoch %s", what.c_str( ), b, o.v.at( "epoch_utc").c_str( ));
      get_ra_dec_from_mpc_report( b, &f1, &ra, &p1, &f2, &dec, &p2); ra *= 57.29577951308232; dec *= 57.29577951308232; const double c = cos( dec * 3.14159265358979 / 180.); double dr = ra - atof( o.v.at( "ra").c_str( )); if( dr > 180.) dr -= 360.; if( dr < -180.) dr += 360.;
      if( fabs( dr * c) * 3600. > .12 || fabs( dec - atof( o.v.at( "dec").c_str( ))) * 3600. > .12) vh_fail( "read-back", "%s: '%.80s', really %s %s", what.c_str( ), b, o.v.at( "ra").c_str( ), o.v.at( "dec").c_str( )); else vh.validated++;
      }
   if( n != want.size( ) || pos != n) vh_fail( "read-back", "%s: read as %zu observations and %zu positions, not %zu", what.c_str( ), n, pos, want.size( ));
   free_ades2mpc_context( ctx); fclose( g);
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); prog = getenv( "PROG_CSV2ADES"); prog_asan = getenv( "PROG_CSV2ADESASAN"); if( !prog || !prog_asan) { fprintf( stderr, "no program\n"); return 3; }
   spit( "gaia.hdr", top + "*\n" + bottom); uint64_t idx = 0;
   /* (1) which observations, of which objects, from which files */
   const int top_n = vh.thorough ? 64 : 45;
   for( int layout = 0; layout < 4; layout++)
      {
      const char **cols = layout & 1 ? fpr : dr3; std::vector<Obs> file[20]; int n = layout * 1000;
      for( int num = 1; num <= 70; num++) for( int k = 0; k < (num * 7 + layout) % 4; k++) file[(num + 11) % 20].push_back( make( num, n++, 1700. + k * 100.37 + num * .01));
      for( int i = 0; i < 20; i++)
         {
         S t = layout & 2 ? "# comment, with, commas\n#\n" : ""; t += names( cols); if( layout & 2) { std::vector<Obs> v; size_t j = 0, e = file[i].size( ); while( j < e) v.push_back( file[i][--e]); file[i] = v; Obs un = make( -4284967, n++, 1800.); t += line( cols, un); }
         for( auto &o : file[i]) t += line( cols, o); char fn[40]; snprintf( fn, sizeof fn, "SsoObservation_%02d.csv", i); spit( fn, t);
         }
      for( int lo = 1; lo <= top_n; lo++) for( int hi = lo; hi <= lo + 25 && hi <= 70; hi++)
         {
         if( !vh_mine( idx++)) continue;
         std::vector<const Obs *> want; for( int i = 0; i < 20; i++) for( auto &o : file[i]) if( o.number >= lo && o.number <= hi) want.push_back( &o);
         const S arg = hi == lo ? std::to_string( lo) : std::to_string( lo) + "," + std::to_string( hi), what = "layout " + std::to_string( layout) + ", '" + arg + "'"; vh_at( "range", layout, lo, hi);
         const int rc = run( (lo + hi) % 8 ? prog : prog_asan, arg); if( rc) vh_fail( "run", "%s: status %d '%.300s'", what.c_str( ), rc, slurp( "err.txt").c_str( )); else check_all( what, want, !(layout & 1));
         }
      }
   /* (2) times, at every millisecond's edge and day's end; (3) values */
   for( int i = 0; i < 20; i++) { char fn[40]; snprintf( fn, sizeof fn, "SsoObservation_%02d.csv", i); unlink( fn); }
   for( int day = 0; day < (vh.thorough ? 3000 : 300); day++)
      {
      if( !vh_mine( idx++)) continue;
      std::vector<Obs> v; const double d0 = vh.thorough ? 1200. + day : 1200. + day * 9.; static const double ms[] = { 0., .0004, .0006, 1., 43200., 59.9996, 59.9994, 3599.9997, 86399., 86399.999, 86399.9994, 86399.9996 };
      for( size_t k = 0; k < 12; k++) v.push_back( make( 4179, day * 50 + (int)k, d0 + ms[k] / 86400.)); for( int k = 0; k < 30; k++) v.push_back( make( 4179, day * 50 + 12 + k, d0 + (k + .5) * .0312345678));
      S t = names( day & 1 ? fpr : dr3); std::vector<const Obs *> want; for( auto &o : v) { t += line( day & 1 ? fpr : dr3, o); want.push_back( &o); } spit( "SsoObservation_10.csv", t); vh_at( "day", day);
      const S what = "day " + std::to_string( day); const int rc = run( day % 16 ? prog : prog_asan, "4179"); if( rc) vh_fail( "run", "%s: status %d '%.300s'", what.c_str( ), rc, slurp( "err.txt").c_str( )); else check_all( what, want, !(day & 1));
      }
   /* (4) files that are not there, and none asked for */
   for( int num = 1; num <= 40; num++)
      {
      if( !vh_mine( idx++)) continue;
      for( int i = 0; i < 20; i++) { char fn[40]; snprintf( fn, sizeof fn, "SsoObservation_%02d.csv", i); if( i == (num + 11) % 20) unlink( fn); else spit( fn, names( dr3)); }
      vh_at( "absent", num); char fn[40]; snprintf( fn, sizeof fn, "SsoObservation_%02d.csv", (num + 11) % 20); const int rc = run( prog, std::to_string( num)); vh.states++; if( !rc || rc >= 1000 || slurp( "err.txt").find( fn) == S::npos) vh_fail( "absent", "object %d: status %d '%.300s', nothing about %s", num, rc, slurp( "err.txt").c_str( ), fn); else vh.validated++;
      const int rc2 = run( prog, std::to_string( num + 1)); if( rc2) vh_fail( "absent", "object %d needs no %s, but status %d", num + 1, fn, rc2); else check_all( "empty file", { }, true);
      }
   if( vh_mine( idx++)) { vh_at( "no number"); const int rc = run( prog, "ceres"); if( !rc || rc >= 1000) vh_fail( "absent", "'ceres': status %d", rc); }
   vh_sample( "every range of up to 26 objects from 1 to %d, four layouts", top_n);
   return vh_done( );
}
