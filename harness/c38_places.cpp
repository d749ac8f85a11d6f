/* C38: the tools about observing places and identifiers, as black boxes: 'parallax' and its web form, 'mpc_code',
   'xxx2rov', 'mpc_time'.  The expected values come from formulas written here. */
#include "vh.h"
#include <sys/wait.h>
#include <fcntl.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "mpc_func.h"
typedef std::string S; typedef long double ld;
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); if( e == S::npos) e = t.size( ); r.push_back( t.substr( i, e - i)); i = e + 1; } return r; }
static S fmt( const char *f, ...) { char b[700]; va_list v; va_start( v, f); vsnprintf( b, sizeof b, f, v); va_end( v); return b; }
static S out; static int status;
static void run( const char *env, std::vector<S> args, const S &query = "")
{
   const char *p = getenv( env); if( !p) { fprintf( stderr, "no %s\n", env); exit( 3); }
   const pid_t pid = fork( );
   if( !pid)
      {
      const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600), nul = open( "err.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( nul, 2); setenv( "HOME", "/nonexistent", 1);
      if( !query.empty( )) { setenv( "REQUEST_METHOD", "GET", 1); setenv( "QUERY_STRING", query.c_str( ), 1); }
      std::vector<char *> v; v.push_back( (char *)"tool"); for( S &a : args) v.push_back( (char *)a.c_str( )); v.push_back( NULL); alarm( 60); execv( p, v.data( )); _exit( 127);
      }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; status = WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st); out = slurp( "out.txt"); const size_t pre = out.find( "<pre>L"); if( pre != S::npos) out.insert( pre + 5, "\n");
}
static const ld pi_ = 3.14159265358979323846264338327950288L, major_ = 6378137.L, minor_ = 6356752.314140347L, deg = pi_ / 180.L;
static void constants( ld lat, ld alt, ld *c, ld *s) { const ld n = major_ * major_ / sqrtl( major_ * major_ * cosl( lat) * cosl( lat) + minor_ * minor_ * sinl( lat) * sinl( lat)); *c = (n + alt) * cosl( lat) / major_; *s = (n * minor_ * minor_ / (major_ * major_) + alt) * sinl( lat) / major_; }
static const char *find( const char *key, int skip = 0) { const char *p = out.c_str( ); for( ;;) { if( !strncmp( p, key, strlen( key)) && !skip--) return p + strlen( key); p = strchr( p, '\n'); if( !p) return NULL; p++; } }
static ld dms( const char *s) { ld d, m, x; const bool neg = *s == '-'; if( (*s != '-' && *s != '+') || sscanf( s + 1, "%Lf %Lf %Lf", &d, &m, &x) != 3 || m > 59. || x >= 60.) return 9999.; d += m / 60. + x / 3600.; return neg ? -d : d; }
static bool near_( const S &what, const char *key, const char *name, ld got, ld want, ld tol) { if( fabsl( got - want) <= tol) return true; vh_fail( key, "%s: %s is %.12Lg, should be %.12Lg", what.c_str( ), name, got, want); return false; }
/* does the shown place agree with what was asked? lat/lon in degrees; lon < -900: none is to be shown */
static void shown( const S &what, const char *key, ld lat, ld lon, ld alt, ld tol_deg, ld tol_m, const ld *given = NULL)
{
   ld c, s; constants( lat * deg, alt, &c, &s); if( given) { c = given[0]; s = given[1]; } vh.states++; vh_outcome( out.c_str( )); bool ok = true; const ld tol_c = given ? 6e-12L : 1e-11L;
   const char *p = find( "Latitude "); if( !p) { vh_fail( key, "%s: no latitude: '%.200s'", what.c_str( ), out.c_str( )); return; }
   ok &= near_( what, key, "latitude", strtold( p, NULL), lat, tol_deg + 6e-10); const char *q = strchr( p, '='); ok &= near_( what, key, "latitude in degrees, minutes, seconds", q ? dms( q + 2) : 999., lat, tol_deg + 1.5e-5 / 3600.);
   if( lat < -1e-6 && (!q || q[2] != '-')) { vh_fail( key, "%s: the latitude has lost its sign: '%.40s'", what.c_str( ), p); ok = false; }
   p = find( "Altitude "); ok &= near_( what, key, "altitude", p ? strtold( p, NULL) : 1e9, alt, tol_m + 6e-6);
   ld a, b; p = find( "Parallax constants "); if( !p || sscanf( p, "%Lf %Lf", &a, &b) != 2) a = b = 99.; ok &= near_( what, key, "rho cos phi'", a, c, tol_c); ok &= near_( what, key, "rho sin phi'", b, s, tol_c);
   p = find( "In meters: "); if( !p || sscanf( p, "%Lf %Lf", &a, &b) != 2) a = b = 99.; ok &= near_( what, key, "rho cos phi' in metres", a, c * major_, 2e-5); ok &= near_( what, key, "rho sin phi' in metres", b, s * major_, 2e-5);
   p = find( "Longitude "); const char *xyz = find( "xyz in Earth radii "), *xm = find( "xyz in meters ");
   if( lon < -900.) { if( p || xyz) { vh_fail( key, "%s: a longitude out of nowhere", what.c_str( )); ok = false; } }
   else if( (lon == 0. || lon == 360.) && !p && !xyz) { }          /* zero is how 'parallax' marks an unknown longitude */
   else if( !p || !xyz || !xm) { vh_fail( key, "%s: no longitude or x, y, z: '%.300s'", what.c_str( ), out.c_str( )); ok = false; }
   else
      {
      int n = 0; bool east = false, west = false; for( const char *l; (l = find( "Longitude ", n)) != NULL; n++) { const ld v = strtold( l, NULL); q = strchr( l, '='); ok &= near_( what, key, "longitude", remainderl( v - lon, 360.), 0., tol_deg + 6e-10); ok &= near_( what, key, "longitude in degrees, minutes, seconds", q ? dms( q + 2) : 999., v, 1.6e-5 / 3600.); if( v >= 0.) east = true; if( v <= 180.) west = true; }
      if( !east || !west || n > 2) { vh_fail( key, "%s: longitude shown %d times", what.c_str( ), n); ok = false; }
      const ld w[3] = { c * cosl( lon * deg), c * sinl( lon * deg), s }; ld v[3]; static const char *nm[] = { "x", "y", "z" };
      if( sscanf( xyz, "%Lf %Lf %Lf", v, v + 1, v + 2) != 3) v[0] = 99.; for( int i = 0; i < 3; i++) ok &= near_( what, key, nm[i], v[i], w[i], 5.1e-8 + tol_c + tol_deg * deg); if( sscanf( xm, "%Lf %Lf %Lf", v, v + 1, v + 2) != 3) v[0] = 99.; for( int i = 0; i < 3; i++) ok &= near_( what, key, nm[i], v[i], w[i] * major_, 2e-5 + tol_deg * deg * major_ );
      }
   if( ok) vh.validated++;
}
static const double lons[] = { 203.744099, 0.001, 359.9999999, 180., 179.9999999, 180.0000001, -.5, -70.25, -179.99, 90., 270., 12.345678912, 300.000277777777, 20.05, 99.1 }, lats[] = { 45.5, -33.906, .5, -.5, 89.99, -89.99, 20.70719, 0.0000001, -29.25666, 66.6, -2.5, -.0002777777 }, alts[] = { 0., 100., 3055.123, -411.5, 8848., 12000.25, 400000. };
static S as_dms( double x, int style) { const double a = fabs( x); const char *sg = x < 0. ? "-" : style & 1 ? "+" : ""; if( style < 2) return fmt( "%s%.10f", sg, a); const long long u = llround( a * 3600e+6); if( style == 2) return fmt( "%s%lld %02lld %02lld.%06lld", sg, u / 3600000000LL, u / 60000000LL % 60, u / 1000000LL % 60, u % 1000000LL); return fmt( "%s%lld %.9f", sg, (long long)a, (a - floor( a)) * 60.); }
struct Site { S code, rec; int kind; double lon, lat, alt, c, s; int p1, p2; S name; };      /* kind 0: parallax constants; 1: rover; 2: spacecraft */
static std::vector<Site> sites( bool rovers)
{
   static const char b62[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; std::vector<Site> r; int n = rovers ? 1000 : 0;
   for( double lo0 : lons) for( double la0 : lats)
      {
      const double lo = atof( fmt( "%.9f", lo0).c_str( )), la = atof( fmt( "%.9f", la0).c_str( )); Site x; n++; x.code = fmt( "%c%02d", b62[n / 100 % 62], n % 100); x.lat = la; x.lon = lo < 0. ? lo + 360. : lo; x.alt = alts[n % 6]; x.name = fmt( "Place %d, %s", n, n % 7 ? "somewhere" : "St. Agnes' & Co. <observatory>"); x.p1 = n % 6; x.p2 = 3 + n % 4; ld c, s;
      if( !rovers)
         {
         constants( la * deg, x.alt, &c, &s); x.kind = 0; S lon = fmt( "%10.5f", x.lon).substr( 1), cs = fmt( "%8.6f", (double)c), sn = fmt( "%+9.6f", (double)s); 
         lon = lon.substr( 0, 4 + x.p1); lon.resize( 9, ' '); cs = cs.substr( 0, 2 + x.p2); cs.resize( 8, ' '); sn = sn.substr( 0, 3 + x.p2); sn.resize( 9, ' '); if( x.p1 > 5) x.p1 = 5;
         x.rec = x.code + " " + lon + cs + sn + x.name; x.lon = atof( lon.c_str( )); x.c = atof( cs.c_str( )); x.s = atof( sn.c_str( )); if( n % 40 == 39) { x.kind = 2; x.rec = x.code + S( 27, ' ') + x.name; x.lon = x.lat = x.alt = x.c = x.s = 0.; x.p1 = x.p2 = 0; }
         }
      else
         {
         x.kind = 1; x.p1 = x.p2 = 0; if( n % 3 == 1) x.code += "x"; const S head = x.code.size( ) == 4 ? x.code + "!" : x.code + " !";
         if( n % 5 == 2) { auto sm = []( double v) { const long long u = llround( fabs( v) * 3600e+6); return fmt( "%s%06lld.%06lld", v < 0. ? "-" : "", u / 3600000000LL * 10000 + u / 60000000LL % 60 * 100 + u / 1000000LL % 60, u % 1000000LL); }; const bool ok = fabs( x.lon) * 3600. > 1e-3; x.rec = head + (ok && fabs( la) > .02 ? fmt( "%s  %s  %.3f", sm( x.lon).c_str( ), sm( la).c_str( ), x.alt) : fmt( "%.9f %.9f %.3f", x.lon, la, x.alt)); }
         else x.rec = head + fmt( n % 2 ? "%+014.9f  %+013.9f %9.3f" : "%14.9f  %13.9f %9.3f", lo, la, x.alt);
         x.rec.resize( std::max<size_t>( x.rec.size( ), 47), ' '); x.rec = x.rec.substr( 0, 47) + x.name; constants( la * deg, x.alt, &c, &s); x.c = (double)c; x.s = (double)s;
         }
      r.push_back( x);
      }
   if( rovers) for( int i = 0; i < 4; i++)
      {        /* codes that begin alike, the longer before the shorter and after it */
      Site x = r[i * 9 + 1]; static const char *cd[] = { "Qxyz", "Qxy", "Rab", "Rabc" }; const S lla = x.rec.substr( x.rec.find( '!') + 1); x.code = cd[i]; x.rec = x.code + (i % 3 ? " !" : "!") + lla; const size_t at = x.rec.find( "Place"); S head = x.rec.substr( 0, at); while( head.size( ) > 47) head.pop_back( ); head.resize( 47, ' '); x.rec = head + x.name; r.push_back( x);
      }
   return r;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); uint64_t idx = 0;
   /* (1) three numbers to 'parallax': longitude, latitude, height; the same as x, y, z in metres or Earth radii; and to its web form */
   int k = 0;
   for( double lo : lons) for( double la : lats) for( double al : alts) for( int style = 0; style < 4; style++)
      {
      k++; if( fabs( lo) < 2. && fabs( la) < 2.) continue; if( !vh.thorough && (k + k / 7) % 3) continue; if( !vh_mine( idx++)) continue;
      vh_at( "parallax lon lat alt", lo, la, al, style); const S a1 = as_dms( lo, style), a2 = as_dms( la, style); const S what = "parallax '" + a1 + "' '" + a2 + "' " + fmt( "%.4f", al);
      if( a1[0] == '-' && style == 3 && lo > -1.) continue;
      run( "PROG_PARALLAX", { a1, a2, fmt( "%.4f", al) }); shown( what, "lon-lat-alt", la, lo, al, style >= 2 ? 2e-10 : 1e-10, 1e-9);
      ld c, s; constants( la * deg, al, &c, &s); if( style == 0)
         {
         S q[3]; const ld w[3] = { c * cosl( lo * deg), c * sinl( lo * deg), s }; for( int i = 0; i < 3; i++) q[i] = fmt( "%.5Lf", w[i] * major_); run( "PROG_PARALLAX", { q[0], q[1], q[2] });
         if( fabsl( w[1]) * major_ > 400. || fabsl( w[0]) * major_ > 400.) { const ld st = 2e-5 / 6378137. / deg; shown( "parallax " + q[0] + " " + q[1] + " " + q[2], "xyz", la, strtold( q[1].c_str( ), 0) == 0. && w[0] > 0. ? 0. : lo, al, st / cosl( la * deg) + st, 2e-5, NULL); }
         run( "PROG_CGI", { }, "lat=" + fmt( "%.10f", la) + "&lon=" + fmt( "%.10f", lo) + "&alt=" + fmt( "%.4f", al)); shown( "the web form, lat " + fmt( "%.10f lon %.10f alt %.4f", la, lo, al), "web", la, lo, al, 1e-10, 1e-8);
         if( fabsl( s * major_) > 100.1) { run( "PROG_CGI", { }, "rho_cos_phi=" + fmt( "%.5Lf", c * major_) + "&rho_sin_phi=" + fmt( "%.5Lf", s * major_)); const ld g[2] = { strtold( fmt( "%.5Lf", c * major_).c_str( ), 0) / major_, strtold( fmt( "%.5Lf", s * major_).c_str( ), 0) / major_ }; shown( "the web form, from constants in metres", "web", la, -999., al, 3e-10, 2e-5, g); }
         }
      if( style == 1)
         {
         run( "PROG_PARALLAX", { fmt( "%.12Lf", c), fmt( "%.12Lf", s) }); shown( fmt( "parallax %.12Lf %.12Lf", c, s), "constants", la, -999., al, 2e-10, 2e-5); if( c * major_ > 3. && fabsl( s * major_) > 3.) { run( "PROG_PARALLAX", { fmt( "%.5Lf", c * major_), fmt( "%.5Lf", s * major_) }); const ld g[2] = { strtold( fmt( "%.5Lf", c * major_).c_str( ), 0) / major_, strtold( fmt( "%.5Lf", s * major_).c_str( ), 0) / major_ }; shown( fmt( "parallax %.5Lf %.5Lf", c * major_, s * major_), "constants", la, -999., al, 3e-10, 2e-5, g); }
         }
      }
   /* (2) 'parallax' with codes: alone, in pairs; rovers before the MPC's list, unless -f; and 'mpc_code' listing them all */
   std::vector<Site> a = sites( false), b = sites( true); Site both = a[3], rov = b[4]; rov.rec = both.code + " !" + fmt( "%14.9f  %13.9f %9.3f", rov.lon, rov.lat, rov.alt); rov.rec.resize( 47, ' '); rov.rec += rov.name; rov.code = both.code;
   S ta = "<pre>\nCode  Long.   cos      sin    Name\n", tb = "# rovers, and a comment that is longer than thirty characters\n\n"; for( auto &x : a) ta += x.rec + "\n"; ta += "</pre>\n"; for( auto &x : b) tb += x.rec + "\n"; tb += rov.rec + "\n"; spit( "ObsCodes.htm", ta); spit( "rovers.txt", tb);
   for( int w = 0; w < 2; w++) for( auto &x : w ? b : a) for( int opt = 0; opt < 3; opt++)
      {
      if( !vh_mine( idx++)) continue; vh_at( "parallax code", w, opt, (long)(&x - (w ? b : a).data( ))); const bool clash = x.code == both.code; if( opt == 1) run( "PROG_PARALLAX", { "-f", x.code }); else if( opt == 2) run( "PROG_PARALLAX", { x.code, "-m" }); else run( "PROG_PARALLAX", { x.code });
      const S what = "parallax " + S( opt == 1 ? "-f " : "") + x.code + " ('" + x.rec + "')"; if( w && opt == 1) { if( out.find( "Couldn't find") == S::npos || !status) vh_fail( "code", "%s: found, though only the MPC's list was to be searched: '%.80s'", what.c_str( ), out.c_str( )); else vh.validated++; continue; }
      const Site &y = clash && opt != 1 ? rov : x; const ld g[2] = { y.c, y.s };
      if( y.kind == 2) { if( status || out.find( y.name) == S::npos || find( "Longitude ")) vh_fail( "code", "%s: '%.300s'", what.c_str( ), out.c_str( )); else { vh.states++; vh.validated++; } continue; }
      if( status) { vh_fail( "code", "%s: status %d '%.200s'", what.c_str( ), status, slurp( "err.txt").c_str( )); continue; }
      if( y.kind == 1) shown( what, "code", y.lat, y.lon, y.alt, 4e-10, 1e-6);
      else
         {      /* the latitude that the constants as written imply: solved here by iteration */
         ld la = atan2l( y.s, y.c), al = 0.; for( int i = 0; i < 60; i++) { ld c, s; constants( la, al, &c, &s); const ld dc = y.c - c, ds = y.s - s; la += (ds * cosl( la) - dc * sinl( la)); al += (dc * cosl( la) + ds * sinl( la)) * major_; }
         shown( what, "code", la / deg, y.lon, al, 1e-9, 1e-4, g);
         }
      if( out.find( y.name) == S::npos) vh_fail( "code", "%s: its name is not shown", what.c_str( ));
      if( y.code.size( ) == 3 && !((y.lon == 0. || y.lon == 360.) && (y.kind == 1 ? y.lat == 0. && y.alt == 0. : y.s == 0. && y.c == 1.)))        /* all three zero means the Earth's centre */
         {     /* the line to paste into 'rovers.txt' says the same place */
         const S l = split( out)[0]; mpc_code_t loc; double wrap; if( get_mpc_code_info( &loc, l.c_str( )) != 3 || loc.format != MPC_CODE_LAT_LON_ALT || strncmp( loc.name, y.name.c_str( ), y.name.size( ))) vh_fail( "rover-line", "%s: '%.200s'", what.c_str( ), l.c_str( ));
         else { wrap = remainder( loc.lon * 180. / M_PI - y.lon, 360.); if( fabs( wrap) > 2e-9 || fabs( loc.rho_cos_phi - y.c) > 1e-9 || fabs( loc.rho_sin_phi - y.s) > 1e-9) vh_fail( "rover-line", "%s: '%.120s'", what.c_str( ), l.c_str( )); else vh.validated++; }
         }
      if( opt == 2)
         {
         const char *p = find( "observatory_lat: "), *q = find( "observatory_long: "), *r = find( "observatory_alt: "), *n = find( "observatory_name: "), *cd = find( "observatory_code: "); const char *La = find( "Latitude "), *Lo = find( "Longitude "), *Al = find( "Altitude ");
         if( !p || !q || !r || !n || !cd || fabs( atof( p) - atof( La)) > 6e-7 || fabs( remainder( atof( q) - y.lon, 360.)) > 6e-7 || (Lo && fabs( remainder( atof( q) - atof( Lo), 360.)) > 6e-7) || fabs( atof( r) - atof( Al)) > 6e-6 || strncmp( n, y.name.c_str( ), y.name.size( )) || strncmp( cd, y.code.c_str( ), y.code.size( ))) vh_fail( "mpc-form", "%s: '%.900s'", what.c_str( ), out.c_str( )); else vh.validated++;
         }
      }
   auto locate = [&]( const Site &x, ld *lat, ld *lon) { *lon = x.lon * deg; if( x.kind == 1) { *lat = x.lat * deg; return; } ld la = atan2l( x.s, x.c), al = 0.; for( int i = 0; i < 60; i++) { ld c, s; constants( la, al, &c, &s); const ld dc = x.c - c, ds = x.s - s; la += (ds * cosl( la) - dc * sinl( la)); al += (dc * cosl( la) + ds * sinl( la)) * major_; } *lat = la; };
   for( size_t i = 0; i < a.size( ); i += vh.thorough ? 2 : 5) for( size_t j = 0; j < a.size( ); j += vh.thorough ? 3 : 7)
      {
      const Site &x = i % 2 ? a[i] : b[i], &y = j % 2 ? b[j] : a[j]; if( x.code.size( ) != 3 || y.code.size( ) != 3 || x.kind == 2 || y.kind == 2 || x.code == both.code || y.code == both.code) continue; if( !vh_mine( idx++)) continue; vh_at( "two codes", (long)i, (long)j); run( "PROG_PARALLAX", { x.code, y.code });
      ld la1, lo1, la2, lo2; locate( x, &la1, &lo1); locate( y, &la2, &lo2); const ld e = cosl( la2) * sinl( lo2 - lo1), n = cosl( la1) * sinl( la2) - sinl( la1) * cosl( la2) * cosl( lo2 - lo1), u = sinl( la1) * sinl( la2) + cosl( la1) * cosl( la2) * cosl( lo2 - lo1), dist = atan2l( hypotl( e, n), u) * major_ / 1000., brg = atan2l( e, n) / deg;
      ld gd, gb; const char *p = out.c_str( ); const S lead = "(" + y.code + ") is "; vh.states++; const size_t at = out.find( lead);
      const char *t = at == S::npos ? NULL : strstr( p + at, "at bearing "); const S mid = t ? out.substr( at, t - p - at) : ""; if( !t || sscanf( p + at + lead.size( ), "%Lf", &gd) != 1 || sscanf( t + 11, "%Lf", &gb) != 1 || mid.find( " km from (" + x.code + ")") == S::npos) { vh_fail( "two-codes", "%s %s: '%.200s'", x.code.c_str( ), y.code.c_str( ), p); continue; }
      if( fabsl( gd - dist) > .0006 + 1e-7 || (dist > .01 && dist < 20000. && fabsl( remainderl( gb - brg, 360.)) > .0051 + .05 / dist)) vh_fail( "two-codes", "from '%s' to '%s': %.3Lf km at %.2Lf, not %.3Lf at %.2Lf", x.rec.c_str( ), y.rec.c_str( ), gd, gb, dist, brg); else vh.validated++;
      }
   for( int v = 0; v < 3; v++) for( int w = 0; w < 2; w++)
      {
      if( !vh_mine( idx++)) continue; vh_at( "mpc_code", v, w); const S what = S( "mpc_code ") + (v == 1 ? "-v " : v == 2 ? "-k " : "") + (w ? "rovers.txt" : "ObsCodes.htm"); std::vector<S> args = { w ? "rovers.txt" : "ObsCodes.htm" }; if( v) args.push_back( v == 1 ? "-v" : "-k"); run( "PROG_MPCCODE", args); if( status) { vh_fail( "listing", "%s: status %d '%.200s'", what.c_str( ), status, slurp( "err.txt").c_str( )); continue; }
      std::vector<Site> list = w ? b : a; if( w) list.push_back( rov);
      if( v == 2)
         {
         size_t pos = 0; for( auto &x : list) { if( x.kind == 2) continue; vh.states++; const size_t p = out.find( "<name>" + x.code + "</name>", pos); size_t q = p == S::npos ? p : out.find( "<coordinates>", p); double lo, la; ld tl, to; locate( x, &tl, &to); if( q == S::npos || sscanf( out.c_str( ) + q + 13, "%lf,%lf", &lo, &la) != 2 || fabs( remainder( lo - x.lon, 360.)) > 6e-7 || fabsl( la - tl / deg) > 6e-7) { vh_fail( "map", "%s: '%s' is missing or misplaced", what.c_str( ), x.rec.c_str( )); continue; } S nm = x.name; for( size_t i; (i = nm.find( " & ")) != S::npos; ) nm.replace( i, 3, " &amp; "); if( out.substr( p, q - p).find( nm) == S::npos) vh_fail( "map", "%s: '%s' has lost its name", what.c_str( ), x.rec.c_str( )); pos = q; vh.validated++; }
         continue;
         }
      size_t n = 0; auto L = split( out); for( size_t li = 1; li + 1 < L.size( ); li++)
         {
         const S &l = L[li]; if( v == 1 && (w ? tb : ta).find( l + "\n") != S::npos && l.size( ) < 78) { bool rec = false; for( auto &x : list) if( x.rec == l) rec = true; if( !rec) continue; }
         if( n >= list.size( )) { if( l != "" && !(v == 1)) vh_fail( "listing", "%s: an extra line '%s'", what.c_str( ), l.c_str( )); continue; }
         if( v == 1 && (l.compare( 0, 1, "<") == 0 || l.compare( 0, 1, "#") == 0 || l.compare( 0, 4, "Code") == 0 || l.empty( ))) continue; const Site &x = list[n++]; vh.states++; vh_outcome( l.c_str( ));
         S f[7]; static const int lo_[] = { 0, 3, 8, 19, 30, 41, 51 }, hi_[] = { 2, 7, 18, 29, 40, 50, 61 }; if( l.size( ) < 79) { vh_fail( "listing", "%s: '%s'", what.c_str( ), l.c_str( )); continue; } for( int i = 0; i < 7; i++) f[i] = l.substr( lo_[i], hi_[i] - lo_[i]);
         ld la = 0., lon = 0.; if( x.kind != 2) locate( x, &la, &lon); ld c = 0., s = 0.; const double al = atof( f[4].c_str( )); if( x.kind != 2) constants( la, al, &c, &s); bool ok = true; S code = f[1]; while( !code.empty( ) && code.back( ) == ' ') code.pop_back( );
         if( atoi( f[0].c_str( )) != (x.kind == 2 ? -2 : 3) || code != x.code) ok = false; const S lons_ = f[2].substr( 0, x.kind ? 10 : 4 + (x.p1 ? x.p1 : 6)); double lw = x.lon; if( fabs( remainder( atof( lons_.c_str( )) - lw, 360.)) > 6e-7) ok = false;
         if( fabsl( atof( f[3].c_str( )) - la / deg) > 6e-7) ok = false; if( fabs( atof( f[5].c_str( )) - x.c) > 5.1e-8 || fabs( atof( f[6].c_str( )) - x.s) > 5.1e-8) ok = false; if( x.kind == 1 && fabs( al - x.alt) > .0006) ok = false; if( x.kind == 0 && (fabsl( c - x.c) > 1.3e-8 || fabsl( s - x.s) > 1.3e-8)) ok = false; if( l.find( x.name) == S::npos) ok = false;
         if( x.kind == 0 && (strspn( f[2].c_str( ) + 4, "0123456789") != (size_t)(x.p1 ? x.p1 : 6) || strspn( f[5].c_str( ) + 2, "0123456789") != (size_t)x.p2 || strspn( f[6].c_str( ) + 3, "0123456789") != (size_t)x.p2)) { vh_fail( "precision", "%s: '%s' for '%s'", what.c_str( ), l.c_str( ), x.rec.c_str( )); }
         if( !ok) vh_fail( "listing", "%s: '%s' for '%s'", what.c_str( ), l.c_str( ), x.rec.c_str( )); else vh.validated++;
         }
      if( n != list.size( )) vh_fail( "listing", "%s: %zu places, not %zu", what.c_str( ), n, list.size( )); if( v == 1) for( auto &c : split( w ? tb : ta)) { bool rec = false; for( auto &x : list) if( x.rec == c) rec = true; if( !rec && out.find( c) == S::npos) vh_fail( "listing", "%s: the comment '%s' is gone", what.c_str( ), c.c_str( )); }
      }
   /* (3) 'xxx2rov' */
   static const char *forms[] = { "COM Long. %d %02d %05.2f %c, Lat. %d %02d %05.2f %c, Alt. %gm, Google Earth", "COM Long. %d %02d %06.3f %c, Lat. %d %02d %06.3f %c, Alt. %g m" }; static const double places[][3] = { { 239.3125, 33.90306, 100. }, { .00003, -.00003, 0. }, { 359.99997, 89.5, 9. }, { 180., -89.99, 2835. }, { 9.5, -0.25, -411. }, { 99.99999, 45.75, 8848. }, { 10., 20., 12192. }, { 345.67891, -65.4321, 32000. }, { 120.5, -1.25, 99999. } };
   static const char *obs[] = { "     K21A00A  C2021 05 12.12345 12 34 56.78 +12 34 56.7          18.5 V      XXX", "24602         B2009 01 01.123456 2 03 04.567-01 02 03.45         9.1  R      XXX", "     ABCDEFG* C2021 05 12.12345 12 34 56.78 +12 34 56.7                      XXX", "0001P         C2021 05 12.12345 12 34 56.78 +12 34 56.7          18.5 VqDUP3bXXX" }, *others[] = { "     K21A00A  C2021 05 12.12345 12 34 56.78 +12 34 56.7          18.5 V      F51", "COM a remark that mentions XXX", "OBS A. Person", "", "     K21A00A  C2021 05 12.12345 12 34 56.78 +12 34 56.7          18.5 V      XXXx", "NET Gaia-XXX" };
   for( int p = 0; p < 9; p++) for( int q = 0; q < 9; q++) for( int o = 0; o < 4; o++) for( int crlf = 0; crlf < 2; crlf++) for( int west = 0; west < 2; west++)
      {
      if( !vh_mine( idx++)) continue; vh_at( "xxx2rov", p, q, o, crlf * 2 + west); S in; const S nl = crlf ? "\r\n" : "\n"; struct Exp { S v; double lon, lat, alt; S l; }; std::vector<Exp> want; auto plain = [&]( const S &l, const S &become) { in += l + nl; want.push_back( { become + nl, 0, 0, 0, "" }); };
      plain( "COD XXX", "COD 247"); for( int turn = 0; turn < 2; turn++)
         {
         const double *P = places[turn ? q : p], lo = west && P[0] > 180. ? 360. - P[0] : P[0], la = fabs( P[1]); const long a3 = lround( lo * 360000.), b3 = lround( la * 360000.); const double d1 = (double)(a3 % 6000) / 100., d2 = (double)(b3 % 6000) / 100.;
         const S l = fmt( forms[(p + o) % 2], (int)(a3 / 360000), (int)(a3 / 6000 % 60), d1, west && P[0] > 180. ? 'W' : 'E', (int)(b3 / 360000), (int)(b3 / 6000 % 60), d2, P[1] < 0. ? 'S' : 'N', P[2]); plain( l, l); if( turn && q == p) plain( others[3], others[3]);
         for( int k2 = 0; k2 < 2; k2++) { const S ob = obs[(o + k2 + turn) % 4]; in += ob + nl; S v = ob; v.replace( 77, 3, "247"); v[14] = 'V'; want.push_back( { v + nl, 0, 0, 0, "" }); v[14] = 'v'; Exp e; e.v = v + nl; double alon = (double)a3 / 360000.; if( west && P[0] > 180.) alon = 360. - alon; e.lon = alon; e.lat = (double)b3 / 360000. * (P[1] < 0. ? -1. : 1.); e.alt = P[2]; e.l = ob; want.push_back( e); if( k2 == 0) plain( others[(o + turn + q) % 6], others[(o + turn + q) % 6]); }
         }
      spit( "in.txt", in); run( "PROG_XXX2ROV", { "in.txt" }); if( status) { vh_fail( "xxx2rov", "status %d '%.300s' for '%.300s'", status, slurp( "err.txt").c_str( ), in.c_str( )); continue; }
      auto G = split( out); size_t i = 0; for( auto &e : want)
         {
         vh.states++; const S g = i < G.size( ) ? G[i++] + "\n" : S( "(nothing)"); if( e.l.empty( )) { if( g != e.v) { vh_fail( "xxx2rov", "'%s' should be '%s'", g.c_str( ), e.v.c_str( )); break; } vh.validated++; continue; }
         const bool whole = g.size( ) == e.v.size( ) && !g.compare( 0, 32, e.v, 0, 32) && !g.compare( 61, S::npos, e.v, 61, S::npos) && g.substr( 32, 2) == "1 "; const S f1 = whole ? g.substr( 34, 10) : "", f2 = whole ? g.substr( 45, 10) : "", f3 = whole ? g.substr( 56, 5) : ""; 
         if( !whole || fabs( remainder( atof( f1.c_str( )) - e.lon, 360.)) > 5.1e-6 || fabs( atof( f2.c_str( )) - e.lat) > 5.1e-6 || fabs( atof( f3.c_str( )) - e.alt) > .501) { vh_fail( "xxx2rov", "'%s' for '%s' at %.6f %.6f %.1f", g.c_str( ), e.v.c_str( ), e.lon, e.lat, e.alt); break; }
         vh.validated++;
         }
      if( i != G.size( )) vh_fail( "xxx2rov", "%zu lines, should be %zu", G.size( ), i);
      }
   if( vh_mine( idx++)) { vh_at( "xxx2rov without a place"); spit( "in.txt", S( obs[0]) + "\n"); run( "PROG_XXX2ROV", { "in.txt" }); vh.states++; if( !status) vh_fail( "no-place", "a place made up: '%.200s'", out.c_str( )); else vh.validated++; spit( "in.txt", S( "COM Long. 239 18 45 E, Latt. 33 54 11 N, Alt. 100m\n") + obs[0] + "\n"); run( "PROG_XXX2ROV", { "in.txt" }); if( !status) vh_fail( "no-place", "a malformed place taken: '%.200s'", out.c_str( )); else vh.validated++; }
   /* (4) 'mpc_time': every day from 1800 to 2440 */
   static const char d62[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; auto enc = [&]( long v, int n) { S r( n, '0'); while( n--) { r[n] = d62[v % 62]; v /= 62; } return r; };
   static const char *tails[] = { "", "0000E5ZY", "0000E5ZY01", "0000E5ZY010000QZe" }; static const long secs[] = { 0, 1, 59, 60, 3599, 3600, 43199, 43200, 48635, 86399, 86400, 86401, 238327 }, mss[] = { 0, 1, 9, 10, 99, 100, 500, 999, 1000, 3843 };
   for( long ymd = 0; ymd < 62L * 62 * 62; ymd++)
      {
      if( !vh_mine( idx++)) continue; const int y = 1800 + (int)(ymd / 372), m = (int)(ymd / 31 % 12) + 1, d = (int)(ymd % 31) + 1; const bool edge = d > 27 || d == 1 || ymd > 238300 || ymd < 62; if( !vh.thorough && !(edge ? (m <= 3 || m == 6 || m == 12) && (y % 20 < 2 || y > 2438) : ymd % 97 == 0)) continue;
      static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; const int len = ml[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)));
      const long sc = secs[(ymd * 7 + ymd / 62) % 13], ms = mss[(ymd * 3 + ymd / 372) % 10]; const S id = enc( ymd, 3) + enc( sc, 3) + enc( ms, 2) + tails[ymd % 4]; vh_at( "mpc_time", ymd, sc, ms); run( "PROG_MPCTIME", { id }); vh.states++;
      S want = fmt( "%04d-%02d-%02d %02ld:%02ld:%02ld.%03ld = JD ", y, m, d, sc / 3600, sc / 60 % 60, sc % 60, ms); const bool bad_day = d > len, bad_ms = ms > 999, bad_sec = sc > 86400, leap = sc == 86400, leap_ok = leap && (m == 6 || m == 12) && d == len;
      const S tail = tails[ymd % 4]; S err; if( status) err = fmt( "status %d", status); else if( out.compare( 0, want.size( ), want)) err = "should be " + want;
      else if( !bad_day && !bad_ms && !bad_sec) { const long yy = y + 4800 - (m < 3), mm = m < 3 ? m + 9 : m - 3; const double jd = (double)(d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045) - .5 + ((double)sc + ms / 1000.) / 86400.; if( fabs( atof( out.c_str( ) + want.size( )) - jd) > 6e-7) err = fmt( "should be JD %.6f", jd); }
      auto has = [&]( const char *t) { return out.find( t) != S::npos; };
      if( err.empty( ) && has( "WARNING: There are only") != bad_day) err = "about the day"; if( err.empty( ) && bad_day && !has( fmt( "only %d days", len).c_str( ))) err = "days in the month"; if( err.empty( ) && has( "milliseconds should") != bad_ms) err = "about the milliseconds"; if( err.empty( ) && has( "time of day is out") != bad_sec) err = "about the time of day"; if( err.empty( ) && (has( "invalid leap second") != (leap && !leap_ok) || has( "WARNING: This is a leap second") != leap_ok)) err = "about the leap second";
      if( err.empty( ) && has( "Submission counter: 0000E5ZY ") != (tail.size( ) >= 8)) err = "submission counter"; if( err.empty( ) && has( "batch counter: 01 ") != (tail.size( ) >= 10)) err = "sub-batch"; if( err.empty( ) && has( "sub-batch: 0000QZe ") != (tail.size( ) >= 17)) err = "observation";
      if( !err.empty( )) vh_fail( "mpc_time", "'%s': '%.300s' %s", id.c_str( ), out.c_str( ), err.c_str( )); else vh.validated++; vh_outcome( out.c_str( ));
      }
   for( int len = 0; len < 8; len++) { if( !vh_mine( idx++)) continue; vh_at( "mpc_time short", len); run( "PROG_MPCTIME", { S( "K6yCeR01").substr( 0, len) }); vh.states++; if( !status) vh_fail( "bad-id", "mpc_time, given %d characters: '%.100s'", len, out.c_str( )); else vh.validated++; }
   for( int c = 1; c < 256; c++) for( int at = 0; at < 8; at++) { if( strchr( d62, c) || !vh_mine( idx++)) continue; vh_at( "mpc_time bad", c, at); S id = "K6yCeR0100005WG401000000A"; id[at] = (char)c; run( "PROG_MPCTIME", { id }); vh.states++; if( !status) vh_fail( "bad-id", "mpc_time, given a bad character %d at %d: '%.100s'", c, at, out.c_str( )); else vh.validated++; }
   return vh_done( );
}
