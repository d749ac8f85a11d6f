/* C17 : geodesy.  Latitude and height to parallax constants and back, and the
   nearest point of an ellipse, over complete grids that include the axes, the
   centre, the evolute and their neighbourhoods, against bisection in extended
   precision. */
#include "vh.h"
#include <stddef.h>
#include <math.h>
#include "watdefs.h"
#include "lunar.h"
#include "mpc_func.h"

typedef long double LD;
static const LD pi = 3.141592653589793238462643383279502884L;
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }

/* nearest point (px, py) for x, y >= 0 */
static LD nearest( LD a, LD b, LD x, LD y, LD *px, LD *py)
{
   if( y == 0 && a * x < a * a - b * b)
      { *px = a * a * x / ( a * a - b * b); *py = b * sqrtl( 1 - *px * *px / ( a * a)); }
   else if( y == 0) { *px = a; *py = 0; }
   else if( x == 0) { *px = 0; *py = b; }
   else
      {     /* (ax / (t + a^2))^2 + (by / (t + b^2))^2 = 1, one root above -b^2;  s = t + b^2 */
      LD lo = 0, hi = b * y + a * x + a * a;
      const LD c = a * a - b * b;
      for( int i = 0; i < 400; i++)
         {
         const LD m = ( i < 200 && lo > 0 && hi / lo > 4) ? sqrtl( lo * hi) : i < 150 && !lo ? hi * 1e-3L : ( lo + hi) / 2;
         if( m == lo || m == hi) break;
         const LD u = a * x / ( m + c), v = b * y / m;
         if( u * u + v * v > 1) lo = m; else hi = m;
         }
      const LD s = ( lo + hi) / 2;
      *px = a * a * x / ( s + c); *py = b * b * y / s;
      if( *py > b) *py = b;
      if( *px > a) *px = a;
      }
   const LD d = hypotl( x - *px, y - *py);
   return ( x * x / ( a * a) + y * y / ( b * b) < 1) ? -d : d;
}
static void check( double a, double b, double x, double y, bool earth)
{
   double dist = NAN;
   vh.states++; vh.transitions += 2;
   const double lat = point_to_ellipse( a, b, x, y, &dist);
   if( point_to_ellipse( a, b, x, y, NULL) != lat && lat == lat) vh_fail( "null", "a %g b %g x %.17g y %.17g", a, b, x, y);
   LD px, py;
   const LD want = nearest( a, b, fabsl( (LD)x), fabsl( (LD)y), &px, &py);
   const LD scale = a + fabsl( (LD)x) + fabsl( (LD)y);
   if( bad( dist - want, earth ? 2e-13L * scale : 1e-11L * scale)) { vh_fail( earth ? "distance" : "ellipse-distance", "a %g b %g x %.17g y %.17g: distance %.15g, should be %.15Lg", a, b, x, y, dist, want); return; }
   /* the latitude is that of the normal at the nearest point, or (within the focal region) of one as near */
   const LD cl = cosl( (LD)lat), sl = sinl( (LD)lat), n = sqrtl( a * cl * a * cl + b * sl * b * sl);
   const LD qx = a * a * cl / n, qy = b * b * sl / n;
   const LD d = hypotl( x - qx, y - qy);
   const LD away = fabsl( want) + 1e-3L * a;
   LD err = ( d - fabsl( want));
   if( bad( err, earth ? 2e-13L * scale : ( std::min( fabs( x), fabs( y)) < .02 * a ? 2e-8L : 1e-9L) * scale)) { vh_fail( earth ? "latitude" : "ellipse-latitude", "a %g b %g x %.17g y %.17g: latitude %.17g is %.15Lg away, nearest is %.15Lg", a, b, x, y, lat, d, want); return; }
   /* away from the evolute the nearest point is well defined : compare directly */
   const LD sx = x < 0 ? -px : px, sy = y < 0 ? -py : py;
   const LD c43 = cbrtl( ( a * a - b * b) * ( a * a - b * b));
   const LD gap = c43 > 0 ? fabsl( cbrtl( (LD)a * x * a * x) + cbrtl( (LD)b * y * b * y) - c43) / c43 : 1;     /* from the evolute, where nearest points merge */
   const LD k = fabsl( fabsl( (LD)y)) > .02L * a || fabsl( (LD)x) > ( a * a - b * b) / a * 1.05L + .02L * a ? 1 : 0;
   if( k && hypotl( qx - sx, qy - sy) > ( std::min( fabs( x), fabs( y)) < .02 * a ? 1e-7L : b < .5 * a ? 1e-7L : 1e-9L + 1e-11L / ( gap + 1e-6L)) * scale) { vh_fail( earth ? "latitude" : "ellipse-latitude", "a %g b %g x %.17g y %.17g: latitude %.17g, %.3Lg from the nearest point", a, b, x, y, lat, hypotl( qx - sx, qy - sy)); return; }
   (void)away;
   vh.validated++;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   int idx = 0;
   /* planets: latitude and height to parallax constants */
   static const double alts[] = { 0., 1., -1., 100., -430., 8848.86, 2635., 1e5, 4e5, 2.02e7, 3.5786e7, 3.844e8, -1e4, -1e6 };
   const int n_lat = vh.thorough ? 20000 : 4000;
   for( int p = 0; p < 15; p++)
      for( int l = -2 * n_lat; l <= 2 * n_lat; l++)
         if( vh_mine( idx++))
            for( unsigned k = 0; k < sizeof( alts) / sizeof( *alts); k++)
               for( int off = 0; off < ( l % ( n_lat / 4) ? 1 : 7); off++)
                  {
                  static const double offs[7] = { 0., 1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9 };
                  const double lat = l * M_PI / 2. / n_lat + offs[off], major = planet_radius_in_meters( p), minor = major * planet_axis_ratio( p);
                  if( p != 3 && ( l & 31)) continue;
                  vh_at( "planet", p, l, k, off);
                  double c = NAN, s = NAN;
                  vh.states++; vh.transitions++;
                  lat_alt_to_parallax( lat, alts[k], &c, &s, major, minor);
                  const LD cl = cosl( (LD)lat), sl = sinl( (LD)lat), r = (LD)minor / major, n = 1 / sqrtl( cl * cl + r * r * sl * sl);
                  const LD wc = ( n + (LD)alts[k] / major) * cl, ws = ( n * r * r + (LD)alts[k] / major) * sl;
                  const LD tol = 4e-16L * ( 1 + fabs( alts[k]) / major);
                  if( bad( c - wc, tol) || bad( s - ws, tol)) vh_fail( "parallax", "planet %d latitude %.12f height %g: %.16f %.16f, should be %.16Lf %.16Lf", p, lat, alts[k], c, s, wc, ws);
                  else vh.validated++;
                  if( fabs( lat) > M_PI || ( p != 3 && alts[k] < -1e4)) continue;
                  /* and back */
                  double d = NAN;
                  vh.transitions++;
                  const double back = point_to_ellipse( 1., planet_axis_ratio( p), c, s, &d);
                  const LD h = 1 + fabs( alts[k]) / major;
                  const LD dl = remainderl( (LD)back - lat, 2 * pi);
                  if( bad( dl, ( fabs( remainder( lat, M_PI / 2)) < .01 ? 1e-8L : 3e-12L) * h) || bad( d * (LD)major - alts[k], 3e-13L * h * major)) vh_fail( "parallax-inverse", "planet %d latitude %.15f height %g: back to %.15f and %.7f", p, lat, alts[k], back, d * major);
                  else vh.validated++;
                  vh_outcome( vh_hash( &back, 8));
                  }
   static const LD re[15] = { 695700e3L, 2440530, 6051800, 6378137, 3396190, 71492e3L, 60268e3L, 25559e3L, 24764e3L, 1188300, 1737400, 1821490, 1560800, 2631200, 2410300 };
   static const LD rp[9] = { 695700e3L, 2438260, 6051800, 6356752.314140347L, 3376200, 66854e3L, 54364e3L, 24973e3L, 24341e3L };
   for( int p = -40; p < 60; p++)
      {
      vh_at( "size", p);
      const LD w = p >= 0 && p < 15 ? re[p] : 0, r = p >= 0 && p < 9 ? rp[p] / re[p] : 1;
      vh.states++; vh.transitions += 2;
      if( bad( planet_radius_in_meters( p) - w, 1e-9L * w) || bad( planet_axis_ratio( p) - r, 1e-15L)) vh_fail( "size", "body %d: radius %.9g, ratio %.15g; should be %.9Lg, %.15Lg", p, planet_radius_in_meters( p), planet_axis_ratio( p), w, r);
      else vh.validated++;
      }
   /* ellipses of every shape */
   static const double shapes[] = { 1., 1. - 1e-15, 1. - 1e-9, .9999, 6356752.314140347 / 6378137., .99, .9, .7, .5, .2, .1, .05 };
   static const double offs[] = { 0., 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, .03 };
   const int N = vh.thorough ? 400 : 120;
   for( int sh = 0; sh < 12; sh++)
      for( int i = 0; i <= N; i++)
         if( vh_mine( idx++))
            for( int j = 0; j <= N; j++)
               for( int sc = 0; sc < 3; sc++)
                  {
                  const double a = sc == 0 ? 1. : sc == 1 ? 30.07 : .3, b = a * shapes[sh];
                  vh_at( "ellipse", sh, i, j, sc);
                  const double g = 2.4 / N;
                  check( a, b, i * g * a, j * g * a, false);
                  if( sc == 0 && ( i * 7 + j) % 5 == 0)
                     { check( a, b, -i * g, j * g, false); check( a, b, i * g, -j * g, false); check( a, b, -i * g, -j * g, false); }
                  if( sc == 0 && j == 0)
                     for( int o = 0; o < 7; o++) { check( a, b, i * g, offs[o], false); check( a, b, offs[o], i * g, false); check( a, b, -offs[o], i * g, false); check( a, b, i * g, -offs[o], false); }
                  if( sc == 0 && j < 7)      /* on and about the ellipse, and the evolute */
                     for( int sg = -1; sg <= 1; sg += 2)
                        {
                        const double u = i * M_PI / 2. / N, k = 1. + sg * offs[j], c2 = a * a - b * b;
                        check( a, b, a * cos( u) * k, b * sin( u) * k, false);
                        check( a, b, c2 / a * cos( u) * k, c2 / b * sin( u) * k, false);        /* where the method's cubic is degenerate */
                        check( a, b, c2 / a * pow( cos( u), 3.) * k, c2 / b * pow( sin( u), 3.) * k, false);
                        }
                  if( sc == 0 && i == j) { check( a, b, i * 10. + 3., j * 1000., false); check( a, b, i * 1000., j * .1, false); check( a, b, i * 1e5, 3., false); }
                  }
   return vh_done( );
}
