/* C42: distances and bearings between places on the Earth (dist.cpp).  The expected geodesics come from Bessel's
   integrals on the auxiliary sphere, by quadrature in long double, with no series in the flattening. */
#include "vh.h"
#include <map>
#define main dist_main
#include "dist.cpp"
#undef main
#include "vsopbin.h"
struct Geo { ld lat, lon, az; };
static ld GX[24], GW[24];
static void gauss( ) { const int n = 24; for( int i = 0; i < n; i++) { ld x = cosl( pi_ * (i + .75L) / (n + .5L)), d = 0; for( int it = 0; it < 40; it++) { ld p0 = 1, p1 = x; for( int k = 2; k <= n; k++) { const ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } d = n * (x * p1 - p0) / (x * x - 1); x -= p1 / d; } GX[i] = x; GW[i] = 2 / ((1 - x * x) * d * d); } }
/* a geodesic from 'lat' (radians) in the direction 'az', on an ellipsoid of unit equatorial radius */
struct Line
{
   ld f, b, sa0, ca0, k2, s1, w1, lon0, S1, C1;   /* S1, C1: of the arc from the equator, kept apart so that nothing is lost at the poles */
   Line( ld lat, ld lon, ld az, ld fl) { f = fl; b = 1 - f; const ld u = atan2l( b * sinl( lat), cosl( lat)); sa0 = sinl( az) * cosl( u); ca0 = hypotl( cosl( az), sinl( az) * sinl( u)); S1 = sinl( u); C1 = cosl( u) * cosl( az); { const ld h = hypotl( S1, C1); S1 /= h; C1 /= h; } s1 = atan2l( S1, C1); w1 = atan2l( sa0 * S1, C1); k2 = ca0 * ca0 * (1 - b * b) / (b * b); lon0 = lon; }
   template<class F> ld quad( F fn, ld a, ld c) const { ld t = 0; const int parts = 4; for( int j = 0; j < parts; j++) { const ld lo = a + (c - a) * j / parts, hi = a + (c - a) * (j + 1) / parts; for( int i = 0; i < 24; i++) t += GW[i] * fn( (lo + hi) / 2 + (hi - lo) / 2 * GX[i]) * (hi - lo) / 2; } return t; }
   ld length( ld arc) const { const ld k = k2; return b * quad( [k]( ld s) { return sqrtl( 1 + k * sinl( s) * sinl( s)); }, s1, s1 + arc); }
   ld arc_for( ld s) const { ld a = s / b; for( int i = 0; i < 12; i++) { const ld e = length( a) - s; a -= e / (b * sqrtl( 1 + k2 * sinl( s1 + a) * sinl( s1 + a))); if( fabsl( e) < 1e-18L) break; } return a; }
   Geo at( ld arc) const
   {
      const ld s2 = s1 + arc, k = k2, g = 1 - f, ff = f; Geo r; const ld S2 = S1 * cosl( arc) + C1 * sinl( arc), C2 = C1 * cosl( arc) - S1 * sinl( arc), su = ca0 * S2, cu = hypotl( sa0, ca0 * C2); r.lat = atan2l( su, b * cu); r.az = atan2l( sa0, ca0 * C2);
      ld w = atan2l( sa0 * S2, C2) - w1; const ld I = quad( [k, g, ff]( ld s) { return (2 - ff) / (1 + g * sqrtl( 1 + k * sinl( s) * sinl( s))); }, s1, s2); r.lon = lon0 + w - f * sa0 * I; return r;
   }
};
static void vec( ld lat, ld lon, ld f, ld *v) { const ld b = 1 - f, u = atan2l( b * sinl( lat), cosl( lat)); v[0] = cosl( u) * cosl( lon); v[1] = cosl( u) * sinl( lon); v[2] = b * sinl( u); }
static ld apart( ld la, ld lo, ld lb, ld ob, ld f) { ld p[3], q[3], s = 0; vec( la, lo, f, p); vec( lb, ob, f, q); for( int i = 0; i < 3; i++) s += (p[i] - q[i]) * (p[i] - q[i]); return sqrtl( s); }
static ld angle( ld la, ld lo, ld lb, ld ob) { ld p[3], q[3], c[3]; vec( la, lo, 0, p); vec( lb, ob, 0, q); for( int i = 0; i < 3; i++) c[i] = p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]; return atan2l( sqrtl( c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), p[0] * q[0] + p[1] * q[1] + p[2] * q[2]); }
/* the shortest geodesic: put in order (the place farther from the equator first, in the south), there is one bearing that leads to the longitude, found by bisection */
static ld shortest( ld la, ld lo, ld lb, ld ob, ld f)
{
   const ld b = 1 - f; ld u1 = atan2l( b * sinl( la), cosl( la)), u2 = atan2l( b * sinl( lb), cosl( lb)); const ld L = fabsl( remainderl( ob - lo, 2 * pi_)); if( fabsl( u1) < fabsl( u2)) std::swap( u1, u2); if( u1 > 0) { u1 = -u1; u2 = -u2; } 
   if( u1 > -1e-15L)    /* both on the equator: along it, unless they are nearly opposite */
      {
      if( L <= (1 - f) * pi_) return L; ld lo_a = 0, hi_a = pi_ / 2, s = 0; const Line l( 0, 0, 0, f);
      for( int i = 0; i < 64; i++) { const ld m = (lo_a + hi_a) / 2, k2 = cosl( m) * cosl( m) * (1 - b * b) / (b * b), g = b, ff = f; s = b * l.quad( [k2]( ld t) { return sqrtl( 1 + k2 * sinl( t) * sinl( t)); }, 0, pi_); if( pi_ - f * sinl( m) * l.quad( [k2, g, ff]( ld t) { return (2 - ff) / (1 + g * sqrtl( 1 + k2 * sinl( t) * sinl( t))); }, 0, pi_) > L) lo_a = m; else hi_a = m; }
      return s;
      }
   ld lo_a = 0, hi_a = pi_, s = 0; const ld c1 = cosl( u1), c2 = cosl( u2), s_1 = sinl( u1), s_2 = sinl( u2);
   auto solve = [&]( ld a, ld *len) {
      const ld sa0 = sinl( a) * c1, ca0 = hypotl( cosl( a), sinl( a) * s_1), ca1 = cosl( a) * c1; ld q = ca1 * ca1 + (s_1 - s_2) * (s_1 + s_2); if( q < 0) q = 0; const ld ca2 = sqrtl( q);
      const ld sg1 = atan2l( s_1, ca1); ld sg2 = atan2l( s_2, ca2); const ld w1 = atan2l( sa0 * s_1, ca1), w2 = atan2l( sa0 * s_2, ca2); ld w = w2 - w1; if( sg2 < sg1 - 1e-15L) sg2 += 2 * pi_; if( w < -1e-12L) w += 2 * pi_; const ld k2 = ca0 * ca0 * (1 - b * b) / (b * b);
      Line l( 0, 0, 0, f); const ld g = b, ff = f; const ld I = l.quad( [k2, g, ff]( ld t) { return (2 - ff) / (1 + g * sqrtl( 1 + k2 * sinl( t) * sinl( t))); }, sg1, sg2);
      if( len) *len = b * l.quad( [k2]( ld t) { return sqrtl( 1 + k2 * sinl( t) * sinl( t)); }, sg1, sg2); return w - f * sa0 * I; };
   for( int i = 0; i < 66; i++) { const ld m = (lo_a + hi_a) / 2; if( solve( m, NULL) < L) lo_a = m; else hi_a = m; }
   solve( (lo_a + hi_a) / 2, &s); return s;
}
static ld wd = 0, wi = 0, wl = 0, wa = 0, wb = 0, ws = 0, wo = 0; static bool measure;
static const ld TD = 1e-10L;
/* the shortest line between two places: it leads there, comes in on the bearing given, and is no longer than 'known' (if any) */
static void inverse( ld la, ld lo, ld lb, ld ob, ld f)
{
   const ld known = shortest( la, lo, lb, ob, f);
   double az = -9., back = -9.; const double d = vincenty_earth_dist( (double)la, (double)lo, (double)lb, (double)ob, (double)f, &az, &back), d2 = vincenty_earth_dist( (double)la, (double)lo, (double)lb, (double)ob, (double)f, NULL, NULL); vh.states++; vh.transitions += 2; vh_outcome( vh_hash( &d, sizeof d));
   const Line l( la, lo, az, f); const Geo g = l.at( l.arc_for( d)); const ld e = apart( g.lat, g.lon, lb, ob, f), db = fabsl( remainderl( g.az - back, 2 * pi_)) * cosl( lb); if( d > 1e-6) wb = std::max( wb, db * std::min( (ld)d, 1.L)); const bool near_ = fabsl( remainderl( ob - lo, 2 * pi_)) > (1 - 3 * f) * pi_ && fabsl( la + lb) < .05L; const ld lim = near_ ? 2e-8L : 1e-10L; if( !near_) wi = std::max( wi, e); if( !near_) wl = std::max( wl, fabsl( d - known));
   bool ok = e < lim && d == d2 && d >= 0. && fabsl( d - known) < (near_ ? 1e-8L : 1e-10L) && az >= 0. && az <= 2 * pi_ + 1e-9 && back >= 0. && back <= 2 * pi_ + 1e-9 && (d < 1e-6 || db * std::min( (ld)d, 1.L) < 3e-8L);
   if( !ok && !measure) vh_fail( "inverse", "from %.9Lf %.9Lf to %.9Lf %.9Lf (flattening %.6Lf): %.10f along %.9f leads %.3Lg away, arriving on %.9f, not %.9Lf; %.3Lg longer than the shortest", la / D2R, lo / D2R, lb / D2R, ob / D2R, f, d, az / (double)D2R, e, back / (double)D2R, g.az / D2R, d - known); else vh.validated++;
   /* the sphere, and Andoyer's formula: exact for a sphere, and to the square of the flattening away from the antipodes */
   const ld ang = angle( la, lo, lb, ob); const double sp = spherical_earth_dist( (double)la, (double)lo, (double)lb, (double)ob), an = earth_dist( (double)la, (double)lo, (double)lb, (double)ob, (double)f); vh.transitions += 2; ws = std::max( ws, fabsl( sp - ang)); if( !(fabsl( sp - ang) < 3e-14L)) vh_fail( "sphere", "from %.9Lf %.9Lf to %.9Lf %.9Lf: %.17g, not %.17Lg", la / D2R, lo / D2R, lb / D2R, ob / D2R, sp, ang); else vh.validated++;
   const ld ae = fabsl( an - d), alim = f * f * d * 5 + 2e-8L; if( ang < 2.9 || f == 0.) { if( ang < 2.9) wa = std::max( wa, f > 0 ? ae / (f * f * d + 1e-15L) : ae); if( !(ae < alim)) vh_fail( "andoyer", "from %.9Lf %.9Lf to %.9Lf %.9Lf (flattening %.6Lf): %.12g, not %.12g", la / D2R, lo / D2R, lb / D2R, ob / D2R, f, an, d); else vh.validated++; }
}
static void grid( const std::vector<ld> &lats, const std::vector<ld> &azs, const std::vector<ld> &arcs)
{
   static const ld fl[] = { 0.L, 1 / 298.257223563L, 1 / 297.L, 1 / 150.L }; int idx = 0;
   for( ld f : fl) for( ld la : lats) for( ld az : azs)
      {
      if( idx++ % vh.nshards != vh.shard) continue; const ld lo = D2R * ((idx * 37) % 720 - 360); const double lad = (double)(la * D2R), lod = (double)lo, azd = (double)(az * D2R); const Line l( lad, lod, azd, f);
      for( ld arc : arcs)
         {
         vh_at( "line", (long)(1e6 * f), (long)la, (long)az); vh_d( (double)arc); const ld a = arc * D2R, s = l.length( a); const Geo g = l.at( a); double la2 = 9., lo2 = 99.; vincenty_direct( lad, lod, &la2, &lo2, (double)f, azd, (double)s); vh.states++; vh.transitions++;
         const ld e = apart( g.lat, g.lon, la2, lo2, f), lim = f > .005 ? 4e-9L : TD; if( f < .005) wd = std::max( wd, e); if( !(e < lim) && !measure) vh_fail( "direct", "from %.6Lf along %.6Lf for %.9Lf (flattening %.6Lf): %.9f %.9f, %.3Lg from %.9Lf %.9Lf", la, az, s, f, la2 / (double)D2R, (lo2 - lod) / (double)D2R, e, g.lat / D2R, (g.lon - lod) / D2R); else vh.validated++;
         inverse( lad, lod, (double)g.lat, (double)g.lon, f > .005 ? 1 / 298.257223563L : f);
         }
      }
}
static void antipodes( const std::vector<ld> &lats, const std::vector<ld> &offs)
{
   const ld f = 1 / 298.257223563L; int idx = 0;
   for( ld la : lats) for( ld da : offs) for( ld dl : offs) for( int side = -1; side <= 1; side += 2)
      { if( idx++ % vh.nshards != vh.shard) continue; vh_at( "antipode", (long)la); vh_d( (double)da); vh_d( (double)(side * dl)); ld lb = -la + da; if( fabsl( lb) > 90) continue; inverse( (double)(la * D2R), 0, (double)(lb * D2R), (double)(side * (180 - fabsl( dl)) * D2R), f); }
}
static void program( )
{
   static const double q[][4] = { { 44.01, -69.9, 51.5, 0. }, { -33.9, 18.4, -34.6, -58.4 }, { 0., 0., 0., 90. }, { 60., 170., 61., -170. }, { 90., 0., -45., 12. }, { 20., 30., 20., 30. }, { 30., 0., -30., 180. }, { 30., 0., -29.9, 179.8 }, { 0., 0., 0., 180. } };
   for( auto &p : q)
      {
      vh_at( "program", (long)p[0]); char a[4][40]; for( int i = 0; i < 4; i++) snprintf( a[i], 40, "%g", p[i]); run( "PROG_DIST", { a[0], a[1], a[2], a[3] }); vh.states++; const ld f = 1 / 298.257223563L; double v[6] = { -1, -1, -1, -1, -1, -1 }; const char *o = out.c_str( ); const char *t;
      if( (t = strstr( o, "'round earth': ")) != NULL) v[0] = atof( t + 15); if( (t = strstr( o, "Andoyer: ")) != NULL) v[1] = atof( t + 9); if( (t = strstr( o, "from Vincenty: ")) != NULL) v[2] = atof( t + 15); if( (t = strstr( o, "Azimuth ")) != NULL) sscanf( t + 8, "%lf (back az: %lf", &v[3], &v[4]); double dl = 999, dn = 999; if( (t = strstr( o, "direct: ")) != NULL) sscanf( t + 8, "%lf %lf", &dl, &dn);
      const Line l( p[0] * (double)D2R, p[1] * D2R, v[3] * D2R, f); const Geo g = l.at( l.arc_for( v[2] / 6378.137L)); const bool anti = v[2] > 19900.;
      if( !(fabsl( v[0] - 6371.L * angle( p[0] * D2R, p[1] * D2R, p[2] * D2R, p[3] * D2R)) < 1e-5) || !(apart( g.lat, g.lon, p[2] * D2R, p[3] * D2R, f) < (anti ? 2e-8 : 3e-9)) || !(apart( dl * D2R, dn * D2R, p[2] * D2R, p[3] * D2R, f) < (anti ? 2e-8 : 3e-9)) || !(fabs( v[1] - v[2]) < (anti ? 1000. : .3))) vh_fail( "dist", "from %g %g to %g %g: '%s'", p[0], p[1], p[2], p[3], o); else vh.validated++;
      if( v[2] > 0. && !anti) { char d[40], z[40]; snprintf( d, 40, "%.6f", v[2]); snprintf( z, 40, "%.9f", v[3]); run( "PROG_DIST", { a[0], a[1], d, z, "-d" }); o = out.c_str( ); double r = -999; dl = dn = 999; if( (t = strstr( o, "direct: ")) != NULL) sscanf( t + 8, "%lf %lf", &dl, &dn); if( (t = strstr( o, "az: ")) != NULL) r = atof( t + 4); if( !(apart( dl * D2R, dn * D2R, p[2] * D2R, p[3] * D2R, f) < (anti ? 2e-8 : 3e-9)) || !(fabs( remainder( r - v[4], 360.)) < 1e-4)) vh_fail( "dist-direct", "from %g %g for %s along %s: '%s'", p[0], p[1], d, z, o); else vh.validated++; }
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); gauss( ); measure = getenv( "TOL") != NULL; const bool t = vh.thorough; std::vector<ld> la, az, arc, an, of;
   for( ld x = -90; x <= 90; x += t ? 5 : 15) la.push_back( x); for( ld x : { -89.9999999L, -.001L, .25L, 44.01L, 89.99L }) la.push_back( x);
   for( ld x = 0; x < 360; x += t ? 5 : 15) az.push_back( x); for( ld x : { .0001L, 89.9999L, 90.01L, 180.0001L, 269.9999L, 359.999L }) az.push_back( x);
   for( ld x = 0; x <= 175; x += t ? 2.5L : 5) arc.push_back( x); for( ld x : { 1e-9L, 1e-6L, .0001L, .01L, 1.L, 177.L, 178.5L }) arc.push_back( x);
   grid( la, az, arc);
   for( ld x = -90; x <= 90; x += t ? 3 : 10) an.push_back( x); an.push_back( 0.001L); an.push_back( -45.5L);
   for( ld x : { 0.L, 1e-9L, 1e-7L, 1e-5L, .001L, .01L, .1L, .2L, .3L, .5L, .55L, .59L, .6L, .605L, .61L, .65L, .7L, .9L, 1.L, 1.5L }) { of.push_back( x); if( x > 0) of.push_back( -x); } if( t) for( ld x = -1.48L; x < 1.5L; x += .08L) of.push_back( x);
   antipodes( an, of); if( !vh.shard) program( );
   if( measure) vh_fail( "worst", "direct %.3Lg inverse %.3Lg longer %.3Lg andoyer %.3Lg f^2, arrival %.3Lg sphere %.3Lg", wd, wi, wl, wa, wb, ws);
   return vh_done( );
}
