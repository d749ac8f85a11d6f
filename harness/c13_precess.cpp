/* C13 : precession, nutation, obliquity.  Histories of calls (the functions
   cache their last result) and a complete grid of epochs against the published
   theories. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"

typedef long double LD;
/* IAU 1980 nutation: multiples of l, l', F, D, Omega; longitude (0.1 mas), per century (0.01 mas), obliquity, per century.
   The twelve obliquity terms of at most 0.2 mas which Meeus leaves out are left out. */
static const int nut80[106][9] = {
   {0,0,0,0,1,-171996,-1742,92025,89}, {0,0,0,0,2,2062,2,-895,5}, {-2,0,2,0,1,46,0,-24,0}, {2,0,-2,0,0,11,0,0,0}, {-2,0,2,0,2,-3,0,0,0},
   {1,-1,0,-1,0,-3,0,0,0}, {0,-2,2,-2,1,-2,0,1,0}, {2,0,-2,0,1,1,0,0,0}, {0,0,2,-2,2,-13187,-16,5736,-31}, {0,1,0,0,0,1426,-34,54,-1},
   {0,1,2,-2,2,-517,12,224,-6}, {0,-1,2,-2,2,217,-5,-95,3}, {0,0,2,-2,1,129,1,-70,0}, {2,0,0,-2,0,48,0,0,0}, {0,0,2,-2,0,-22,0,0,0},
   {0,2,0,0,0,17,-1,0,0}, {0,1,0,0,1,-15,0,9,0}, {0,2,2,-2,2,-16,1,7,0}, {0,-1,0,0,1,-12,0,6,0}, {-2,0,0,2,1,-6,0,3,0},
   {0,-1,2,-2,1,-5,0,3,0}, {2,0,0,-2,1,4,0,0,0}, {0,1,2,-2,1,4,0,0,0}, {1,0,0,-1,0,-4,0,0,0}, {2,1,0,-2,0,1,0,0,0},
   {0,0,-2,2,1,1,0,0,0}, {0,1,-2,2,0,-1,0,0,0}, {0,1,0,0,2,1,0,0,0}, {-1,0,0,1,1,1,0,0,0}, {0,1,2,-2,0,-1,0,0,0},
   {0,0,2,0,2,-2274,-2,977,-5}, {1,0,0,0,0,712,1,-7,0}, {0,0,2,0,1,-386,-4,200,0}, {1,0,2,0,2,-301,0,129,-1}, {1,0,0,-2,0,-158,0,0,0},
   {-1,0,2,0,2,123,0,-53,0}, {0,0,0,2,0,63,0,0,0}, {1,0,0,0,1,63,1,-33,0}, {-1,0,0,0,1,-58,-1,32,0}, {-1,0,2,2,2,-59,0,26,0},
   {1,0,2,0,1,-51,0,27,0}, {0,0,2,2,2,-38,0,16,0}, {2,0,0,0,0,29,0,0,0}, {1,0,2,-2,2,29,0,-12,0}, {2,0,2,0,2,-31,0,13,0},
   {0,0,2,0,0,26,0,0,0}, {-1,0,2,0,1,21,0,-10,0}, {-1,0,0,2,1,16,0,-8,0}, {1,0,0,-2,1,-13,0,7,0}, {-1,0,2,2,1,-10,0,5,0},
   {1,1,0,-2,0,-7,0,0,0}, {0,1,2,0,2,7,0,-3,0}, {0,-1,2,0,2,-7,0,3,0}, {1,0,2,2,2,-8,0,3,0}, {1,0,0,2,0,6,0,0,0},
   {2,0,2,-2,2,6,0,-3,0}, {0,0,0,2,1,-6,0,3,0}, {0,0,2,2,1,-7,0,3,0}, {1,0,2,-2,1,6,0,-3,0}, {0,0,0,-2,1,-5,0,3,0},
   {1,-1,0,0,0,5,0,0,0}, {2,0,2,0,1,-5,0,3,0}, {0,1,0,-2,0,-4,0,0,0}, {1,0,-2,0,0,4,0,0,0}, {0,0,0,1,0,-4,0,0,0},
   {1,1,0,0,0,-3,0,0,0}, {1,0,2,0,0,3,0,0,0}, {1,-1,2,0,2,-3,0,0,0}, {-1,-1,2,2,2,-3,0,0,0}, {-2,0,0,0,1,-2,0,1,0},
   {3,0,2,0,2,-3,0,0,0}, {0,-1,2,2,2,-3,0,0,0}, {1,1,2,0,2,2,0,-1,0}, {-1,0,2,-2,1,-2,0,1,0}, {2,0,0,0,1,2,0,-1,0},
   {1,0,0,0,2,-2,0,1,0}, {3,0,0,0,0,2,0,0,0}, {0,0,2,1,2,2,0,-1,0}, {-1,0,0,0,2,1,0,-1,0}, {1,0,0,-4,0,-1,0,0,0},
   {-2,0,2,2,2,1,0,-1,0}, {-1,0,2,4,2,-2,0,1,0}, {2,0,0,-4,0,-1,0,0,0}, {1,1,2,-2,2,1,0,-1,0}, {1,0,2,2,1,-1,0,1,0},
   {-2,0,2,4,2,-1,0,1,0}, {-1,0,4,0,2,1,0,0,0}, {1,-1,0,-2,0,1,0,0,0}, {2,0,2,-2,1,1,0,-1,0}, {2,0,2,2,2,-1,0,0,0},
   {1,0,0,2,1,-1,0,0,0}, {0,0,4,-2,2,1,0,0,0}, {3,0,2,-2,2,1,0,0,0}, {1,0,2,-2,0,-1,0,0,0}, {0,1,2,0,1,1,0,0,0},
   {-1,-1,0,2,1,1,0,0,0}, {0,0,-2,0,1,-1,0,0,0}, {0,0,2,-1,2,-1,0,0,0}, {0,1,0,2,0,-1,0,0,0}, {1,0,-2,-2,0,-1,0,0,0},
   {0,-1,2,0,1,-1,0,0,0}, {1,1,0,-2,1,-1,0,0,0}, {1,0,-2,2,0,-1,0,0,0}, {2,0,0,2,0,1,0,0,0}, {0,0,2,4,2,-1,0,0,0},
   {0,1,0,1,0,1,0,0,0} };
static const LD pi = 3.141592653589793238462643383279502884L, AS = pi / 648000.L;

/* 'known' gives the series as the tree evaluates it today: the parts proportional to time
   are attached to the wrong terms (recorded in known_findings.txt). */
static LD secular( const int *r, int which, bool known)
{
   if( !known) return r[which ? 8 : 6];
   static const int k[5][7] = { { 0, 0, 0, 0, 1, -1742, 89 }, { 0, 0, 2, -2, 2, -16, -31 }, { 0, 0, 2, 0, 2, -34, -1 }, { 0, 0, 0, 0, 2, -4, 0 }, { 0, 1, 2, -2, 2, -1, 0 } };
   for( auto &x : k) if( !memcmp( x, r, 5 * sizeof( int))) return x[which ? 6 : 5];
   return 0;
}
static void ref_nutation( LD t, LD *dl, LD *de, bool known = false)
{
   const LD D = 297.85036L + 445267.111480L * t - .0019142L * t * t + t * t * t / 189474.L;
   const LD M = 357.52772L + 35999.050340L * t - .0001603L * t * t - t * t * t / 300000.L;
   const LD Mp = 134.96298L + 477198.867398L * t + .0086972L * t * t + t * t * t / 56250.L;
   const LD F = 93.27191L + 483202.017538L * t - .0036825L * t * t + t * t * t / 327270.L;
   const LD Om = 125.04452L - 1934.136261L * t + .0020708L * t * t + t * t * t / 450000.L;
   *dl = *de = 0;
   for( auto &r : nut80)
      {
      const LD a = fmodl( r[0] * Mp + r[1] * M + r[2] * F + r[3] * D + r[4] * Om, 360.L) * pi / 180.L;
      *dl += ( r[5] + secular( r, 0, known) * t / 10.L) * 1e-4L * sinl( a);
      *de += ( r[7] + secular( r, 1, known) * t / 10.L) * 1e-4L * cosl( a);
      }
}
static LD ref_obliquity( LD t)
{
   LD u = t / 100.L;
   if( u > 1.L) u = 1.L;
   if( u < -1.L) u = -1.L;
   static const LD c[11] = { 84381.448L, -4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L };
   LD r = 0;
   for( int i = 10; i >= 0; i--) r = r * u + c[i];
   return r * AS;
}
struct M3 { LD a[9]; };
static M3 mul( const M3 &x, const M3 &y)
{ M3 r; for( int i = 0; i < 3; i++) for( int j = 0; j < 3; j++) { r.a[i * 3 + j] = 0; for( int k = 0; k < 3; k++) r.a[i * 3 + j] += x.a[i * 3 + k] * y.a[k * 3 + j]; } return r; }
static M3 tr( const M3 &x) { M3 r; for( int i = 0; i < 3; i++) for( int j = 0; j < 3; j++) r.a[i * 3 + j] = x.a[j * 3 + i]; return r; }
static M3 R1( LD t) { return M3{ { 1, 0, 0, 0, cosl( t), sinl( t), 0, -sinl( t), cosl( t) } }; }
static M3 R2( LD t) { return M3{ { cosl( t), 0, -sinl( t), 0, 1, 0, sinl( t), 0, cosl( t) } }; }
static M3 R3( LD t) { return M3{ { cosl( t), sinl( t), 0, -sinl( t), cosl( t), 0, 0, 0, 1 } }; }
/* J2000 ecliptic and equinox -> those of date (Lieske, 1977) */
static M3 ref_ecl0( double year)
{
   const LD t = ( (LD)year - 2000.L) / 100.L;
   const LD eta = t * ( 47.0029L + t * ( -.03302L + 6e-5L * t)) * AS;
   const LD Pi = 174.876384L * pi / 180.L + t * ( -869.8089L + .03536L * t) * AS;
   const LD p = t * ( 5029.0966L + t * ( 1.11113L - 6e-6L * t)) * AS;
   return mul( R3( -Pi - p), mul( R1( eta), R3( Pi)));
}
static M3 ref_ecl( double y1, double y2)
{
   if( fabs( y1 - y2) < 1e-5) return R1( 0);
   return mul( ref_ecl0( y2), tr( ref_ecl0( y1)));
}
static M3 ref_equ( double y1, double y2)
{ return mul( R1( -ref_obliquity( ( (LD)y2 - 2000.L) / 100.L)), mul( ref_ecl( y1, y2), R1( ref_obliquity( ( (LD)y1 - 2000.L) / 100.L)))); }
static M3 ref_equ0_direct( double y)
{
   const LD t = ( (LD)y - 2000.L) / 100.L;
   const LD zeta = t * ( 2306.2181L + t * ( .30188L + .017998L * t)) * AS, z = t * ( 2306.2181L + t * ( 1.09468L + .018203L * t)) * AS;
   const LD th = t * ( 2004.3109L - t * ( .42665L + .041833L * t)) * AS;
   return mul( R3( -z), mul( R2( th), R3( -zeta)));
}
static M3 ref_full( double y, double dl, double de, bool known)
{
   const LD t = ( (LD)y - 2000.L) / 100.L, eps = ref_obliquity( t);
   LD psi, deps;
   ref_nutation( t, &psi, &deps, known);
   psi = psi * AS + dl; deps = deps * AS + de;
   return mul( R3( psi * cosl( eps)), mul( R1( -eps - deps), mul( R3( -psi), mul( R1( eps), ref_equ0_direct( y)))));
}
static double dist( const double *a, const M3 &b) { double r = 0; for( int i = 0; i < 9; i++) r = std::max( r, (double)fabsl( a[i] - b.a[i])); return r; }
static std::string show( const double *m) { char b[300]; snprintf( b, 300, "%.12f %.12f %.12f / %.12f %.12f %.12f / %.12f %.12f %.12f", m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); return b; }

enum { ECL, EQU, NUT, OBL, FULL, NOPS };
static bool do_op( int op, double y1, double y2, const char *key)
{
   double m[9];
   bool ok = true;
   vh.transitions++;
   if( op == ECL || op == EQU)
      {
      if( op == ECL) setup_ecliptic_precession( m, y1, y2); else setup_precession( m, y1, y2);
      M3 w = op == ECL ? ref_ecl( y1, y2) : ref_equ( y1, y2);
      const double tol = 4e-15 + 3e-15 * ( fabs( y1 - 2000.) + fabs( y2 - 2000.)) / 100.;
      /* beyond +/- 10000 years the library uses the end value rounded to 1e-9 degree */
      ok = dist( m, w) < tol + 1e-10 * ( op == EQU && ( fabs( y1 - 2000.) > 9990. || fabs( y2 - 2000.) > 9990.));
      if( !ok) vh_fail( key, "%s precession matrix %.9f -> %.9f is off by %.3g: %s", op == ECL ? "ecliptic" : "equatorial", y1, y2, dist( m, w), show( m).c_str( ));
      vh_outcome( vh_hash( m, sizeof( m)));
      }
   else if( op == OBL)
      {
      const double o = mean_obliquity( ( y1 - 2000.) / 100.), w = (double)ref_obliquity( ( (LD)y1 - 2000.L) / 100.L);
      ok = fabs( o - w) < 1e-10 ; /* clipped values are rounded to 1e-9 degree */
      if( !ok) vh_fail( key, "obliquity of %.9f: %.12f, want %.12f", y1, o, w);
      }
   else if( op == NUT)
      {
      const double t = ( y1 - 2000.) / 100.;
      double a = 9, b = 9, c = 9, d = 9; LD wa, wb;
      nutation( t, &a, &b); nutation( t, &c, nullptr); nutation( t, nullptr, &d);
      for( int known = 0; known < 2; known++)
         {
         ref_nutation( t, &wa, &wb, known);
         ok = fabs( a - (double)wa) < 2e-9 + 2e-10 * fabs( t) && fabs( b - (double)wb) < 2e-9 + 2e-10 * fabs( t) && a == c && b == d;
         if( ok && known) { ok = false; key = "nutation-secular-terms"; ref_nutation( t, &wa, &wb, false); break; }
         if( ok) break;
         }
      if( !ok) vh_fail( key, "nutation at %.9f: %.9f %.9f (alone %.9f %.9f), want %.9f %.9f", y1, a, b, c, d, (double)wa, (double)wb);
      }
   else
      {
      const double dl = ( y2 - 2000.) * 1e-9, de = ( 2100. - y2) * 1e-9;
      setup_precession_with_nutation_delta( m, y1, dl, de);
      M3 w = ref_full( y1, dl, de, false);
      const double tol = 2e-14 + 4e-15 * fabs( y1 - 2000.) / 100.;
      const double limit = tol + 1e-10 * ( fabs( y1 - 2000.) > 9990.);
      ok = dist( m, w) < limit;
      if( !ok && dist( m, ref_full( y1, dl, de, true)) < limit) key = "nutation-secular-terms";
      if( !ok) vh_fail( key, "true equator of %.9f (%g %g): off by %.3g: %s", y1, dl, de, dist( m, w), show( m).c_str( ));
      double m2[9], m3[9];
      setup_precession_with_nutation( m2, y1); setup_precession_with_nutation_delta( m3, y1, 0., 0.);
      if( memcmp( m2, m3, sizeof( m2))) vh_fail( key, "setup_precession_with_nutation differs at %.9f", y1);
      }
   vh.states++;
   if( ok) vh.validated++;
   return ok;
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   uint64_t idx = 0;
   auto mine = [&]( ) { return idx++ % vh.nshards == (uint64_t)vh.shard; };
   /* every epoch of a grid, from 10000 years before to 10000 after J2000 */
   const double step = vh.thorough ? .0136895 : .136895;
   for( double y = -8100.; y < 12100.; y += ( fabs( y - 2000.) < 300. ? step * .1 : step))
      if( mine( ))
         {
         vh_at( "epoch"); vh_d( y);
         do_op( ECL, 2000., y, "precession"); do_op( ECL, y, 2000., "precession"); do_op( EQU, y, 1950., "precession"); do_op( ECL, y, y + 123.456, "precession");
         do_op( OBL, y, 0, "obliquity"); do_op( NUT, y, 0, "nutation"); do_op( FULL, y, 2010., "full");
         }
   /* histories of calls: every sequence over (operation, epochs) */
   const std::vector<double> ep = { 2000., 1950., 2024.5, 1875., 2024.500005, -1000.25, 12000., 1.e-5 + 2000. };
   struct Op { int op; double a, b; };
   std::vector<Op> ops;
   for( double a : ep) for( double b : ep) ops.push_back( { ECL, a, b });
   for( double a : { 2000., 1950., 2024.5 }) for( double b : { 2000., 1950., 1875. }) ops.push_back( { EQU, a, b });
   for( double a : { 2000., 1950., 2024.5, 12000., 12500., -8200. }) { ops.push_back( { OBL, a, 0 }); ops.push_back( { NUT, a, 0 }); ops.push_back( { FULL, a, 1990. }); }
   const size_t n = ops.size( );
   for( size_t s = 0; s < n * n * n; s++)
      {
      const size_t a = s % n, b = s / n % n, c = s / n / n;
      if( !vh.thorough && ops[a].op != ECL && ops[b].op != ECL && ops[c].op != ECL) continue;
      if( !vh.thorough && ( a * 5 + b * 3 + c) % 3) continue;
      if( !mine( )) continue;
      vh_at( "history", (long)a, (long)b, (long)c);
      for( size_t k : { a, b, c }) do_op( ops[k].op, ops[k].a, ops[k].b, "history");
      }
   /* chains, inverses, vectors */
   for( double a : ep) for( double b : ep) for( double c : ep)
      {
      if( !mine( )) continue;
      double ab[9], bc[9], ac[9];
      vh_at( "chain"); vh_d( a); vh_d( b); vh_d( c);
      setup_precession( ab, a, b); setup_precession( bc, b, c); setup_precession( ac, a, c);
      const bool close = ( a != b && fabs( a - b) < 1e-4) || ( b != c && fabs( b - c) < 1e-4) || ( a != c && fabs( a - c) < 1e-4);
      for( int i = 0; i < 26 * 13; i++)
         {
         const double ra = ( i % 26) * M_PI / 12., dec = ( i / 26 - 6) * M_PI / 12.;
         double v[3], v1[3], v2[3], v3[3], w[3], p[2] = { ra, dec }, q[2], r[2];
         polar3_to_cartesian( v, ra, dec);
         vh.states++;
         precess_vector( ab, v, v1); precess_vector( bc, v1, v2); precess_vector( ac, v, v3);
         double e = 0; for( int k = 0; k < 3; k++) e = std::max( e, fabs( v2[k] - v3[k]));
         if( e > ( close ? 1e-8 : 3e-13)) vh_fail( "chain", "precessing %g->%g->%g differs from %g->%g by %g", a, b, c, a, c, e);
         memcpy( w, v, sizeof( v)); precess_vector( ab, w, w);
         if( memcmp( w, v1, sizeof( w))) vh_fail( "in-place", "precess_vector in place differs");
         deprecess_vector( ab, v1, w); double e2 = 0; for( int k = 0; k < 3; k++) e2 = std::max( e2, fabs( w[k] - v[k]));
         memcpy( v3, v1, sizeof( v1)); deprecess_vector( ab, v3, v3);
         if( e2 > 1e-14 || memcmp( w, v3, sizeof( w))) vh_fail( "inverse", "deprecess_vector isn't the inverse: %g", e2);
         precess_ra_dec( ab, q, p, 0); precess_ra_dec( ab, r, q, 1);
         polar3_to_cartesian( w, q[0], q[1]); e2 = 0; for( int k = 0; k < 3; k++) e2 = std::max( e2, fabs( w[k] - v1[k]));
         if( e2 > 3e-8 * 0 + 2e-8) vh_fail( "ra-dec", "precess_ra_dec of %g %g off by %g", ra, dec, e2);
         if( fabs( dec) < 1.5 && e2 > 1e-14 / ( 1e-3 + cos( q[1]))) vh_fail( "ra-dec", "precess_ra_dec of %g %g off by %g", ra, dec, e2);
         if( fabs( q[0] - ra) > M_PI + 1e-12) vh_fail( "ra-range", "precess_ra_dec moved %g to %g", ra, q[0]);
         polar3_to_cartesian( w, r[0], r[1]); e2 = 0; for( int k = 0; k < 3; k++) e2 = std::max( e2, fabs( w[k] - v[k]));
         if( e2 > 4e-8) vh_fail( "ra-dec", "precess_ra_dec and back: off by %g", e2);
         r[0] = p[0]; r[1] = p[1]; precess_ra_dec( ab, r, r, 0);
         if( r[0] != q[0] || r[1] != q[1]) vh_fail( "in-place", "precess_ra_dec in place differs at %g %g", ra, dec);
         memcpy( w, v, sizeof( v)); equatorial_to_ecliptic( w);
         M3 ecl = R1( (LD)84381.448 * AS); for( int k = 0; k < 3; k++) { LD s = 0; for( int j = 0; j < 3; j++) s += ecl.a[k * 3 + j] * v[j]; if( fabsl( s - w[k]) > 1e-15) vh_fail( "ecliptic", "equatorial_to_ecliptic at %g %g", ra, dec); }
         ecliptic_to_equatorial( w); for( int k = 0; k < 3; k++) if( fabs( w[k] - v[k]) > 1e-15) vh_fail( "ecliptic", "ecliptic_to_equatorial at %g %g", ra, dec);
         DPT in = { ra, dec }, out; out.x = out.y = 9;
         precess_pt( &out, &in, a, b);
         p[0] = -ra; precess_ra_dec( ab, q, p, 0);
         polar3_to_cartesian( w, -out.x, out.y); polar3_to_cartesian( v1, q[0], q[1]);
         for( int k = 0; k < 3; k++) if( fabs( w[k] - v1[k]) > 4e-8) vh_fail( "precess_pt", "%g->%g at %g %g gives %g %g", a, b, ra, dec, out.x, out.y);
         vh.validated++;
         }
      }
   /* the small matrix functions */
   if( !vh.shard)
      for( int i = -40; i <= 40; i++) for( int j = -40; j <= 40; j++)
         {
         const double t = i * .17, u = j * .11;
         double m[9], w[9];
         vh_at( "matrix", i, j); vh.states++;
         set_identity_matrix( m); spin_matrix( m, m + 3, t); spin_matrix( m + 3, m + 6, u);
         M3 r = mul( R1( u), R3( t));          /* rows are spun like axes, up to the sense of rotation */
         M3 r2 = mul( R1( -u), R3( -t));
         if( dist( m, r) > 1e-15 && dist( m, r2) > 1e-15) vh_fail( "spin", "spin_matrix %g %g: %s", t, u, show( m).c_str( ));
         {      /* the same spins, applied on the other side: columns instead of rows */
         double c[9], tr[9]; set_identity_matrix( c); pre_spin_matrix( c, c + 1, t); pre_spin_matrix( c + 1, c + 2, u); for( int a = 0; a < 9; a++) tr[a] = c[a % 3 * 3 + a / 3];
         if( dist( tr, r) > 1e-15 && dist( tr, r2) > 1e-15) vh_fail( "spin", "pre_spin_matrix %g %g: %s", t, u, show( c).c_str( ));
         set_identity_matrix( c); pre_spin_matrix( c, c + 1, t); set_identity_matrix( tr); spin_matrix( tr, tr + 3, -t); double e3 = 0., e4 = 0.; set_identity_matrix( w); spin_matrix( w, w + 3, t); for( int a = 0; a < 9; a++) { e3 = std::max( e3, fabs( c[a] - tr[a])); e4 = std::max( e4, fabs( c[a] - w[a % 3 * 3 + a / 3])); }
         if( e3 > 1e-15 || e4 > 1e-15) vh_fail( "spin", "pre_spin_matrix by %g isn't spin_matrix by its opposite", t);
         memcpy( c, m, sizeof( m)); pre_spin_matrix( c, c + 2, u); pre_spin_matrix( c, c + 2, -u); for( int a = 0; a < 9; a++) if( fabs( c[a] - m[a]) > 2e-15) { vh_fail( "spin", "pre_spin_matrix by %g and back", u); break; }
         const double x = i * .025 + j * 1e-4; const double ac = acose( x), as = asine( x), xc = x > 1. ? 1. : x < -1. ? -1. : x; if( fabs( cos( ac) - xc) > 1e-15 || fabs( sin( as) - xc) > 1e-15 || fabs( ac + as - 1.5707963267948966) > 4e-16 * 4 || ac < 0. || ac > 3.1415926535897936) vh_fail( "arc", "acose, asine of %.17g: %.17g %.17g", x, ac, as);
         }
         memcpy( w, m, sizeof( m)); invert_orthonormal_matrix( w);
         for( int a = 0; a < 9; a++) if( w[a] != m[a % 3 * 3 + a / 3]) vh_fail( "invert", "invert_orthonormal_matrix");
         double v[3] = { .3, -.4, .87 }, q[3];
         for( int ax = 0; ax < 3; ax++)
            {
            memcpy( q, v, sizeof( v)); rotate_vector( q, t, ax); rotate_vector( q, u, ax); rotate_vector( q, -t - u, ax);
            for( int a = 0; a < 3; a++) if( fabs( q[a] - v[a]) > 1e-14) vh_fail( "rotate", "rotate_vector %g %g axis %d", t, u, ax);
            memcpy( q, v, sizeof( v)); rotate_vector( q, t, ax);
            const int a1 = ( ax + 1) % 3, a2 = ( ax + 2) % 3;
            if( q[ax] != v[ax] || fabs( q[a1] - ( v[a1] * cos( t) - v[a2] * sin( t))) > 1e-14 || fabs( q[a2] - ( v[a2] * cos( t) + v[a1] * sin( t))) > 1e-14)
               vh_fail( "rotate", "rotate_vector by %g about axis %d", t, ax);
            }
         vh.validated++;
         }
   vh_sample( "%d epochs; %d operations in histories of three", (int)idx, (int)n);
   return vh_done( );
}
