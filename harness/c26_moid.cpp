/* C26: least distance between two orbits; mean elements of planets. */
#include "vh.h"
#include <stddef.h>
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "lunar.h"
static const double PID = 3.14159265358979323846, R = PID / 180., GK = .01720209895;
struct V { double x, y, z; };
struct Orb { double q, e; V p, s; };                        /* perihelion direction, and 90 degrees on */
static V pos( const Orb &o, double nu)
{
   double r = o.q * (1. + o.e) / (1. + o.e * cos( nu));
   if( r > 1000. || r < 0.) r = 1000.;
   const double c = r * cos( nu), s = r * sin( nu);
   return V{ c * o.p.x + s * o.s.x, c * o.p.y + s * o.s.y, c * o.p.z + s * o.s.z };
}
static double dot( const V &a, const V &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross( const V &a, const V &b) { return V{ a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
/* distance of a point from an ellipse with semiaxes a >= b, centred, in its plane */
static double ell_dist( double a, double b, double x, double y)
{
   x = fabs( x); y = fabs( y);
   const double a2 = a * a, b2 = b * b;
   double px, py;
   if( y < 1e-14 * b)
      {
      if( a * x < a2 - b2) { px = a2 * x / (a2 - b2); const double u = px / a; py = b * sqrt( std::max( 0., 1. - u * u)); }
      else { px = a; py = 0.; }
      return hypot( x - px, y - py);
      }
   double t = -b2 + b * y;
   for( int i = 0; i < 200; i++)
      {
      const double u = a * x / (t + a2), v = b * y / (t + b2);
      const double F = u * u + v * v - 1., D = -2. * (u * u / (t + a2) + v * v / (t + b2));
      const double dt = -F / D;
      t += dt;
      if( fabs( dt) <= 1e-15 * (fabs( t) + b2)) break;
      }
   px = a2 * x / (t + a2); py = b2 * y / (t + b2);
   /* put it on the ellipse exactly */
   const double k = 1. / hypot( px / a, py / b); px *= k; py *= k;
   return hypot( x - px, y - py);
}
static double dist_to( const Orb &o, const V &n, const V &p)
{
   const double a = o.q / (1. - o.e), b = a * sqrt( 1. - o.e * o.e);
   const double d = ell_dist( a, b, dot( p, o.p) + a * o.e, dot( p, o.s)), z = dot( p, n);
   return hypot( d, z);
}
static double g_at( const Orb &o1, const V &n, const Orb &o2, double nu) { return dist_to( o1, n, pos( o2, nu)); }
static double golden( const Orb &o1, const V &n, const Orb &o2, double lo, double hi)
{
   const double g = .6180339887498949;
   double x1 = hi - g * (hi - lo), x2 = lo + g * (hi - lo), f1 = g_at( o1, n, o2, x1), f2 = g_at( o1, n, o2, x2), best = std::min( f1, f2);
   for( int it = 0; it < 80 && hi - lo > 1e-12; it++)
      {
      if( f1 < f2) { hi = x2; x2 = x1; f2 = f1; x1 = hi - g * (hi - lo); f1 = g_at( o1, n, o2, x1); best = std::min( best, f1); }
      else { lo = x1; x1 = x2; f1 = f2; x2 = lo + g * (hi - lo); f2 = g_at( o1, n, o2, x2); best = std::min( best, f2); }
      }
   return best;
}
/* places along the second orbit: evenly in anomaly and evenly in distance, both inbound and outbound */
static double brute( const Orb &o1, const Orb &o2, int n_steps, double *visible)
{
   const V n = cross( o1.p, o1.s);
   const double Q1 = o1.q * (1. + o1.e) / (1. - o1.e), lim = o2.e >= 1. ? acos( -1. / o2.e) * (1. - 1e-12) : PID;
   double rmax = o2.e < 1. ? o2.q * (1. + o2.e) / (1. - o2.e) : 1000.;
   rmax = std::min( rmax, 3. * (Q1 + o2.q));
   std::vector<double> nu;
   for( int i = 0; i <= n_steps / 2; i++) nu.push_back( -lim + 4. * lim * i / n_steps);
   if( o2.e > 0.) for( int i = 0; i <= n_steps / 4; i++)
      {
      const double r = o2.q + (rmax - o2.q) * 4. * i / n_steps, c = (o2.q * (1. + o2.e) / r - 1.) / o2.e;
      if( c > -1. && c < 1.) { const double v = std::min( acos( c), lim); nu.push_back( v); nu.push_back( -v); }
      const double r2 = o2.q * pow( rmax / o2.q, 4. * i / n_steps), c2 = (o2.q * (1. + o2.e) / r2 - 1.) / o2.e;
      if( c2 > -1. && c2 < 1.) { const double v = std::min( acos( c2), lim); nu.push_back( v); nu.push_back( -v); }
      }
   std::sort( nu.begin( ), nu.end( ));
   nu.erase( std::unique( nu.begin( ), nu.end( ), []( double a, double b) { return b - a < 1e-6; }), nu.end( ));
   const int m = (int)nu.size( );
   double best = 1e30;
   std::vector<double> y( m);
   for( int i = 0; i < m; i++) { y[i] = g_at( o1, n, o2, nu[i]); best = std::min( best, y[i]); }
   const double limit = 1.5 * best + .05 * (1. + o1.q);
   double found = best;
   for( int i = 0; i < m; i++)
      {
      const double l = i ? y[i - 1] : y[m - 2], r = i < m - 1 ? y[i + 1] : y[1];
      if( y[i] <= l && y[i] <= r && y[i] < limit)
         {
         const double lo = i ? nu[i - 1] : nu[m - 2] - 2. * lim, hi = i < m - 1 ? nu[i + 1] : nu[1] + 2. * lim;
         if( o2.e >= 1. && (!i || i == m - 1)) continue;
         const double d = golden( o1, n, o2, lo, hi);
         found = std::min( found, d);
         /* a minimum which rises for ten degrees of anomaly on both sides can't be stepped over by a 5-degree grid */
         bool wide = true;
         for( int dir = -1; dir <= 1 && wide; dir += 2)
            {
            int j = i; double a0 = nu[i], run = 0., prev = y[i];
            while( run < 10.5 * R)
               {
               j += dir;
               double wrap = 0.;
               if( j < 0 || j >= m) { if( o2.e >= 1.) { wide = false; break; } j = j < 0 ? m - 2 : 1; wrap = 2. * lim; }
               if( y[j] < prev) { wide = false; break; }
               prev = y[j];
               run += fabs( dir * wrap + nu[j] - a0); a0 = nu[j];
               }
            }
         if( wide) *visible = std::min( *visible, d);
         }
      }
   return found;
}
static V rot( double node, double inc, double u)           /* direction at argument u in the orbit */
{
   return V{ cos( node) * cos( u) - sin( node) * sin( u) * cos( inc), sin( node) * cos( u) + cos( node) * sin( u) * cos( inc), sin( u) * sin( inc) };
}
static void set( ELEMENTS &el, Orb &o, double q, double e, double inc, double node, double arg)
{
   memset( &el, 0, sizeof( el));
   el.q = q; el.ecc = e; el.incl = inc * R; el.asc_node = node * R; el.arg_per = arg * R; el.perih_time = 2455000.25;
   derive_quantities( &el, GK * GK);
   o.q = q; o.e = e; o.p = rot( node * R, inc * R, arg * R); o.s = rot( node * R, inc * R, arg * R + PID / 2.);
}
static double kepler( double M, double e)
{
   M = fmod( M, 2. * PID); if( M > PID) M -= 2. * PID; if( M < -PID) M += 2. * PID;
   double lo = -PID, hi = PID;
   for( int i = 0; i < 70; i++) { const double m = .5 * (lo + hi); if( m - e * sin( m) < M) lo = m; else hi = m; }
   return .5 * (lo + hi);
}
static V vel( const Orb &o, double nu)
{
   const double h = GK / sqrt( o.q * (1. + o.e)), a = -h * sin( nu), b = h * (o.e + cos( nu));
   return V{ a * o.p.x + b * o.s.x, a * o.p.y + b * o.s.y, a * o.p.z + b * o.s.z };
}
static uint64_t worst_n; static double worst_d;
static double tol( double m) { return 2e-6 + 2e-6 * m; }
static void pair( const Orb &o1, const ELEMENTS &e1, const Orb &o2, const ELEMENTS &e2, bool sym, int steps)
{
   moid_data_t md; memset( &md, 0xff, sizeof( md));
   double vis = 1e30;
   const double got = find_moid_full( &e1, &e2, &md), ref = brute( o1, o2, steps, &vis);
   vh.states++; vh.transitions += 2; vh.validated++;
   if( o1.e < .1 && o2.q > .1 * o1.q && o2.e < .9 && fabs( dot( cross( o1.p, o1.s), cross( o2.p, o2.s))) < .99) vis = ref;
   if( vis < 1e29) vh.counters["pairs whose least distance can't be stepped over"] += (vis == ref);
   if( !(got <= vis + tol( vis))) vh_fail( "not-least", "orbits q %g e %g and q %g e %g: %.9f, but they come within %.9f", o1.q, o1.e, o2.q, o2.e, got, vis);
   if( fabs( got - ref) > worst_d) { worst_d = fabs( got - ref); worst_n++; }
   if( find_moid_full( &e1, &e2, NULL) != got) vh_fail( "null-data", "asking for the data as well changes the result");
   /* the reported place on the first orbit, and when it's there */
   const V n2 = cross( o2.p, o2.s), p1 = pos( o1, md.obj1_true_anom);
   if( o2.e < 1.)
      {
      const double d = dist_to( o2, n2, p1);
      if( d > got + tol( got) || (vis == ref && d < got - tol( got))) vh_fail( "place", "at the place given on the first orbit the distance is %.7f, not %.7f", d, got);
      }
   const double a1 = o1.q / (1. - o1.e), M = (md.jd1 - e1.perih_time) * GK / (a1 * sqrt( a1)), E = kepler( M, o1.e);
   const double nu = 2. * atan( sqrt( (1. + o1.e) / (1. - o1.e)) * tan( E / 2.));
   const V pt = pos( o1, nu);
   const double off = sqrt( (pt.x - p1.x) * (pt.x - p1.x) + (pt.y - p1.y) * (pt.y - p1.y) + (pt.z - p1.z) * (pt.z - p1.z));
   if( !(off < 1e-5 * a1)) vh_fail( "jd1", "at the date given the first object is %.7f AU from the place given", off);
   /* encounter speed: the second object at its point nearest to p1 */
   const double lim = o2.e >= 1. ? acos( -1. / o2.e) * (1. - 1e-12) : PID;
   bool any = false, right = false; double seen = 0, nearest = 1e30;
   double dd[722];
   auto d2 = [&]( double nn) { const V b = pos( o2, nn); return (b.x - p1.x) * (b.x - p1.x) + (b.y - p1.y) * (b.y - p1.y) + (b.z - p1.z) * (b.z - p1.z); };
   for( int i = 0; i <= 721; i++) dd[i] = d2( -lim + 2. * lim * (i - 1) / 720);
   for( int i = 1; i <= 720; i++) if( dd[i] <= dd[i - 1] && dd[i] <= dd[i + 1])
      {
      double bn = -lim + 2. * lim * (i - 1) / 720, bestd = dd[i];
      for( double st = 2. * lim / 720; st > 1e-9; st /= 2.) for( int k = -1; k <= 1; k += 2)
         { const double d = d2( bn + k * st); if( d < bestd) { bestd = d; bn += k * st; } }
      nearest = std::min( nearest, sqrt( bestd));
      if( sqrt( bestd) > got + 1e-6) continue;
      const V v1 = vel( o1, md.obj1_true_anom), v2 = vel( o2, bn);
      const double s = sqrt( (v1.x - v2.x) * (v1.x - v2.x) + (v1.y - v2.y) * (v1.y - v2.y) + (v1.z - v2.z) * (v1.z - v2.z));
      any = true; seen = s;
      if( fabs( s - md.barbee_speed) < 1e-4 + .003 * s) right = true;
      }
   if( o2.e >= 1. && nearest > got + 2. * tol( got)) vh_fail( "place", "at the place given on the first orbit the distance is %.7f, not %.7f", nearest, got);
   if( any && !right && nearest > got - tol( got)) vh_fail( "speed", "encounter speed %.6f, not %.6f", md.barbee_speed, seen);
   if( sym && o2.e < 1.)
      {
      const double back = find_moid_full( &e2, &e1, NULL); vh.transitions++;
      double bvis = 1e30, bref = brute( o2, o1, steps, &bvis);
      if( back > bvis + tol( bvis) || ((vis == ref && bvis == bref) && fabs( back - got) > tol( ref))) vh_fail( "symmetry", "orbits q %g e %g and q %g e %g: %.9f one way, %.9f the other", o1.q, o1.e, o2.q, o2.e, got, back);
      }
   if( !(vh.states % 64)) vh_outcome( vh_hash( &got, sizeof( got)));
}
static void grid( )
{
   static const double e1s[] = { 0., .0167, .2, .5, .8, .95 }, q2s[] = { .05, .3, .7, .99, 1., 1.02, 1.5, 3., 12. };
   static const double e2s[] = { 0., .03, .3, .7, .95, .99, 1., 1.0002, 1.2, 3. };
   static const double incs[] = { 0., .001, 1., 10., 60., 90., 150., 179.9, 180. };
   const int na = vh.thorough ? 15 : 8, steps = vh.thorough ? 1440 : 720;
   uint64_t idx = 0;
   for( double e1 : e1s) for( double q2 : q2s) for( double e2 : e2s) for( double inc : incs) for( int an = 0; an < na; an++) for( int ap = 0; ap < na; ap++, idx++)
      {
      if( !vh_mine( idx)) continue;
      if( !vh.thorough && (idx / 8) % 3) continue;
      ELEMENTS a, b; Orb oa, ob;
      /* the first orbit in a plane of its own too, so that nothing is special about the frame */
      const int fr = (int)( idx % 5);
      set( a, oa, 1., e1, fr * 23.7, fr * 71., fr * 133.);
      const double no = 360. * an / na + (fr == 4 ? 11.3 : 0.), ar = 360. * ap / na + (fr >= 3 ? 7.7 : 0.);
      if( fr == 0) set( b, ob, q2, e2, inc, no, ar);
      else
         {         /* place b relative to a: its direction vectors are given in a's frame */
         set( b, ob, q2, e2, inc, no, ar);
         const V n = cross( oa.p, oa.s);
         const V p = ob.p, s = ob.s;
         ob.p = V{ p.x * oa.p.x + p.y * oa.s.x + p.z * n.x, p.x * oa.p.y + p.y * oa.s.y + p.z * n.y, p.x * oa.p.z + p.y * oa.s.z + p.z * n.z };
         ob.s = V{ s.x * oa.p.x + s.y * oa.s.x + s.z * n.x, s.x * oa.p.y + s.y * oa.s.y + s.z * n.y, s.x * oa.p.z + s.y * oa.s.z + s.z * n.z };
         const double *pp = &ob.p.x, *ps = &ob.s.x;
         for( int k = 0; k < 3; k++) { b.perih_vec[k] = pp[k]; b.sideways[k] = ps[k]; }
         }
      vh_at( "pair", (long)( inc * 1000), an, ap, (long)fr); vh_d( e1); vh_d( q2); vh_d( e2);
      pair( oa, a, ob, b, true, steps);
      }
}
/* orbits that are known to cross: through a common point, at any angle */
static void crossing( )
{
   uint64_t idx = 0;
   for( int e1 = 0; e1 < 9; e1++) for( int e2 = 0; e2 < 12; e2++) for( int n1 = -170; n1 <= 180; n1 += vh.thorough ? 10 : 35) for( int n2 = -170; n2 <= 180; n2 += vh.thorough ? 10 : 35) for( int inc = 0; inc <= 180; inc += 20, idx++)
      {
      if( !vh_mine( idx)) continue;
      const double ea = e1 * .11, eb = e2 * .13;
      if( eb >= 1. && 1. + eb * cos( n2 * R) < .1) continue;
      if( 1. + eb * cos( n2 * R) < .02) continue;
      const double r = 1. * (1. + ea) / (1. + ea * cos( n1 * R)), qb = r * (1. + eb * cos( n2 * R)) / (1. + eb);
      ELEMENTS a, b; Orb oa, ob;
      set( a, oa, 1., ea, 0., 0., 40. - n1); set( b, ob, qb, eb, inc, 40., -n2);
      vh_at( "crossing", n1, n2, inc); vh_d( ea); vh_d( eb);
      const double d = find_moid_full( &a, &b, NULL); vh.states++; vh.transitions++; vh.validated++;
      if( !(d < 1e-5)) vh_fail( "crossing", "orbits e %g and e %g which cross are said to be %.8f AU apart", ea, eb, d);
      if( eb < 1. && !(find_moid_full( &b, &a, NULL) < 1e-5)) vh_fail( "crossing", "orbits which cross are said to be %.8f AU apart", find_moid_full( &b, &a, NULL));
      }
}
/* ---- planets ---- */
/* own copy of a low-precision truth: heliocentric ecliptic J2000 positions from the published mean elements (Standish; 1800-2050) */
static const double sel[9][12] = {
   { 0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593, 0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081 },
   { 0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255, 0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418 },
   { 1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0, 0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0 },
   { 1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891, 0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343 },
   { 5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909, -0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106 },
   { 9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448, -0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794 },
   { 19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503, -0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589 },
   { 30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574, 0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664 },
   { 39.48211675, 0.24882730, 17.14001206, 238.92903833, 224.06891629, 110.30393684, -0.00031596, 0.00005170, 0.00004818, 145.20780515, -0.04062942, -0.01183482 } };
static void planets( )
{
   for( int pl = 1; pl <= 9; pl++) for( double t = -2.; t <= .5001; t += .05)
      {
      ELEMENTS e; vh_at( "planet", pl); vh_d( t);
      if( setup_planet_elem( &e, pl, t)) { vh_fail( "planet-rval", "planet %d refused", pl); continue; }
      const double *s = sel[pl - 1];
      const double a = s[0] + t * s[6], ec = s[1] + t * s[7], in = s[2] + t * s[8], L = s[3] + t * s[9], pi = s[4] + t * s[10], om = s[5] + t * s[11];
      Orb o; o.e = ec; o.q = a * (1. - ec); o.p = rot( om * R, in * R, (pi - om) * R); o.s = rot( om * R, in * R, (pi - om) * R + PID / 2.);
      const double E = kepler( (L - pi) * R, ec), nu = 2. * atan( sqrt( (1. + ec) / (1. - ec)) * tan( E / 2.));
      const V p = pos( o, nu); double loc[4]; V v;
      comet_posn( &e, 2451545. + 36525. * t, loc); vh.transitions++; vh.states++;
      v = V{ loc[0] - p.x, loc[1] - p.y, loc[2] - p.z };
      const double off = sqrt( dot( v, v)) / a;
      if( !(off < 1e-6)) vh_fail( "planet", "planet %d at T = %.2f is %.6f of its distance from where its elements put it", pl, t, off);
      if( fabs( e.q - o.q) > 1e-12 * a || fabs( e.ecc - ec) > 1e-14) vh_fail( "planet-shape", "planet %d at T = %.2f has q %.9f e %.9f", pl, t, e.q, e.ecc);
      }
   /* the asteroids' elements are for a fixed date, whatever date is asked for */
   static const double ma[6] = { 4.036019, 350.826074, 338.305822, 20.150301, 333.613957, 104.873024 };
   for( int k = 0; k < 6; k++) for( int t = -2; t <= 2; t++)
      {
      ELEMENTS e; vh_at( "asteroid", k, t); vh.states++; vh.transitions++;
      setup_planet_elem( &e, 10 + k, t * .7);
      const double a = e.q / (1. - e.ecc);
      double M = (2451535. - e.perih_time) * GK / (a * sqrt( a)) / R; M = fmod( M - ma[k], 360.); if( M > 180.) M -= 360.; if( M < -180.) M += 360.;
      if( fabs( M) > 1e-6) vh_fail( "asteroid", "asteroid %d has a mean anomaly of %.6f, not %.6f, at JD 2451535", 10 + k, M + ma[k], ma[k]);
      }
   for( int pl = -3; pl < 20; pl++)
      {
      ELEMENTS e; vh_at( "planet-index", pl); vh.states++;
      if( pl >= 1 && pl <= 15) { if( setup_planet_elem( &e, pl, .1)) vh_fail( "planet-rval", "planet %d refused", pl); }
      else if( setup_planet_elem( &e, pl, .1) != -1) vh_fail( "planet-rval", "planet %d accepted", pl);
      }
   /* every pair of them */
   for( int t = -1; t <= 1; t++) for( int i = 1; i <= 15; i++) for( int j = 1; j <= 15; j++) if( i != j)
      {
      ELEMENTS a, b; Orb oa, ob; setup_planet_elem( &a, i, t * .5); setup_planet_elem( &b, j, t * .5);
      oa.q = a.q; oa.e = a.ecc; oa.p = rot( a.asc_node, a.incl, a.arg_per); oa.s = rot( a.asc_node, a.incl, a.arg_per + PID / 2.);
      ob.q = b.q; ob.e = b.ecc; ob.p = rot( b.asc_node, b.incl, b.arg_per); ob.s = rot( b.asc_node, b.incl, b.arg_per + PID / 2.);
      vh_at( "planet-pair", i, j, t);
      pair( oa, a, ob, b, true, 1440);
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   grid( );
   crossing( );
   if( !vh.shard) planets( );
   vh_sample( "worst difference from the dense search in this shard: %.3g AU", worst_d);
   return vh_done( );
}
