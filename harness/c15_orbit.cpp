/* C15 : two-body motion.  A complete grid of orbits of every kind (circular to
   strongly hyperbolic, with eccentricities within rounding of 0, .9 and 1) and
   times; positions and velocities against universal variables in extended
   precision, elements recovered from them, and all again. */
#include "vh.h"
#include <quadmath.h>
#include "watdefs.h"
#include "afuncs.h"
#include "comets.h"

double kepler( const double ecc, double mean_anom);
typedef long double LD;
static const LD pi = 3.141592653589793238462643383279502884L;
static const double K = .01720209895, GM = K * K;
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }

/* Stumpff functions c1, c2, c3 of z */
static void stumpff( LD z, LD *c1, LD *c2, LD *c3)
{
   if( fabsl( z) < .5L)
      {
      LD t1 = 1, t2 = .5L, t3 = 1.L / 6; *c1 = *c2 = *c3 = 0;
      for( int k = 1; k < 24; k++)
         {
         *c1 += t1; *c2 += t2; *c3 += t3;
         t1 *= -z / ( ( 2 * k) * ( 2 * k + 1)); t2 *= -z / ( ( 2 * k + 1) * ( 2 * k + 2)); t3 *= -z / ( ( 2 * k + 2) * ( 2 * k + 3));
         }
      }
   else if( z > 0)
      { const LD s = sqrtl( z), h = sinl( s / 2); *c1 = sinl( s) / s; *c2 = 2 * h * h / z; *c3 = ( s - sinl( s)) / ( s * z); }
   else
      { const LD s = sqrtl( -z), h = sinhl( s / 2); *c1 = sinhl( s) / s; *c2 = -2 * h * h / z; *c3 = ( sinhl( s) - s) / ( -s * z); }
}
struct St { LD x, y, vx, vy, r, s; };
static St universal( LD q, LD e, LD mu, LD t)
{
   const LD alpha = mu * ( 1 - e) / q;
   if( alpha > 0)
      {
      const LD a = q / ( 1 - e), P = 2 * pi / sqrtl( mu / ( a * a * a));
      t = remainderl( t, P);
      }
   const bool neg = t < 0;
   if( neg) t = -t;
   LD c1, c2, c3, s = t / q;      /* dt/ds = r >= q */
   if( alpha > 0) { if( s > pi / sqrtl( alpha)) s = pi / sqrtl( alpha); }
   else if( e > 0 && s > cbrtl( 6 * t / ( mu * e))) s = cbrtl( 6 * t / ( mu * e));
   if( alpha < 0)                  /* a bound from the exponential growth */
      {
      const LD w = sqrtl( -alpha), b = ( asinhl( ( t * w * w * w / mu + 12) / e) + 8) / w;
      if( s > b) s = b;
      }
   /* the time is a convex function of s as far as apoapsis: Newton's method descends monotonically */
   for( int i = 0; i < 300 && t > 0; i++)
      {
      stumpff( alpha * s * s, &c1, &c2, &c3);
      const LD ns = s - ( q * s + mu * e * s * s * s * c3 - t) / ( q + mu * e * s * s * c2);
      const bool done = fabsl( ns - s) < 1e-18L * s;
      s = ns;
      if( done) break;
      }
   const LD z = alpha * s * s;
   stumpff( z, &c1, &c2, &c3);
   St st;
   st.s = s;
   st.r = q + mu * e * s * s * c2;
   st.x = q - mu * s * s * c2;
   const LD h = sqrtl( q * mu * ( 1 + e));
   st.y = h * s * c1;
   st.vx = -mu * s * c1 / st.r;
   st.vy = h * ( 1 - z * c2) / st.r;
   if( neg) { st.y = -st.y; st.vx = -st.vx; }
   return st;
}
static const St &cached( double q, double e, LD t)
{
   static std::map<std::vector<LD>, St> memo;
   if( memo.size( ) > 200000) memo.clear( );
   const std::vector<LD> key = { q, e, t };
   auto it = memo.find( key);
   if( it == memo.end( )) it = memo.insert( { key, universal( q, e, GM, t) }).first;
   return it->second;
}
static std::vector<double> eccs( bool thorough)
{
   std::vector<double> r = { 0, 1e-300, 1e-16, 1e-10, 1e-5, .01, .1, .3, .5, .7, .8, .89, .9 - 1.2e-16, .9, .91, .95, .97 };
   for( double d : { .01, .001, 1e-4, 1.00001e-5, .99999e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 2.3e-16 })
      { r.push_back( 1 - d); r.push_back( 1 + d); }
   for( double d : { 1., 1.0099, 1.02, 1.1, 1.5, 2., 2.0001, 2.5, 3.36, 6., 30. }) r.push_back( d);
   if( thorough) for( int i = 1; i < 200; i++) { r.push_back( i / 200.); r.push_back( 1 + i / 200.); }
   return r;
}
static std::vector<double> qs = { .005, .05, .4, 1, 5.2, 40 };

static void orient( double incl, double node, double w, const St &s, LD *p, LD *v)
{
   const LD ci = cosl( incl), si = sinl( incl), cn = cosl( node), sn = sinl( node), cw = cosl( w), sw = sinl( w);
   const LD P[3] = { cn * cw - sn * sw * ci, sn * cw + cn * sw * ci, sw * si };
   const LD Q[3] = { -cn * sw - sn * cw * ci, -sn * sw + cn * cw * ci, cw * si };
   for( int i = 0; i < 3; i++) { p[i] = P[i] * s.x + Q[i] * s.y; v[i] = P[i] * s.vx + Q[i] * s.vy; }
}
static LD dist3( const double *a, const LD *b) { LD s = 0; for( int i = 0; i < 3; i++) s += ( a[i] - b[i]) * ( a[i] - b[i]); return sqrtl( s); }
static LD dist3( const double *a, const double *b) { LD s = 0; for( int i = 0; i < 3; i++) s += ( (LD)a[i] - b[i]) * ( (LD)a[i] - b[i]); return sqrtl( s); }

static void one_orbit( double ecc, double q, double incl, double node, double w, double t)
{
   ELEMENTS el; memset( &el, 0, sizeof( el));
   const double T = 2451000.5;
   vh_at( "orbit"); vh_d( ecc); vh_d( q); vh_d( incl); vh_d( node); vh_d( w); vh_d( t);
   el.ecc = ecc; el.q = q; el.incl = incl; el.asc_node = node; el.arg_per = w; el.perih_time = T; el.gm = GM;
   derive_quantities( &el, GM);
   const double when = T + t;
   const LD dt = (LD)when - T;
   const St &st = cached( q, ecc, dt);
   LD p[3], v[3]; orient( incl, node, w, st, p, v);
   const LD speed = sqrtl( st.vx * st.vx + st.vy * st.vy);
   double loc[4] = { 99, 99, 99, 99 }, vel[3] = { 99, 99, 99 };
   comet_posn_and_vel( &el, when, loc, vel);
   vh.states++; vh.transitions += 3;
   bool ok = true;
   /* rounding of the time, of one radian's time and of the angles */
   const LD eps = 2.3e-16L, nearpar = ( fabs( ecc - 1) < .1 ? 1e-10L * fabsl( dt) : 0), tol = 40 * eps * ( st.r + speed * fabsl( dt)) + .5L * nearpar * speed, acc = GM / ( st.r * st.r);
   const LD vtol = 60 * eps * ( speed + acc * fabsl( dt)) + .5L * nearpar * acc;
   LD d;
   if( bad( d = dist3( loc, p), tol) || bad( loc[3] - st.r, tol))
      { ok = false; vh_fail( "position", "e=%.17g q=%g i=%.9g node=%g peri=%g, %.6f days from perihelion: position off by %.3Lg (distance %.9f, should be %.9Lf)", ecc, q, incl, node, w, t, d, loc[3], st.r); }
   if( bad( d = dist3( vel, v), vtol))
      { ok = false; vh_fail( "velocity", "e=%.17g q=%g i=%.9g node=%g peri=%g, %.6f days from perihelion: velocity off by %.3Lg of %.3Lg", ecc, q, incl, node, w, t, d, speed); }
   double loc2[4];
   comet_posn( &el, when, loc2);
   if( memcmp( loc, loc2, sizeof( loc))) { ok = false; vh_fail( "position-only", "comet_posn and comet_posn_and_vel differ"); }
   /* back to elements, unless so far out that rounding of the velocity decides the perihelion distance */
   if( st.r > 1e5L * q || fabs( t) > 5e5) { if( ok) vh.validated++; return; }
   ELEMENTS e2; memset( &e2, 0, sizeof( e2));
   double sv[6] = { loc[0], loc[1], loc[2], vel[0], vel[1], vel[2] };
   e2.gm = GM;
   calc_classical_elements( &e2, sv, when, 1);
   vh.transitions += 3;
   const LD a_eps = 1e-14L * ( 1 + st.r / q);        /* far from perihelion q and e are less well determined */
   if( bad( e2.ecc - ecc, 3 * a_eps * ( 1 + ecc)) || bad( e2.q - q, 5 * a_eps * ( 1 + ecc) * q))
      { ok = false; vh_fail( "elements-shape", "e=%.17g q=%g at %.6f days from perihelion comes back as e=%.17g q=%.17g", ecc, q, t, e2.ecc, e2.q); }
   if( bad( e2.incl - incl, 4e-15L * ( 1 + st.r * speed / sqrtl( q * GM * ( 1 + ecc))))) { ok = false; vh_fail( "elements-incl", "i=%.17g (e=%.9g, node %g, peri %g, %.6f days) comes back as %.17g", incl, ecc, node, w, t, e2.incl); }
   if( ecc > 1e-3 && st.r < 1000 * q)
      {         /* the direction of perihelion (the angles themselves degenerate in the reference plane) */
      LD P[3], dummy[3]; St ps; ps.x = 1; ps.y = ps.vx = ps.vy = 0;
      orient( incl, node, w, ps, P, dummy);
      if( bad( d = dist3( e2.perih_vec, P), 1e-11L * ( 1 + st.r / q) / ecc)) { ok = false; vh_fail( "elements-perihelion", "e=%.9g i=%.9g node=%g peri=%g at %.6f days: direction of perihelion off by %.3Lg", ecc, incl, node, w, t, d); }
      }
   if( e2.asc_node != e2.asc_node || e2.arg_per < -1e-12 || e2.arg_per > 2 * M_PI + 1e-12) { ok = false; vh_fail( "elements-range", "node %g, argument of perihelion %g", e2.asc_node, e2.arg_per); }
   /* the recovered elements' own vectors, then the orbit rebuilt from its angles, must give back the same place */
   const LD wide = ( ecc > 1.05 ? 6e-13L : 1e-13L) * ( st.r + speed * ( fabsl( dt) + 1e-2L * st.r / speed)) * ( 1 + ecc);
   for( int form = 0; form < 3; form++)
      {
      ELEMENTS e3 = e2;
      if( form) { e3.gm = GM; derive_quantities( &e3, GM); }
      const LD back = ( form == 2 ? when + .25 * st.r / speed : when);
      double l3[4], v3[3];
      comet_posn_and_vel( &e3, back, l3, v3);
      LD want[3], wv[3], top = speed, near_ = st.r;
      if( form < 2) for( int i = 0; i < 3; i++) { want[i] = sv[i]; wv[i] = sv[i + 3]; }
      else { const St &s2 = cached( q, ecc, back - T); orient( incl, node, w, s2, want, wv); top = std::max( top, hypotl( s2.vx, s2.vy)); near_ = std::min( near_, s2.r); }
      /* time is a double near 2451000: half an ulp of it is 2.4e-10 day */
      const LD tt = 3 * wide + top * ( 7e-10L + nearpar);
      if( bad( d = dist3( l3, want), tt) || bad( dist3( v3, wv), tt * top / near_ + GM / ( near_ * near_) * ( 7e-10L + nearpar)))
         { ok = false; vh_fail( form == 0 ? "round-trip-vectors" : form == 1 ? "round-trip-angles" : "round-trip-later",
               "e=%.17g q=%g i=%.9g node=%g peri=%g at %.6f days: position from the recovered elements off by %.3Lg, velocity by %.3Lg (speed %.3Lg)", ecc, q, incl, node, w, t, d, dist3( v3, wv), speed); }
      }
   /* without angles */
   ELEMENTS e4; memset( &e4, 0, sizeof( e4)); e4.gm = GM;
   calc_classical_elements( &e4, sv, when, 0);
   if( e4.ecc != e2.ecc || e4.q != e2.q || e4.perih_time != e2.perih_time || memcmp( e4.perih_vec, e2.perih_vec, sizeof( e2.perih_vec)))
      { ok = false; vh_fail( "elements-no-angles", "leaving out the angles changes the other elements"); }
   if( ok) vh.validated++;
   if( !( vh.states & 63)) vh_outcome( vh_hash( loc, sizeof( loc)));
   if( vh.states == 777) vh_sample( "e=%.9g q=%g t=%g: r=%.9f", ecc, q, t, loc[3]);
}

static void kepler_grid( )
{
   const std::vector<double> es = eccs( true);
   uint64_t idx = 0;
   const int n = vh.thorough ? 4000 : 400;
   for( double e : es)
      {
      if( e == 1 || !vh_mine( idx++)) continue;
      std::vector<double> ms;
      for( int i = -n; i <= n; i++) ms.push_back( i * M_PI / n);
      for( int i = -300; i <= 20; i++) { const double m = pow( 10., i / 10.); ms.push_back( m); ms.push_back( -m); }
      if( e < 1) for( int i = -40; i <= 40; i++) ms.push_back( i * .77);
      else for( int i = -40; i <= 40; i++) { ms.push_back( i * 50.); ms.push_back( 3 * e * ( 1 + i * 1e-15)); }
      for( double f = 1e-3; f < 1e4; f *= 1.3) ms.push_back( fabs( 1 - e) * sqrt( fabs( 1 - e)) * f);
      for( double m : ms)
         {
         if( e < 1 && fabs( m) > 50 && e >= .9) continue;
         vh_at( "kepler"); vh_d( e); vh_d( m);
         const double E = kepler( e, m);
         vh.states++; vh.transitions++;
         __float128 r, rate, q;
         if( e < 1) { q = (__float128)E - (__float128)e * sinq( (__float128)E); rate = 1 - (__float128)e * cosq( (__float128)E); }
         else { q = (__float128)e * sinhq( (__float128)E) - (__float128)E; rate = (__float128)e * coshq( (__float128)E) - 1; }
         r = q - m;
         /* the answer may be off by rounding of E, plus what rounding of M amounts to */
         const LD res = (LD)r, tol = (LD)rate * 8e-16L * fabsl( E) + 5e-16L * fabsl( m) + ( fabs( 1 - e) > .0099 ? 4e-16L * fabsl( E) : 0) + ( fabs( m) > 3 ? 3e-15L : 0) + (LD)rate * ( 2e-14L * fabsl( E) + std::min( 1.2e-14L, 1e-10L * fabsl( E)) * ( fabs( 1 - e) < .01) + 1e-24L);
         if( bad( res, tol + 1e-300L)) vh_fail( "kepler", "e=%.17g M=%.17g: E=%.17g gives M=%.17Lg, off by %.3Lg", e, m, E, (LD)q, res);
         else vh.validated++;
         }
      }
}

static void orbits( )
{
   const std::vector<double> es = eccs( vh.thorough);
   const double incls[] = { 0, 1e-9, .3, M_PI / 2 - 1e-9, M_PI / 2, M_PI / 2 + 1e-6, 2.5, M_PI };
   const double nodes[] = { 0, 1, 3.5, 6.2 };
   const double ws[] = { 0, .7, M_PI / 2, 2.4, M_PI, 4., 5.5 };
   std::vector<double> ts = { 0 };
   for( double t : { 1e-6, 1e-3, .5, 3., 20., 90., 365.25, 1000., 4000., 20000., 200000. }) { ts.push_back( t); ts.push_back( -t); }
   uint64_t idx = 0;
   for( double e : es)
      for( double q : qs)
         {
         if( !vh_mine( idx++)) continue;
         /* the full set of orientations at a few times; all times at a few orientations */
         for( double i : incls) for( double n : nodes) for( double w : ws)
            for( size_t k = 0; k < ts.size( ); k += ( vh.thorough ? 1 : 3)) one_orbit( e, q, i, n, w, ts[( k + idx) % ts.size( )]);
         for( double t : ts) for( double i : { .3, 2.5 }) one_orbit( e, q, i, 1, 4., t);
         /* fractions of the period, for ellipses */
         if( e < 1)
            {
            const double a = q / ( 1 - e), P = 2 * M_PI * sqrt( a) * a / K;
            if( P < 1e7) for( int k = -24; k <= 48; k++) one_orbit( e, q, .3, 1, 4., P * k / 24);
            }
         }
}

static void asteroid_files( )
{
   const uint32_t axes[] = { 50000000u, 100000000u, 234567890u, 2099999999u, 2100000000u, 2100000001u, 2500000000u, 3149999999u, 3150000000u, 3150000001u, 3600000000u, 4190000000u };
   const uint32_t eccf[] = { 0, 12345678u, 50000000u, 99000000u }, ang[] = { 0, 1, 899999999u, 1234567890u, 3599999999u };
   for( int i = 0; i < 12 * 4 * 125; i++)
      {
      if( !vh_mine( i)) continue;
      const uint32_t raw[6] = { ang[i % 5], axes[i / 500], eccf[i / 125 % 4], ang[i / 5 % 5], ang[i / 25 % 5], ang[( i / 5 + i / 25) % 5] / 2 };
      ELEMENTS el; memset( &el, 0, sizeof( el));
      vh_at( "asteroid-file", i);
      setup_elems_from_ast_file( &el, raw, 2450000.5);
      vh.states++;
      /* up to 21 AU directly; 21 to 63 in steps four times as large; beyond, reciprocally to infinity at 42 */
      const LD v = raw[1] / 1e8L, a = v <= 21 ? v : v <= 31.5L ? 4 * v - 63 : 63 / ( 4 - v / 10.5L);
      const LD d = pi / 180 / 1e7L, e = raw[2] / 1e8L, M = raw[0] * d, t0 = a * sqrtl( a) / K;
      if( bad( el.major_axis - a, 1e-12L * a) || bad( el.ecc - e, 1e-15L) || bad( el.q - a * ( 1 - e), 1e-12L * a) || bad( el.incl - raw[5] * d, 1e-14L) || bad( el.asc_node - raw[3] * d, 1e-14L) || bad( el.arg_per - raw[4] * d, 1e-14L)
            || bad( el.perih_time - ( 2450000.5L - M * t0), 1e-9L + 2e-12L * M * t0) || el.epoch != 2450000.5 || el.central_obj || bad( el.gm - GM, 1e-18L))
         vh_fail( "asteroid-file", "record %u %u %u %u %u %u gives a=%.9f q=%.9f e=%.9f perihelion %.6f", raw[0], raw[1], raw[2], raw[3], raw[4], raw[5], el.major_axis, el.q, el.ecc, el.perih_time);
      else
         {
         double loc[4]; comet_posn( &el, 2450000.5, loc);
         const St s = universal( a * ( 1 - e), e, GM, M * t0);
         if( bad( loc[3] - s.r, 1e-11L * a)) vh_fail( "asteroid-file", "the mean anomaly of record %d isn't that at its epoch", i); else vh.validated++;
         }
      }
   /* H, G magnitudes */
   for( int i = 0; i <= 1700; i++)
      for( int g = -5; g <= 20; g++)
         {
         if( !vh_mine( i)) continue;
         const double ph = i * M_PI / 1800, G = g / 20.;
         vh_at( "phase", i, g);
         const LD t = tanl( ph / 2.L), p1 = expl( -3.33L * powl( t, .63L)), p2 = expl( -1.87L * powl( t, 1.22L));
         const LD want = -2.5L * log10l( ( 1 - G) * p1 + G * p2);
         vh.states++;
         if( want == want && ( ( 1 - G) * p1 + G * p2) > 1e-6 && bad( phase_angle_correction_to_magnitude( ph, G) - want, 1e-5L)) vh_fail( "phase-magnitude", "phase %.4f G %.2f: %.6f, should be %.6Lf", ph, G, phase_angle_correction_to_magnitude( ph, G), want);
         else vh.validated++;
         }
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   kepler_grid( );
   asteroid_files( );
   orbits( );
   return vh_done( );
}
