/* C27 : distance / position angle, and refraction, and their inverses. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"

typedef long double LD;
static const LD pi = 3.141592653589793238462643383279502884L;
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }
static LD wrap( LD a) { a = fmodl( a, 2 * pi); if( a > pi) a -= 2 * pi; if( a < -pi) a += 2 * pi; return a; }
struct V { LD x, y, z; };
static V sph( LD lon, LD lat) { return V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }; }

/* separation and position angle by vectors, the differences taken before cancelling.
   Position angles run from the north through the direction of decreasing longitude's opposite... see below */
static void ref( LD lon1, LD lat1, LD lon2, LD lat2, LD *dist, LD *sn, LD *cs)
{
   const LD dl = lon2 - lon1, s2 = sinl( dl / 2), dp = lat2 - lat1;
   const LD x = sinl( dl) * cosl( lat2);
   const LD y = sinl( dp) + 2 * s2 * s2 * sinl( lat1) * cosl( lat2);
   const LD sp = sinl( dp / 2);
   const LD hav = sp * sp + cosl( lat1) * cosl( lat2) * s2 * s2;
   const LD sd = sqrtl( x * x + y * y);
   *dist = atan2l( sd, 1 - 2 * hav);
   *sn = x; *cs = y;
}

static void distances( )
{
   std::vector<double> lons, lats, offs;
   for( int i = -12; i <= 24; i++) lons.push_back( i * M_PI / 12);
   const double small[] = { 0, 1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2 };
   for( double s : small) { offs.push_back( s); if( s > 0) offs.push_back( -s); }
   std::vector<double> dl = offs;
   for( double s : small) { dl.push_back( M_PI + s); dl.push_back( M_PI - s); dl.push_back( M_PI / 2 - s); }
   for( int i = -24; i <= 24; i++) dl.push_back( i * M_PI / ( vh.thorough ? 12 : 12) + .01);
   for( int i = -18; i <= 18; i++) lats.push_back( i * M_PI / 36);
   for( double s : { 1e-12, 1e-9, 1e-6, 1e-3 }) { lats.push_back( M_PI / 2 - s); lats.push_back( -M_PI / 2 + s); }
   uint64_t idx = 0;
   const size_t step = vh.thorough ? 1 : 5;
   for( size_t a = 0; a < lons.size( ); a += step)
      for( double lat1 : lats)
         {
         std::vector<double> lat2s;
         for( double o : offs) { lat2s.push_back( lat1 + o); lat2s.push_back( -lat1 + o); }
         for( double l : lats) lat2s.push_back( l);
         if( !vh_mine( idx++)) continue;
         for( double d : dl)
            for( double lat2 : lat2s)
               {
               if( lat2 > M_PI / 2 || lat2 < -M_PI / 2) continue;
               const double p1[2] = { lons[a], lat1 }, p2[2] = { lons[a] + d, lat2 };
               vh_at( "distance"); vh_d( p1[0]); vh_d( p1[1]); vh_d( p2[0]); vh_d( p2[1]);
               double dist = 99, pa = 99, dist2 = 99;
               const int rval = calc_dist_and_posn_ang( p1, p2, &dist, &pa);
               calc_dist_and_posn_ang( p1, p2, &dist2, NULL);
               LD want, sn, cs;
               ref( p1[0], p1[1], p2[0], p2[1], &want, &sn, &cs);
               vh.states++; vh.transitions += 3;
               bool ok = true;
               const LD from_pole = pi - want, smaller = want < from_pole ? want : from_pole;
               const LD tol = 4e-16L + 3e-15L * ( want > 1e-3L ? 1 : 0) + 4e-15L * want;
               (void)smaller;
               if( bad( dist - want, tol) ) { ok = false; vh_fail( "distance", "from %.17g %.17g to %.17g %.17g: distance %.17g, should be %.20Lg", p1[0], p1[1], p2[0], p2[1], dist, want); }
               if( dist2 != dist) { ok = false; vh_fail( "distance-no-pa", "the distance differs when no position angle is asked for"); }
               if( sn == 0 && cs == 0)
                  {
                  if( !rval && want == 0) { ok = false; vh_fail( "pa-undefined", "coincident points are not reported as having no position angle"); }
                  }
               else
                  {
                  const LD sd = sqrtl( sn * sn + cs * cs);
                  /* north zero; increasing toward smaller longitude (right ascension runs the other way on the sky map these coordinates are for) */
                  const LD paw = atan2l( -sn, cs);
                  if( rval && sd > 1e-15L) { ok = false; vh_fail( "pa-undefined", "distinct points %.17g %.17g, %.17g %.17g reported as having no position angle", p1[0], p1[1], p2[0], p2[1]); }
                  if( !rval && ( bad( wrap( pa - paw) * sd, want < 1 ? 2e-14L * sd + 3e-16L : 5e-15L) || pa < 0 || pa > 2 * M_PI + 1e-15))
                     { ok = false; vh_fail( "position-angle", "from %.17g %.17g to %.17g %.17g: position angle %.17g, should be %.20Lg", p1[0], p1[1], p2[0], p2[1], pa, paw); }
                  }
               double back[2] = { 99, 99 };
               reverse_dist_and_posn_ang( back, p1, dist, pa);
               LD miss, s, c;
               ref( back[0], back[1], p2[0], p2[1], &miss, &s, &c);
               if( bad( miss, 8e-15L) || fabs( back[1]) > M_PI / 2 + 1e-15) { ok = false; vh_fail( "distance-inverse", "going %.17g at angle %.17g from %.17g %.17g gives %.17g %.17g instead of %.17g %.17g", dist, pa, p1[0], p1[1], back[0], back[1], p2[0], p2[1]); }
               double ds, ps;                /* symmetry */
               calc_dist_and_posn_ang( p2, p1, &ds, &ps);
               if( bad( ds - dist, 3 * tol)) { ok = false; vh_fail( "distance-symmetry", "the distance from %.17g %.17g to %.17g %.17g is %.17g one way and %.17g the other", p1[0], p1[1], p2[0], p2[1], dist, ds); }
               if( ok) vh.validated++;
               if( !( vh.states & 127)) vh_outcome( vh_hash( &dist, 8, vh_hash( &pa, 8)));
               }
         }
   /* every distance and direction from a point, then measured */
   const int n = vh.thorough ? 360 : 90;
   for( int la = -90; la <= 90; la += 15)
      {
      if( !vh_mine( la + 90)) continue;
      for( int i = 0; i <= n; i++)
         for( int j = 0; j < n; j++)
            {
            const double p1[2] = { 1.25, la * M_PI / 180 }, dist = i * M_PI / n, pa = j * 2 * M_PI / n;
            double p2[2], d, a;
            vh_at( "travel", la, i, j);
            reverse_dist_and_posn_ang( p2, p1, dist, pa);
            calc_dist_and_posn_ang( p1, p2, &d, &a);
            vh.states++; vh.transitions += 2;
            if( bad( d - dist, 1e-14L)) vh_fail( "travel-distance", "%.17g at angle %.17g from latitude %d measures as %.17g", dist, pa, la, d);
            else if( i && i < n && bad( wrap( a - pa) * sin( dist), 1e-14L)) vh_fail( "travel-angle", "%.17g at angle %.17g from latitude %d measures as angle %.17g", dist, pa, la, a);
            else vh.validated++;
            const V v = sph( p2[0], p2[1]); (void)v;
            }
      }
}

/* Bennett's formula, Saastamoinen's, and the integral of the Explanatory Supplement (3.281) */
static LD bennett( LD alt)
{
   const LD d = pi / 180.L, deg = alt / d;
   LD r = 1.L / tanl( ( deg + 7.31L / ( deg + 4.4L)) * d);
   r -= .06L * sinl( ( 14.7L * r + 13.L) * d);
   return r / 60.L * d;
}
static LD saasta( LD alt, LD P, LD T, LD rh)
{
   const LD pw0 = rh * powl( T / 247.1L, 18.36L), q = ( P - .156L * pw0) / T, tz = 1.L / tanl( alt);
   return ( 16.271L * q * tz * ( 1.L + .0000394L * q * tz * tz) - .0000749L * P * ( tz + tz * tz * tz)) / 3600.L * pi / 180.L;
}
/* the refractive index as a function of height, and the refraction integral over the ray done in steps of height */
struct Air { LD r0, T0, c2, gam, c6, c7, c8, c9, nt, rt; };
static void index( const Air &a, LD r, bool trop, LD *n, LD *dn)
{
   const LD alpha = .0065L, del = 18.36L;
   if( trop)
      {
      const LD f = 1 - alpha * ( r - a.r0) / a.T0;
      *n = 1 + ( a.c6 * powl( f, a.gam - 2) - a.c7 * powl( f, del - 2)) * f;
      *dn = -a.c8 * powl( f, a.gam - 2) + a.c9 * powl( f, del - 2);
      }
   else
      {
      const LD Tt = a.T0 - alpha * ( a.rt - a.r0), e = ( a.nt - 1) * expl( -a.c2 * ( r - a.rt) / Tt);
      *n = 1 + e; *dn = -a.c2 / Tt * e;
      }
}
static LD piece( const Air &a, LD k, LD ra, LD rb, bool trop, LD za, LD zb)
{
   const int n = 400;                   /* Simpson in zenith angle */
   LD sum = 0, r = ra;
   for( int i = 0; i <= n; i++)
      {
      const LD z = za + ( zb - za) * i / n;
      LD nn, dn;
      for( int it = 0; it < 40; it++)
         {
         index( a, r, trop, &nn, &dn);
         const LD ch = -( nn * r - k / sinl( z)) / ( nn + r * dn);
         r += ch;
         if( fabsl( ch) < 1e-6L) break;
         }
      index( a, r, trop, &nn, &dn);
      const LD f = r * dn / ( nn + r * dn);
      sum += f * ( i == 0 || i == n ? 1 : ( i & 1) ? 4 : 2);
      }
   (void)rb;
   return sum * ( zb - za) / n / 3;
}
static LD integral( LD lat, LD alt, LD wl, LD h, LD rh, LD T, LD P)
{
   const LD R = 8314.36L, Md = 28.966L, Mw = 18.016L, del = 18.36L, alpha = .0065L, re = 6378120.L;
   const LD g = 9.784L * ( 1 - .0026L * cosl( 2 * lat) - .00000028L * h), pw = rh / 100 * powl( T / 247.1L, del);
   const LD A = ( 287.607L + 1.6288L / ( wl * wl) + .0136L / powl( wl, 4)) * 273.15e-6L / 1013.25L;
   Air a;
   a.r0 = re + h; a.rt = re + 11000; a.T0 = T; a.c2 = g * Md / R; a.gam = a.c2 / alpha;
   const LD c5 = pw * ( 1 - Mw / Md) * a.gam / ( del - a.gam);
   a.c6 = A * ( P + c5) / T; a.c7 = ( A * c5 + 11.2684e-6L * pw) / T;
   a.c8 = alpha * ( a.gam - 1) * a.c6 / T; a.c9 = alpha * ( del - 1) * a.c7 / T;
   LD n0, dn, ns;
   index( a, a.r0, true, &n0, &dn);
   index( a, a.rt, true, &a.nt, &dn);
   const LD z0 = pi / 2 - alt, k = n0 * a.r0 * sinl( z0), zt = asinl( k / ( a.nt * a.rt)), rs = re + 80000;
   index( a, rs, false, &ns, &dn);
   const LD zs = asinl( k / ( ns * rs));
   /* refraction = - integral of r dn/dr / (n + r dn/dr) dz */
   return piece( a, k, a.r0, a.rt, true, z0, zt) + piece( a, k, a.rt, rs, false, zt, zs);
}

static void refractions( )
{
   const LD sec = pi / 648000.L;
   const int n = vh.thorough ? 90000 : 9000;
   double prev = 1;
   for( int i = 0; i <= n; i++)
      {
      const double alt = i * M_PI / 2 / n;
      vh_at( "refraction", i);
      const double r = refraction( alt);
      vh.states++; vh.transitions += 2;
      if( bad( r - bennett( alt), 1e-12L * 20)) vh_fail( "bennett", "refraction at altitude %.9f is %.12f, should be %.12Lf", alt, r, bennett( alt)); else vh.validated++;
      if( r >= prev) vh_fail( "refraction-monotone", "refraction doesn't decrease at altitude %.9f", alt);
      prev = r;
      const double t = alt - r, rr = reverse_refraction( t);      /* t is the true altitude of an object observed at alt */
      if( i && bad( rr - r, .03L * sec)) vh_fail( "refraction-inverse", "observed altitude %.9f: refraction %.4Lf arcsec, from the true altitude %.4Lf", alt, r / sec, rr / sec);
      else vh.validated++;
      const double r2 = reverse_refraction( alt);
      if( bad( refraction( alt + r2) - r2, .02L * sec)) vh_fail( "refraction-inverse", "true altitude %.9f: refraction %.4Lf arcsec, but from the observed altitude %.4Lf", alt, r2 / sec, refraction( alt + r2) / sec);
      }
   const double Ps[] = { 850, 950, 1013.25, 1050 }, Ts[] = { 250, 273.15, 283, 310 }, hs[] = { 0, .2, .5, 1 };
   for( int i = 0; i < 64; i++)
      {
      if( !vh_mine( i)) continue;
      const double P = Ps[i & 3], T = Ts[i >> 2 & 3], h = hs[i >> 4];
      for( int a = 1; a <= 180; a++)
         {
         const double alt = a * M_PI / 360;
         vh_at( "saastamoinen", i, a);
         vh.states += 2;
         const double r = saasta_refraction( alt, P, T, h);
         const LD tz = 1 / tanl( alt);
         if( bad( r - saasta( alt, P, T, h), 1e-13L * ( 1 + tz * tz * tz))) vh_fail( "saastamoinen", "altitude %.6f pressure %.2f temperature %.2f humidity %.2f: %.12f, should be %.12Lf", alt, P, T, h, r, saasta( alt, P, T, h)); else vh.validated++;
         if( a >= 40)          /* above 20 degrees Saastamoinen's formula holds, and one iteration is enough */
            {
            const double rr = reverse_saasta_refraction( alt - r, P, T, h);
            if( bad( rr - r, .1L * sec)) vh_fail( "saastamoinen-inverse", "altitude %.6f: %.4Lf arcsec, from the true altitude %.4Lf", alt, r / sec, rr / sec); else vh.validated++;
            }
         }
      for( int w = 0; w < 3; w++)
         for( int l = 0; l < 3; l++)
            for( int a = 0; a <= ( vh.thorough ? 90 : 30); a++)
               {
               const double wl = .4 + .2 * w, lat = l * .7 - .3, ht = ( i % 5) * 1000., alt = M_PI / 2. * ( a / ( vh.thorough ? 90. : 30.));
               if( a * 2 < 2 && i % 5 == 4) continue;
               vh_at( "integrated", i, w, l, a);
               vh.states += 2; vh.transitions += 2;
               const double r = integrated_refraction( lat, alt, wl, ht, h * 100., T, P);
               const LD want = integral( lat, alt, wl, ht, h * 100., T, P);
               if( bad( r - want, .02L * sec + ( alt < .05 ? .001L : h > .6 ? .0006L : .0001L) * want)) vh_fail( "integrated-refraction", "latitude %.2f altitude %.6f wavelength %.2f height %.0f humidity %.0f%% temperature %.2f pressure %.2f: %.5Lf arcsec, should be %.5Lf",
                     lat, alt, wl, ht, h * 100., T, P, r / sec, want / sec); else vh.validated++;
               if( a > 0)
                  {
                  const double rr = reverse_integrated_refraction( lat, alt - r, wl, ht, h * 100., T, P);
                  if( bad( rr - r, .1L * sec)) vh_fail( "integrated-inverse", "altitude %.6f: %.4Lf arcsec, from the true altitude %.4Lf", alt, r / sec, rr / sec); else vh.validated++;
                  }
               vh_outcome( vh_hash( &r, 8));
               }
      }
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   distances( );
   refractions( );
   return vh_done( );
}
