/* C14 : sky coordinate systems.  A complete grid of points, observers and
   instants; each conversion is compared with spherical geometry done on
   vectors in extended precision, and undone. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"

typedef long double LD;
static const LD pi = 3.141592653589793238462643383279502884L, DEG = pi / 180.L;
struct V { LD x, y, z; };
static V sph( LD lon, LD lat) { return V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }; }
static LD sep( V a, V b)
{
   const LD cx = a.y * b.z - a.z * b.y, cy = a.z * b.x - a.x * b.z, cz = a.x * b.y - a.y * b.x;
   return atan2l( sqrtl( cx * cx + cy * cy + cz * cz), a.x * b.x + a.y * b.y + a.z * b.z);
}
static LD dot( V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross( V a, V b) { return V{ a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
struct Basis { V i, j, k; };            /* pole k, zero of longitude i */
static V to( const Basis &b, V v) { return V{ dot( b.i, v), dot( b.j, v), dot( b.k, v) }; }
static V from( const Basis &b, V v)
{ return V{ b.i.x * v.x + b.j.x * v.y + b.k.x * v.z, b.i.y * v.x + b.j.y * v.y + b.k.y * v.z, b.i.z * v.x + b.j.z * v.y + b.k.z * v.z }; }

/* mean sidereal time, IAU 1982 (Meeus 12.4) */
static LD ref_gst( double jd)
{
   const LD d = (LD)jd - 2451545.L, t = d / 36525.L;
   return 280.46061837L + 360.98564736629L * d + 0.000387933L * t * t - t * t * t / 38710000.L;
}
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }
static LD wrap( LD a) { a = fmodl( a, 2 * pi); if( a > pi) a -= 2 * pi; if( a < -pi) a += 2 * pi; return a; }

static Basis galactic( )
{                 /* pole 192.85948, +27.12825, and the galactic longitude of the celestial pole 122.93192 */
   const V k = sph( 192.85948L * DEG, 27.12825L * DEG), ncp{ 0, 0, 1 };
   V n = ncp;                              /* component of the celestial pole in the galactic plane */
   const LD s = dot( n, k);
   n.x -= s * k.x; n.y -= s * k.y; n.z -= s * k.z;
   const LD len = sqrtl( dot( n, n)), l = 122.93192L * DEG;
   n.x /= len; n.y /= len; n.z /= len;
   const V m = cross( k, n);             /* longitude l + 90 */
   Basis b; b.k = k;
   b.i = V{ n.x * cosl( l) - m.x * sinl( l), n.y * cosl( l) - m.y * sinl( l), n.z * cosl( l) - m.z * sinl( l) };
   b.j = cross( b.k, b.i);
   return b;
}
static Basis supergalactic( )
{                 /* pole at galactic 47.37, +6.32; zero point at galactic 137.37, 0 */
   const Basis g = galactic( );
   Basis b;
   b.k = from( g, sph( 47.37L * DEG, 6.32L * DEG));
   b.i = from( g, sph( 137.37L * DEG, 0));
   b.j = cross( b.k, b.i);
   return b;
}
typedef void (DLL_FUNC *conv)( const double, const double, double *, double *);
typedef void (DLL_FUNC *conv2)( const double, double, double *, double *);

static void system_check( const char *name, const Basis &b, conv fwd, conv2 rev, const double *m, LD tol_ref, LD tol_back)
{
   const LD rows[9] = { b.i.x, b.i.y, b.i.z, b.j.x, b.j.y, b.j.z, b.k.x, b.k.y, b.k.z };
   for( int i = 0; i < 9; i++)
      if( bad( m[i] - rows[i], tol_ref))
         vh_fail( "system-matrix", "%s matrix element %d is %.12f, should be %.12Lf", name, i, m[i], rows[i]);
   const int n = vh.thorough ? 720 : 180;
   for( int a = 0; a <= n; a++)
      {
      if( !vh_mine( a)) continue;
      for( int d = -n / 2; d <= n / 2; d++)
         for( int near_ = -1; near_ <= 1; near_++)
            {
            const double ra = ( a + near_ * 1e-4) * 2 * M_PI / n, dec = d * M_PI / n;
            vh_at( name, a, d, near_);
            double glat = 99, glon = 99, ra2 = 99, dec2 = 99;
            fwd( ra, dec, &glat, &glon);
            rev( glat, glon, &ra2, &dec2);
            const V v = sph( ra, dec);
            vh.states += 2; vh.transitions += 2;
            if( bad( sep( to( b, v), sph( glon, glat)), tol_ref) || fabs( glat) > M_PI / 2 + 1e-12)
               vh_fail( "system-forward", "%s coordinates of RA %.9f dec %.9f (radians) are given as %.9f %.9f", name, ra, dec, glon, glat);
            else vh.validated++;
            if( bad( sep( v, sph( ra2, dec2)), tol_back) || fabs( dec2) > M_PI / 2 + 1e-12)
               vh_fail( "system-back", "RA %.9f dec %.9f to %s and back gives %.9f %.9f", ra, dec, name, ra2, dec2);
            else vh.validated++;
            double glat3 = 99, glon3 = 99;         /* and the point taken as a position in that system */
            rev( dec, ra, &ra2, &dec2);
            fwd( ra2, dec2, &glat3, &glon3);
            if( bad( sep( from( b, v), sph( ra2, dec2)), tol_ref))
               vh_fail( "system-reverse", "%s %.9f %.9f is given as RA %.9f dec %.9f", name, ra, dec, ra2, dec2);
            if( bad( sep( v, sph( glon3, glat3)), tol_back))
               vh_fail( "system-back", "%s %.9f %.9f to RA/dec and back gives %.9f %.9f", name, ra, dec, glon3, glat3);
            vh_outcome( vh_hash( &glon, sizeof( glon)));
            }
      }
}

static V prec( double year, V v, bool backward)
{
   double m[9], a[3] = { (double)v.x, (double)v.y, (double)v.z }, r[3];
   setup_precession( m, 2000., year);
   if( backward) deprecess_vector( m, a, r); else precess_vector( m, a, r);
   return V{ r[0], r[1], r[2] };
}

static void horizon( )
{
   std::vector<double> lats, lons, ras, decs, jds;
   for( int i = -90; i <= 90; i += vh.thorough ? 5 : 15) lats.push_back( i * M_PI / 180);
   for( double e : { 1e-9, 1e-7, 4e-6, 1e-5, 1.1e-5, 1e-3 })
      { lats.push_back( M_PI / 2 - e); lats.push_back( -M_PI / 2 + e); }
   lats.push_back( .7); lats.push_back( 1e-9);
   for( int i = -180; i < 360; i += vh.thorough ? 30 : 75) lons.push_back( i * M_PI / 180);
   for( int i = 0; i < 360; i += vh.thorough ? 10 : 20) ras.push_back( ( i + .3) * M_PI / 180);
   ras.push_back( 0); ras.push_back( M_PI);
   for( int i = -90; i <= 90; i += vh.thorough ? 5 : 10) decs.push_back( i * M_PI / 180);
   decs.push_back( M_PI / 2 - 1e-6); decs.push_back( -M_PI / 2 + 1e-6); decs.push_back( .7);
   for( double d : { 2451545.0, 2451545.25, 2415020.3, 2460000.9, 2433282.4235, 1721060.1, 2816788.7 }) jds.push_back( d);
   for( size_t il = 0; il < lats.size( ); il++)
      for( size_t io = 0; io < lons.size( ); io++)
         {
         if( !vh_mine( il * 31 + io)) continue;
         for( double jd : jds)
            {
            const double t = ( jd - 2451545.) / 36525., year = 2000. + t * 100.;
            double dpsi;
            nutation( t, &dpsi, NULL);
            const LD eqeq = 0.917482062069181826L * dpsi * DEG / 3600.L;
            const LD lst = fmodl( ref_gst( jd), 360.L) * DEG + lons[io];
            const LD lat = lats[il];
            for( double ra : ras)
               for( double dec : decs)
                  {
                  vh_at( "horizon"); vh_d( jd); vh_d( lats[il]); vh_d( lons[io]); vh_d( ra); vh_d( dec);
                  DPT rd, aa, loc, latlon; double ha;
                  rd.x = -ra; rd.y = dec; latlon.x = lons[io]; latlon.y = lats[il];
                  aa.x = aa.y = loc.x = loc.y = ha = 99;
                  full_ra_dec_to_alt_az( &rd, &aa, &loc, &latlon, jd, &ha);
                  vh.states++; vh.transitions++;
                  bool ok = true;
                  const V at = prec( year, sph( ra, dec), false);
                  if( bad( sep( sph( -loc.x, loc.y), at), 6e-8L))
                     { ok = false; vh_fail( "horizon-epoch", "RA %.9f dec %.9f at %.4f is given as %.9f %.9f", ra, dec, year, -loc.x, loc.y); }
                  const LD h = -wrap( -loc.x - lst - eqeq);        /* hour angle, west positive */
                  if( bad( wrap( ha + h), 2e-9L) || ha > M_PI + 1e-12 || ha < -M_PI - 1e-12)
                     { ok = false; vh_fail( "hour-angle", "JD %.5f longitude %.6f RA(date) %.9f: RA minus sidereal time %.9f, should be %.9Lf", jd, lons[io], -loc.x, ha, -h); }
                  /* south, west, up */
                  const V hv{ sinl( lat) * cosl( loc.y) * cosl( h) - cosl( lat) * sinl( loc.y), cosl( loc.y) * sinl( h),
                              sinl( lat) * sinl( loc.y) + cosl( lat) * cosl( loc.y) * cosl( h) };
                  const LD tol = 1e-7L + ( cosl( lat) < 1e-5L ? 2.5e-5L : sqrtl( 2e-15L / cosl( lat)));
                  if( bad( sep( hv, sph( aa.x, aa.y)), tol) || fabs( aa.y) > M_PI / 2 + 1e-9)
                     { ok = false; vh_fail( "alt-az", "JD %.5f latitude %.9f, hour angle %.9Lf dec %.9f: azimuth %.9f (from the south, west positive) altitude %.9f, should be %.9Lf %.9Lf",
                           jd, lats[il], h, loc.y, aa.x, aa.y, atan2l( hv.y, hv.x), asinl( hv.z)); }
                  /* optional arguments */
                  DPT aa2, aa3, aa4, loc2 = loc; double ha2 = 99;
                  full_ra_dec_to_alt_az( &rd, &aa2, NULL, &latlon, jd, NULL);
                  full_ra_dec_to_alt_az( NULL, &aa3, &loc2, &latlon, jd, &ha2);
                  full_ra_dec_to_alt_az( NULL, &aa4, &loc2, &latlon, jd, NULL);
                  if( aa2.x != aa.x || aa2.y != aa.y || aa3.x != aa.x || aa3.y != aa.y || aa4.x != aa.x || aa4.y != aa.y || ha2 != ha || loc2.x != loc.x || loc2.y != loc.y)
                     { ok = false; vh_fail( "alt-az-optional", "JD %.5f: the result depends on which of the optional arguments is given", jd); }
                  /* and back: this direction takes azimuths from the north */
                  for( int form = 0; form < 3; form++)
                     {
                     DPT in = aa, back; back.x = back.y = 99;
                     in.x += M_PI;
                     if( form == 1) { in.y = M_PI - in.y; in.x += M_PI; }        /* the same point, over the zenith */
                     if( form == 2) { in.y = -M_PI - in.y; in.x -= M_PI; }
                     full_alt_az_to_ra_dec( &back, &in, jd, &latlon);
                     const V d0 = from( Basis{ V{ 1, 0, 0 }, V{ 0, 1, 0 }, V{ 0, 0, 1 } }, sph( aa.x, aa.y));
                     /* equatorial coordinates of that alt/az */
                     const LD sx = sinl( lat) * d0.x + cosl( lat) * d0.z, sz = -cosl( lat) * d0.x + sinl( lat) * d0.z;
                     const LD hh = atan2l( d0.y, sx), dd = atan2l( sz, sqrtl( sx * sx + d0.y * d0.y));
                     const V want = prec( year, sph( lst + eqeq - hh, dd), true);
                     if( bad( sep( sph( -back.x, back.y), want), tol + 1e-7L))
                        { ok = false; vh_fail( "ra-dec", "JD %.5f latitude %.9f longitude %.6f, azimuth %.9f (from the north) altitude %.9f: RA %.9f dec %.9f, should be %.9Lf %.9Lf",
                              jd, lats[il], lons[io], in.x, in.y, -back.x, back.y, atan2l( want.y, want.x), asinl( want.z)); }
                     if( bad( sep( sph( -back.x, back.y), sph( ra, dec)), 2 * tol + 1e-7L))
                        { ok = false; vh_fail( "alt-az-back", "JD %.5f latitude %.9f longitude %.6f: RA %.9f dec %.9f to alt/az and back gives %.9f %.9f",
                              jd, lats[il], lons[io], ra, dec, -back.x, back.y); }
                     vh.transitions++;
                     }
                  if( ok) vh.validated++;
                  if( !( ( vh.states) & 255)) vh_outcome( vh_hash( &aa, sizeof( aa)));
                  if( vh.states == 1000) vh_sample( "JD %.4f lat %.4f RA %.5f dec %.5f -> az %.5f alt %.5f", jd, lats[il], ra, dec, aa.x, aa.y);
                  }
            }
         }
}

static void precess_points( )
{
   const double ys[] = { 1600., 1875., 1950., 1991.25, 2000., 2000.0001, 2050., 2500. };
   for( int i = 0; i < 8; i++)
      for( int j = 0; j < 8; j++)
         {
         if( !vh_mine( i * 8 + j)) continue;
         for( int a = -18; a < 36; a++)
            for( int d = -18; d <= 18; d++)
               {
               DPT p, q, r; p.x = a * M_PI / 18 + .01; p.y = d * M_PI / 36;
               vh_at( "precess_pt", i, j, a, d);
               q.x = q.y = r.x = r.y = 99;
               precess_pt( &q, &p, ys[i], ys[j]);
               precess_pt( &r, &q, ys[j], ys[i]);
               V want = sph( -p.x, p.y);
               if( i != j) { want = prec( ys[i], want, true); want = prec( ys[j], want, false); }
               vh.states++; vh.transitions += 2;
               bool ok = true;
               if( bad( sep( sph( -q.x, q.y), want), 6e-8L)) { ok = false; vh_fail( "precess-point", "%.9f %.9f from %.4f to %.4f gives %.9f %.9f", p.x, p.y, ys[i], ys[j], q.x, q.y); }
               if( bad( sep( sph( -r.x, r.y), sph( -p.x, p.y)), 8e-8L)) { ok = false; vh_fail( "precess-point-back", "%.9f %.9f from %.4f to %.4f and back gives %.9f %.9f", p.x, p.y, ys[i], ys[j], r.x, r.y); }
               DPT s = p; precess_pt( &s, &s, ys[i], ys[j]);
               if( s.x != q.x || s.y != q.y) { ok = false; vh_fail( "precess-point-inplace", "%.9f %.9f from %.4f to %.4f in place gives %.9f %.9f", p.x, p.y, ys[i], ys[j], s.x, s.y); }
               if( ok) vh.validated++;
               }
         }
}

static void sidereal( )
{
   const int n = vh.thorough ? 4000000 : 400000;
   for( int i = 0; i < n; i++)
      {
      if( !vh_mine( i)) continue;
      const double jd = 1000000. + i * ( 3000000. / n) + ( i % 97) / 97.;
      vh_at( "sidereal"); vh_d( jd);
      const LD want = fmodl( ref_gst( jd), 360.L);
      vh.states++;
      if( bad( wrap( green_sidereal_time( jd) - want * DEG), 3e-9L)) vh_fail( "sidereal-time", "JD %.5f: %.12f radians, should be %.12Lf", jd, green_sidereal_time( jd), want * DEG);
      else vh.validated++;
      }
   for( int i = 0; i < 200000; i++)
      {
      if( !vh_mine( i)) continue;
      const double jd = 2400000.5 + i + ( i % 89) / 89.;
      vh_at( "sidereal"); vh_d( jd);
      vh.states++;
      if( bad( wrap( green_sidereal_time( jd) - fmodl( ref_gst( jd), 360.L) * DEG), 3e-10L)) vh_fail( "sidereal-time", "JD %.5f: %.12f radians", jd, green_sidereal_time( jd));
      else vh.validated++;
      }
}

/* vectors: the obliquity of J2000, rotations, products */
static void vectors( )
{
   const LD eps = 84381.448L / 3600.L * DEG;
   double comp[] = { -2.5, -1, -1e-9, 0, .3, 1, 7 };
   for( int i = 0; i < 343; i++)
      {
      if( !vh_mine( i)) continue;
      const double v[3] = { comp[i % 7], comp[i / 7 % 7], comp[i / 49] };
      vh_at( "vectors", i);
      double e[3] = { v[0], v[1], v[2] }, b[3];
      equatorial_to_ecliptic( e);
      vh.states++; vh.transitions += 2;
      bool ok = true;
      const LD w[3] = { v[0], v[1] * cosl( eps) + v[2] * sinl( eps), v[2] * cosl( eps) - v[1] * sinl( eps) };
      for( int k = 0; k < 3; k++) { if( bad( e[k] - w[k], 1e-14L)) { ok = false; vh_fail( "ecliptic", "component %d of the ecliptic form of (%g %g %g) is %.15f", k, v[0], v[1], v[2], e[k]); } b[k] = e[k]; }
      ecliptic_to_equatorial( b);
      for( int k = 0; k < 3; k++) if( bad( b[k] - v[k], 2e-15L * 8)) { ok = false; vh_fail( "ecliptic-back", "(%g %g %g) to ecliptic and back gives %.17g for component %d", v[0], v[1], v[2], b[k], k); }
      for( int k = 0; k < 3; k++) b[k] = v[k];
      ecliptic_to_equatorial( b); equatorial_to_ecliptic( b);
      for( int k = 0; k < 3; k++) if( bad( b[k] - v[k], 2e-15L * 8)) { ok = false; vh_fail( "ecliptic-back", "(%g %g %g) from ecliptic and back gives %.17g for component %d", v[0], v[1], v[2], b[k], k); }
      const LD len = sqrtl( (LD)v[0] * v[0] + (LD)v[1] * v[1] + (LD)v[2] * v[2]);
      if( bad( vector3_length( v) - len, 1e-14L)) { ok = false; vh_fail( "vector-length", "(%g %g %g)", v[0], v[1], v[2]); }
      if( len > 0)
         {
         double n[3] = { v[0], v[1], v[2] };
         const double l = normalize_vect3( n);
         if( bad( l - len, 1e-14L) || bad( n[0] - v[0] / len, 1e-15L) || bad( n[1] - v[1] / len, 1e-15L) || bad( n[2] - v[2] / len, 1e-15L)) { ok = false; vh_fail( "normalize", "(%g %g %g)", v[0], v[1], v[2]); }
         }
      for( int j = 0; j < 343; j++)
         {
         const double u[3] = { comp[j % 7] + .125, comp[j / 7 % 7], comp[j / 49] };
         double x[3];
         vector_cross_product( x, v, u);
         vh.states++; vh.transitions++;
         if( bad( dot_product( v, u) - ( (LD)v[0] * u[0] + (LD)v[1] * u[1] + (LD)v[2] * u[2]), 1e-13L)) { ok = false; vh_fail( "dot-product", "(%g %g %g).(%g %g %g)", v[0], v[1], v[2], u[0], u[1], u[2]); }
         if( bad( x[0] - ( (LD)v[1] * u[2] - (LD)v[2] * u[1]), 1e-13L) || bad( x[1] - ( (LD)v[2] * u[0] - (LD)v[0] * u[2]), 1e-13L) || bad( x[2] - ( (LD)v[0] * u[1] - (LD)v[1] * u[0]), 1e-13L))
            { ok = false; vh_fail( "cross-product", "(%g %g %g)x(%g %g %g)", v[0], v[1], v[2], u[0], u[1], u[2]); }
         else vh.validated++;
         }
      for( int axis = 0; axis < 3; axis++)
         for( int a = -36; a <= 36; a++)
            {
            const double ang = a * M_PI / 18;
            double r[3] = { v[0], v[1], v[2] };
            rotate_vector( r, ang, axis);
            const int p = ( axis + 1) % 3, q = ( axis + 2) % 3;
            vh.states++; vh.transitions += 2;
            if( r[axis] != v[axis] || bad( r[p] - ( v[p] * cosl( ang) - v[q] * sinl( ang)), 1e-14L) || bad( r[q] - ( v[q] * cosl( ang) + v[p] * sinl( ang)), 1e-14L))
               vh_fail( "rotate", "(%g %g %g) by %.4f about axis %d", v[0], v[1], v[2], ang, axis);
            else vh.validated++;
            }
      if( ok) vh.validated++;
      }
   for( int a = -40; a <= 40; a++)
      for( int d = -20; d <= 20; d++)
         {
         if( !vh_mine( a + 40)) continue;
         double v[3]; const double lon = a * M_PI / 20, lat = d * M_PI / 40;
         polar3_to_cartesian( v, lon, lat);
         const V w = sph( lon, lat);
         vh_at( "polar", a, d); vh.states++;
         if( bad( v[0] - w.x, 1e-15L) || bad( v[1] - w.y, 1e-15L) || bad( v[2] - w.z, 1e-15L)) vh_fail( "polar", "%.6f %.6f", lon, lat); else vh.validated++;
         }
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   system_check( "galactic", galactic( ), ra_dec_to_galactic, galactic_to_ra_dec, j2000_to_galactic_matrix( ), 6e-8L, 8e-8L);
   system_check( "supergalactic", supergalactic( ), ra_dec_to_supergalactic, supergalactic_to_ra_dec, j2000_to_supergalactic_matrix( ), 1e-7L, 1.5e-7L);
   precess_points( );
   sidereal( );
   vectors( );
   horizon( );
   return vh_done( );
}
