/* C31: sky brightness, extinction and limiting magnitude (vislimit.cpp) against
   Schaefer's model (Sky & Telescope, May 1998, 57) written in long double from
   the article's quantities; the structure is carried through every order of the
   calls and every mask.                                                        */
#include "vh.h"
#include "vislimit.h"
typedef long double ld;
static const ld PIL = 3.14159265358979323846264338327950288L;
static ld mag( ld x) { return powl( 10.L, -.4L * x); }
static ld X( ld z) { const ld c = cosl( z); return c > 0.L ? 1.L / ( c + .025L * expl( -11.L * c)) : 40.L; }
struct In { double v[12]; };     /* zm, zs, elong, ht, lat, temp, rh, year, month, z, dm, ds */
struct Ref { ld k[5], kr[5], ka[5], ko[5], kw[5], ext[5], b[5], lim, limt; };
static void model( const In &in, Ref &r)
{
   static const ld wave[5] = { .365L, .44L, .55L, .7L, .9L }, oz[5] = { 0, 0, .031L, .008L, 0 }, wt[5] = { .074L, .045L, .031L, .02L, .015L };
   static const ld bo[5] = { 8e-14L, 7e-14L, 1e-13L, 1e-13L, 3e-13L }, cm[5] = { 1.36L, .91L, 0, -.76L, -1.17L };
   static const ld ms[5] = { -25.96L, -26.09L, -26.74L, -27.26L, -27.55L }, mo[5] = { -10.93L, -10.45L, -11.05L, -11.90L, -12.70L };
   const ld zm = in.v[0], zs = in.v[1], el = in.v[2], ht = in.v[3], lat = in.v[4], T = in.v[5], rh = in.v[6], yr = in.v[7], mo_ = in.v[8], z = in.v[9], dm = in.v[10], ds = in.v[11];
   const ld as = ( mo_ - 3.L) * PIL / 6.L;           /* the Sun's right ascension */
   ld hum = 1.L;
   if( rh > 0.L) hum = powl( rh >= 100.L ? 1e6L : 1.L - .32L / logl( rh / 100.L), 1.33L);
   ld alpha = fabsl( 180.L - el * 180.L / PIL);      /* phase angle, 0 at full moon */
   alpha = fmodl( alpha, 360.L); if( alpha > 180.L) alpha = 360.L - alpha;
   const ld mm = -12.73L + .026L * alpha + 4e-9L * alpha * alpha * alpha * alpha;
   const ld sz = sinl( z), deg = 180.L / PIL;
   auto F = [&]( ld d) { const ld dd = d * deg; return 6.2e7L / ( dd * dd) + powl( 10.L, 6.15L - dd / 40.L) + powl( 10.L, 5.36L) * ( 1.06L + cosl( d) * cosl( d)); };
   const ld xg = 1.L / ( cosl( z) + .0286L * expl( -10.5L * cosl( z))), xa = 1.L / ( cosl( z) + .0123L * expl( -24.5L * cosl( z)));
   const ld xo = 1.L / sqrtl( 1.L - powl( sz / ( 1.L + 20.L / 6378.L), 2));
   for( int i = 0; i < 5; i++)
      {
      r.kr[i] = .1066L * expl( -ht / 8200.L) * powl( wave[i] / .55L, -4.L);
      r.ka[i] = .1L * powl( wave[i] / .55L, -1.3L) * expl( -ht / 1500.L) * hum * ( 1.L + sinl( as) * sinl( lat));
      r.ko[i] = oz[i] * ( 3.L + .4L * ( lat * cosl( as) - cosl( 3.L * lat))) / 3.L;
      r.kw[i] = wt[i] * .94L * ( rh / 100.L) * expl( T / 15.L) * expl( -ht / 8200.L);
      const ld k = r.k[i] = r.kr[i] + r.ka[i] + r.ko[i] + r.kw[i];
      r.ext[i] = ( r.kr[i] + r.kw[i]) * xg + r.ka[i] * xa + r.ko[i] * xo;
      const ld lost = 1.L - mag( k * X( z)), c3 = mag( k * X( zm)), c4 = mag( k * X( zs));
      const ld night = bo[i] * ( 1.L + .3L * cosl( 2.L * PIL * ( yr - 1992.L) / 11.L)) * ( .4L + .6L / sqrtl( 1.L - .96L * sz * sz)) * mag( k * X( z));
      ld moon = mag( mm + cm[i] - mo[i] + 43.27L) * lost * ( F( dm) * c3 + 440000.L * ( 1.L - c3));
      if( zm > PIL / 2.L) moon *= expl( 100.L * ( PIL / 2.L - zm));
      const ld hs = 90.L - zs * deg;
      const ld twi = mag( ms[i] - mo[i] + 32.5L - hs - z * deg / ( 360.L * k)) * ( 100.L / ( ds * deg)) * ( 1.L - mag( k));
      const ld daylight = mag( ms[i] - mo[i] + 43.27L) * lost * ( F( ds) * c4 + 440000.L * ( 1.L - c4));
      r.b[i] = night + moon + ( twi < daylight ? twi : daylight);
      }
   const ld bl = r.b[2] / 1.11e-15L;
   const ld c1 = bl > 1500.L ? powl( 10.L, -8.35L) : powl( 10.L, -9.8L), c2 = bl > 1500.L ? powl( 10.L, -5.9L) : powl( 10.L, -1.9L);
   r.lim = -16.57L - 2.5L * log10l( c1 * powl( 1.L + sqrtl( c2 * bl), 2)) - r.ext[2]; r.limt = fabsl( bl - 1500.L) < .01L ? 1.L : 3e-4L;
}
static void load( BRIGHTNESS_DATA &b, const In &in)
{
   b.zenith_ang_moon = in.v[0]; b.zenith_ang_sun = in.v[1]; b.moon_elongation = in.v[2]; b.ht_above_sea_in_meters = in.v[3]; b.latitude = in.v[4]; b.temperature_in_c = in.v[5];
   b.relative_humidity = in.v[6]; b.year = in.v[7]; b.month = in.v[8]; b.zenith_angle = in.v[9]; b.dist_moon = in.v[10]; b.dist_sun = in.v[11];
}
static bool off( ld got, ld want, ld rel) { return !( fabsl( got - want) <= rel * fabsl( want) + 1e-300L); }
static bool check( const BRIGHTNESS_DATA &b, const In &in, const Ref &r, int mask, bool bright, bool ext)
{
   bool ok = true; char at[300]; snprintf( at, sizeof at, "Moon z %.2f Sun z %.2f elong %.2f ht %.0f lat %.2f T %.0f rh %.0f year %.0f month %.0f z %.2f dm %.2f ds %.2f mask %d", in.v[0], in.v[1], in.v[2], in.v[3], in.v[4], in.v[5], in.v[6], in.v[7], in.v[8], in.v[9], in.v[10], in.v[11], mask);
   for( int i = 0; i < 5; i++)
      {
      if( off( b.k[i], r.k[i], 2e-6L)) { vh_fail( "k", "%s: band %d extinction per air mass %.9g, should be %.9Lg", at, i, b.k[i], r.k[i]); ok = false; }
      if( !( mask >> i & 1)) continue;
      if( ext && off( b.extinction[i], r.ext[i], 1e-5L)) { vh_fail( "extinction", "%s: band %d extinction %.9g, should be %.9Lg", at, i, b.extinction[i], r.ext[i]); ok = false; }
      /* 229086 is 10^5.36 to six figures */
      if( bright && off( b.brightness[i], r.b[i], 2e-4L)) { vh_fail( "brightness", "%s: band %d brightness %.9g, should be %.9Lg", at, i, b.brightness[i], r.b[i]); ok = false; }
      }
   if( bright && ext && ( mask & 4))
      {
      BRIGHTNESS_DATA c = b; const double lim = compute_limiting_mag( &c);
      if( !( fabsl( lim - r.lim) < r.limt)) { vh_fail( "limit", "%s: limiting magnitude %.6f, should be %.6Lf", at, lim, r.lim); ok = false; }
      if( memcmp( &c, &b, sizeof b)) { vh_fail( "limit", "%s: compute_limiting_mag( ) changed the data", at); ok = false; }
      }
   return ok;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   const double D = M_PI / 180.; uint64_t n = 0;
   std::vector<std::vector<double>> g = {
      { 0, 30 * D, 89 * D, 90.5 * D, 120 * D }, { 0, 60 * D, 89.5 * D, 96 * D, 105 * D, 150 * D }, { 0, 60 * D, 180 * D, 300 * D, 359 * D, -170 * D }, { 0, 1000, 4200 }, { -60 * D, 0, 35 * D, 89 * D },
      { -20, 15, 35 }, { 0, 40, 99, 100 }, { 1992, 1998.5, 2024 }, { 1, 2, 6.5, 12 }, { 0, 45 * D, 80 * D, 89.9 * D, 91 * D }, { .5 * D, 50 * D, 170 * D }, { .3 * D, 40 * D, 179 * D } };
   if( !vh.thorough) { g[5] = { -20, 15 }; g[7] = { 1992, 1998.5 }; g[3] = { 0, 2500 }; g[8] = { 2, 6.5, 12 }; g[4] = { -60 * D, 35 * D }; }
   uint64_t total = 1; for( auto &v : g) total *= v.size( );
   BRIGHTNESS_DATA b; memset( &b, 0, sizeof b);
   for( uint64_t k = 0; k < total; k++)
      {
      if( !vh_mine( k / 1024)) continue;
      In in; uint64_t x = k; for( int i = 0; i < 12; i++) { in.v[i] = g[i][x % g[i].size( )]; x /= g[i].size( ); }
      vh_at( "grid", (long)k, 0); vh.states++; vh.transitions += 3;
      Ref r; model( in, r); const int mask = 1 + (int)( k % 31); load( b, in); b.mask = mask;
      set_brightness_params( &b);
      double old_b[5], old_e[5]; memcpy( old_b, b.brightness, sizeof old_b); memcpy( old_e, b.extinction, sizeof old_e);
      compute_sky_brightness( &b); compute_extinction( &b);
      bool ok = check( b, in, r, mask, true, true);
      for( int i = 0; i < 5; i++) if( !( mask >> i & 1) && ( memcmp( &old_b[i], &b.brightness[i], 8) || memcmp( &old_e[i], &b.extinction[i], 8))) { vh_fail( "mask", "mask %d: band %d was changed", mask, i); ok = false; }
      In back = in; BRIGHTNESS_DATA c = b; load( c, back); if( memcmp( &b, &c, sizeof b)) { vh_fail( "inputs", "the inputs were changed"); ok = false; }
      if( ok) vh.validated++;
      if( k % 4097 == 0) vh_outcome( (uint64_t)( r.lim * 1000));
      }
   /* every sequence of calls on one structure: set, point at A or B, change site, brightness, extinction, with every mask */
   static const In sites[2] = { { { 40 * D, 105 * D, M_PI, 1000, 30 * D, 15, 40, 1998, 2, 0, 50 * D, 40 * D } }, { { 100 * D, 80 * D, 1., 0, -40 * D, 25, 90, 2003, 8, 0, 20 * D, 90 * D } } };
   static const double pts[2][3] = { { 0., 50 * D, 40 * D }, { 70 * D, 100 * D, 140 * D } };
   const int depth = vh.thorough ? 8 : 6; uint64_t seqs = 1; for( int i = 0; i < depth; i++) seqs *= 7;
   for( uint64_t s = 0; s < seqs; s++)
      {
      if( !vh_mine( n++ / 256)) continue;
      vh_at( "sequence", (long)s, 0); vh.states++;
      BRIGHTNESS_DATA d; memset( &d, 0, sizeof d); In cur = sites[0], prm = sites[0]; load( d, cur); d.mask = 31; set_brightness_params( &d);
      In bi[5], ei[5]; int have_b = 0, have_e = 0; uint64_t x = s; bool ok = true;
      for( int i = 0; i < depth; i++, x /= 7)
         {
         vh.transitions++;
         switch( x % 7)
            {
            case 0: case 1: for( int q = 0; q < 9; q++) cur.v[q] = sites[x % 7].v[q]; load( d, cur); set_brightness_params( &d); prm = cur; break;
            case 2: case 3: memcpy( cur.v + 9, pts[x % 7 - 2], 24); load( d, cur); break;
            case 4: compute_sky_brightness( &d); for( int q = 0; q < 5; q++) if( d.mask >> q & 1) { bi[q] = cur; have_b |= 1 << q; } break;
            case 5: compute_extinction( &d); for( int q = 0; q < 5; q++) if( d.mask >> q & 1) { ei[q] = cur; have_e |= 1 << q; } break;
            case 6: d.mask = d.mask == 31 ? 4 : d.mask == 4 ? 18 : 31; break;
            }
         }
      for( int q = 0; q < 5; q++)
         {
         Ref r;
         if( have_b >> q & 1) { model( bi[q], r); if( off( d.brightness[q], r.b[q], 2e-4L)) { ok = false; vh_fail( "sequence", "after calls %llu band %d brightness is %.9g, should be %.9Lg", (unsigned long long)s, q, d.brightness[q], r.b[q]); } } else if( d.brightness[q] != 0.) { ok = false; vh_fail( "sequence", "band %d brightness set without being asked for", q); }
         if( have_e >> q & 1) { model( ei[q], r); if( off( d.extinction[q], r.ext[q], 2e-6L)) { ok = false; vh_fail( "sequence", "after calls %llu band %d extinction is %.9g, should be %.9Lg", (unsigned long long)s, q, d.extinction[q], r.ext[q]); } } else if( d.extinction[q] != 0.) { ok = false; vh_fail( "sequence", "band %d extinction set without being asked for", q); }
         }
      if( ok) vh.validated++;
      }
   vh_sample( "full Moon 50 deg away, Sun 15 deg down: V limit");
   return vh_done( );
}
