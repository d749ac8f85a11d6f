/* C29: planetary and lunar series: the place is the sum of the terms in the data file, all of them, or the file is refused. */
#include "vh.h"
#include <stddef.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"
int get_earth_loc( const double t_millennia, double *results);
typedef long double LD;
static const LD PI_ = 3.14159265358979323846264338327950288L;
typedef std::string S;
static uint32_t rnd_state;
static uint32_t rnd( ) { rnd_state = rnd_state * 1664525u + 1013904223u; return rnd_state >> 8; }
static double uni( ) { return rnd( ) / 16777216.; }
template <class T> static void put( S &s, size_t at, T v) { if( s.size( ) < at + sizeof( T)) s.resize( at + sizeof( T)); memcpy( &s[at], &v, sizeof( T)); }
template <class T> static void add( S &s, T v) { put( s, s.size( ), v); }
static int open_fds( ) { const int f = open( "/dev/null", O_RDONLY); close( f); return f; }
/* blocks of memory not given back yet */
static long live_blocks;
extern "C" { void *__libc_malloc( size_t); void *__libc_calloc( size_t, size_t); void *__libc_realloc( void *, size_t); void __libc_free( void *);
void *malloc( size_t n) { live_blocks++; return __libc_malloc( n); }
void *calloc( size_t n, size_t k) { live_blocks++; return __libc_calloc( n, k); }
void *realloc( void *p, size_t n) { if( !p) live_blocks++; return __libc_realloc( p, n); }
void free( void *p) { if( p) live_blocks--; __libc_free( p); } }
static long in_use( ) { return live_blocks; }
static void write_file( const char *name, const S &s) { FILE *f = fopen( name, "wb"); fwrite( s.data( ), 1, s.size( ), f); fclose( f); }
static bool close_to( LD a, double b, LD tol) { return fabsl( a - (LD)b) <= tol; }
static bool close_angle( LD a, double b, LD tol) { LD d = fmodl( a - (LD)b, 2 * PI_); if( d > PI_) d -= 2 * PI_; if( d < -PI_) d += 2 * PI_; return fabsl( d) <= tol; }

/* ---- VSOP: 145 starting points, then terms of three numbers ---- */
struct Vsop { S bytes; int start[145]; std::vector<double> v; };
static Vsop make_vsop( int seed, bool little, double scale)
{
   Vsop f; rnd_state = seed;
   if( little)
      {
      int pos = 0; for( int i = 0; i < 145; i++)
         {
         f.start[i] = pos; int n = (i % 6 == 0 ? 30 + rnd( ) % 12 : i % 6 == 5 ? rnd( ) % 3 : rnd( ) % 18);
         if( i % 7 == 3) n = 0;
         if( i == 0) n = 38;
         pos += n;
         }
      /* the three entries the reader checks, the rest squeezed between them */
      const double k1 = 120. - 38., s1 = f.start[10] - f.start[1];
      int g[145]; memcpy( g, f.start, sizeof( g));
      for( int i = 1; i <= 10; i++) f.start[i] = 38 + (int)floor( (g[i] - g[1]) * k1 / s1 + .5);
      for( int i = 11; i <= 134; i++) f.start[i] = 120 + (int)floor( (g[i] - g[10]) * (2366. - 120.) / (g[134] - g[10]) + .5);
      for( int i = 135; i < 145; i++) f.start[i] = 2366 + (int)floor( (g[i] - g[134]) * (2430. - 2366.) / (g[144] - g[134]) + .5);
      }
   else { int pos = 0; for( int i = 0; i < 145; i++) { f.start[i] = pos; pos += (i % 6 == 0 ? 60 : i % 6 == 5 ? 1 : 20) + rnd( ) % 40; if( i % 11 == 4) pos = f.start[i]; } }
   for( int i = 0; i < 145; i++) add<int16_t>( f.bytes, (int16_t)f.start[i]);
   for( int i = 0; i < f.start[144]; i++)
      { const double t[3] = { scale * (uni( ) - .5) * pow( 10., -6. * uni( )), 6.28 * uni( ), 7000. * (uni( ) - .1) }; for( double x : t) { f.v.push_back( x); add<double>( f.bytes, x); } }
   return f;
}
/* sum of the series; slack gets what the smallest terms left out may amount to */
static LD vsop_sum( const Vsop &f, int planet, int value, LD t, double prec, LD *slack, LD *size)
{
   LD total = 0, pw = 1; *slack = 0; *size = 0; t /= 10;
   for( int k = 0; k < 6; k++, pw *= t)
      {
      const int s = (planet - 1) * 18 + value * 6 + k;
      for( int j = f.start[s]; j < f.start[s + 1]; j++)
         {
         const LD a = f.v[3 * j]; total += pw * a * cosl( f.v[3 * j + 1] + (LD)f.v[3 * j + 2] * t); *size += fabsl( pw * a) * (1 + fabsl( f.v[3 * j + 2] * t));
         if( fabsl( pw * a) <= prec * (1 + 1e-12L)) *slack += fabsl( pw * a);
         }
      }
   return total;
}
static const double times[] = { 0., 1e-9, -1e-9, .01, -.01, .123456, -.123456, .5, -.5, .9999, 1., -1., 3.3, -7.7, 10., -10., 20., -20., 33.3, -41.5 };
static const int NT = (int)( sizeof( times) / sizeof( times[0]));

/* ---- vsop.bin: also holds Pluto (58610) and the Moon (59354) ---- */
struct Little { Vsop vsop; int32_t pl[42]; struct P { signed char j, s, p; int16_t c[6]; } pt[36]; struct M { signed char a[4]; int32_t l, r; } lon[60], lat[60]; double fund[25]; char *mem; };
static Little *make_little( int seed)
{
   Little *q = new Little; q->vsop = make_vsop( seed, true, 2e6); S &b = q->vsop.bytes;
   if( b.size( ) != 58610) { printf( "bad size %zu\n", b.size( )); exit( 3); }
   for( int i = 0; i < 42; i++) { q->pl[i] = (int)( (uni( ) - .5) * 6e7); add<int32_t>( b, q->pl[i]); }
   for( auto &t : q->pt) { t.j = rnd( ) % 5; t.s = (int)( rnd( ) % 5) - 2; t.p = (int)( rnd( ) % 9) - 4; for( auto &c : t.c) c = (int16_t)( (uni( ) - .5) * pow( 10., 5. * uni( ))); add( b, t.j); add( b, t.s); add( b, t.p); add( b, (char)0); for( auto c : t.c) add( b, c); }
   for( int k = 0; k < 2; k++) for( int i = 0; i < 60; i++)
      {
      auto &t = (k ? q->lat : q->lon)[i]; for( auto &a : t.a) a = (int)( rnd( ) % 9) - 4;
      t.l = (int)( (uni( ) - .5) * pow( 10., 8. * uni( ))); t.r = (int)( (uni( ) - .5) * pow( 10., 8. * uni( ))); if( i % 9 == 8) t.l = 0; if( i % 7 == 6) t.r = 0;
      if( !i) { memset( t.a, 0, 4); t.a[k ? 3 : 2] = 1; }
      if( !k && i == 46) t.r = (t.r & ~255) | 'q';
      for( auto a : t.a) add( b, a); add( b, t.l); if( !k) add( b, t.r);
      }
   static const double m[25] = { 218.3164591, 481267.88134236, -.0013268, 1. / 538841., -1. / 65194000., 297.8502042, 445267.1115168, -.00163, 1. / 545868., -1. / 113065000., 357.5291092, 35999.0502909, -.0001536, 1. / 24490000., 0., 134.9634114, 477198.8676313, .008997, 1. / 69699., -1. / 14712000., 93.2720993, 483202.0175273, -.0034029, -1. / 3526000., 1. / 863310000. };
   for( int i = 0; i < 25; i++) { q->fund[i] = m[i] * (1 + .01 * uni( )); if( !i) { uint32_t low = 0x6ed5a0b1u; memcpy( &q->fund[0], &low, 4); } add( b, q->fund[i]); }
   /* against a wall: any read past the end stops the program */
   const size_t page = 4096, n = (b.size( ) + page - 1) / page * page; char *m0 = (char *)mmap( NULL, n + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   mprotect( m0 + n, page, PROT_NONE); q->mem = m0 + n - b.size( ); memcpy( q->mem, b.data( ), b.size( ));
   return q;
}
static LD deg( LD x) { return x * PI_ / 180; }
static void moon_ref( const Little &q, LD t, long prec, LD *lon, LD *lat, LD *r, LD *slack)
{
   LD f[5], A[3] = { deg( 119.75L + 131.849L * t), deg( 53.09L + 479264.290L * t), deg( 313.45L + 481266.484L * t) }, e = 1 - .002516L * t - .0000074L * t * t, sl = 0, sr = 0, sb = 0;
   slack[0] = slack[1] = slack[2] = 0;
   for( int i = 0; i < 5; i++) { const double *c = q.fund + 5 * i; f[i] = deg( c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * (LD)c[4])))); }
   for( int i = 0; i < 60; i++)
      {
      const auto &u = q.lon[i]; LD arg = 0, w = 1; for( int k = 0; k < 4; k++) arg += u.a[k] * f[k + 1]; for( int k = abs( u.a[1]); k; k--) w *= e;
      if( labs( u.l) > prec || labs( u.r) > prec) { sl += u.l * w * sinl( arg); sr += u.r * w * cosl( arg); }
      const auto &b = q.lat[i]; arg = 0; w = 1; for( int k = 0; k < 4; k++) arg += b.a[k] * f[k + 1]; for( int k = abs( b.a[1]); k; k--) w *= e;
      if( labs( b.l) > prec) sb += b.l * w * sinl( arg);
      }
   if( prec < 3959) sl += 3958 * sinl( A[0]) + 1962 * sinl( f[0] - f[4]) + 318 * sinl( A[1]);
   if( prec < 2236) sb += -2235 * sinl( f[0]) + 382 * sinl( A[2]) + 175 * sinl( A[0] - f[4]) + 175 * sinl( A[0] + f[4]) + 127 * sinl( f[0] - f[3]) - 115 * sinl( f[0] + f[3]);
   *lon = deg( f[0] * 180 / PI_ + sl * 1e-6L); *lat = deg( sb * 1e-6L); *r = 385000.56L + sr / 1000;
}
static void pluto_ref( const Little &q, LD t, long prec, LD *lon, LD *lat, LD *r)
{
   const LD J = deg( 34.35L + 3034.9057L * t), Sn = deg( 50.08L + 1222.1138L * t), P = deg( 238.96L + 144.96L * t); LD s[3] = { 0, 0, 0 };
   for( int i = 0; i < 7; i++) { const LD a = i == 6 ? J - P : (i + 1) * P; for( int k = 0; k < 3; k++) s[k] += q.pl[6 * i + 2 * k] * sinl( a) + q.pl[6 * i + 2 * k + 1] * cosl( a); }
   for( auto &u : q.pt)
      {
      bool big = false; for( int c : u.c) if( abs( c) > prec) big = true;
      if( !big) continue;
      const LD a = u.j * J + u.s * Sn + u.p * P; for( int k = 0; k < 3; k++) s[k] += u.c[2 * k] * sinl( a) + u.c[2 * k + 1] * cosl( a);
      }
   *lon = deg( 238.956785L + 144.96L * t + s[0] * 1e-6L); *lat = deg( -3.908202L + s[1] * 1e-6L); *r = (407.247248L + s[2] * 1e-6L) / 10;
}
static void spin( LD *v, int axis, LD a) { const int i = (axis + 1) % 3, j = (axis + 2) % 3; const LD x = v[i] * cosl( a) - v[j] * sinl( a); v[j] = v[i] * sinl( a) + v[j] * cosl( a); v[i] = x; }
/* ecliptic of date to that of J2000, IAU 1976 */
static void to_2000( LD *v, LD T)
{
   const LD as = PI_ / 648000, eta = as * T * (47.0029L + T * (-.03302L + T * 6e-5L)), pi = deg( 174.876384L) - as * T * (869.8089L - .03536L * T), p = as * T * (5029.0966L + T * (1.11113L - T * 6e-6L));
   spin( v, 2, -p - pi); spin( v, 0, eta); spin( v, 2, pi);
}
/* mean equator of date to that of J2000: the same, from other polynomials; good for a century or so */
static void equator_to_2000( LD *v, LD T)
{
   const LD as = PI_ / 648000, ze = (2306.2181L * T + .30188L * T * T + .017998L * T * T * T) * as, zz = (2306.2181L * T + 1.09468L * T * T + .018203L * T * T * T) * as, th = (2004.3109L * T - .42665L * T * T - .041833L * T * T * T) * as;
   spin( v, 2, -zz); spin( v, 1, th); spin( v, 2, -ze);
}
static void standard_ref( LD lon, LD lat, LD r, LD t, LD *o)
{
   o[0] = lon; o[1] = lat; o[2] = r; o[3] = r * cosl( lon) * cosl( lat); o[4] = r * sinl( lon) * cosl( lat); o[5] = r * sinl( lat);
   for( int i = 0; i < 3; i++) o[6 + i] = o[3 + i]; spin( o + 6, 0, mean_obliquity( (double)t));
   for( int i = 0; i < 3; i++) o[12 + i] = o[3 + i]; to_2000( o + 12, t);
   for( int i = 0; i < 3; i++) o[9 + i] = o[12 + i]; spin( o + 9, 0, deg( 23.4392911L));
}
static void little_file( uint64_t *idx)
{
   const double precs[] = { 0., 1e-12, 1., 30., -30., 1000., 1e5, 1e9 };
   for( int seed = 1; seed <= (vh.thorough ? 12 : 3); seed++)
      {
      Little *q = NULL;
      for( int it = 0; it < NT; it++) for( double jig = 0.; jig < (vh.thorough ? 5. : 1.); jig++)
         {
         if( !vh_mine( (*idx)++)) continue;
         if( !q) q = make_little( seed);
         const double t = times[it] * (1 - jig * .0371); S before( q->mem, q->vsop.bytes.size( ));
         for( int planet = 0; planet < 9; planet++) for( int value = 0; value < 3; value++) for( double prec : precs)
            {
            vh_at( "calc_vsop_loc", planet, value); vh_d( t); vh_d( prec);
            const double got = calc_vsop_loc( q->mem, planet, value, t, prec); LD slack = 0, size = 0; vh.states++; vh.transitions++; vh.validated++;
            const LD want = planet ? 1e-8L * vsop_sum( q->vsop, planet, value, t, fabs( prec), &slack, &size) : 0;
            const LD tol = 1e-8L * slack + 3e-16L * 1e-8L * size + 1e-13L;
            if( !(value ? close_to( want, got, tol) : close_angle( want, got, tol)) || (!value && !(got >= 0 && got < 6.2831853071796))) vh_fail( "vsop", "planet %d value %d at t=%.9g, precision %g: %.12g, the terms add to %.12g (within %.1g)", planet, value, t, prec, got, (double)want, (double)tol);
            }
         for( long prec : { 0L, 1L, 100L, 2235L, 2236L, 3958L, 3959L, 30000L, 100000000L })
            {
            double fund[N_FUND + 1], lon, r; fund[N_FUND] = 7e77; LD l, b, d, sl[3]; moon_ref( *q, t, prec, &l, &b, &d, sl);
            vh_at( "lunar", prec, it); vh_d( t); lunar_fundamentals( q->mem, t, fund); lunar_lon_and_dist( q->mem, fund, &lon, &r, prec); const double lat = lunar_lat( q->mem, fund, prec); vh.states++; vh.transitions += 3; vh.validated++;
            const LD tol = 1e-9L + 1e-12L * fabsl( t) * 500; /* arguments of up to 5e5 degrees a century, times four */
            if( !close_angle( l, (double)( lon * PI_ / 180), tol) || !close_to( b, (double)( lat * PI_ / 180), tol) || !close_to( d, r, tol * 4e5) || lon < 0. || lon > 360.) vh_fail( "moon", "t=%.9g precision %ld: %.10f %.10f %.6f, the terms add to %.10f %.10f %.6f", t, prec, lon, lat, r, (double)( fmodl( l * 180 / PI_, 360)), (double)( b * 180 / PI_), (double)d);
            for( int k = 0; k < 8; k++) if( !(fund[k] >= 0. && fund[k] < 6.2831853071796)) vh_fail( "moon-args", "argument %d is %.12f", k, fund[k]);
            if( fund[8] != t || fund[N_FUND] != 7e77) vh_fail( "moon-args", "time or beyond the arguments changed");
            }
         for( long prec : { 0L, 1L, 50L, 4000L, 100000L })
            {
            double o[4] = { 0, 0, 0, 7e77 }; LD l, b, d; pluto_ref( *q, t, prec, &l, &b, &d); vh_at( "calc_pluto_loc", prec, it); vh_d( t); const int rv = calc_pluto_loc( q->mem, o, t, prec); vh.states++; vh.transitions++; vh.validated++;
            if( rv || !close_angle( l, o[0], 1e-11L + 1e-13L * fabsl( t) * 300) || !close_to( b, o[1], 1e-11L + 1e-13L * fabsl( t) * 300) || !close_to( d, o[2], 1e-11L + 1e-13L * fabsl( t) * 3000) || o[3] != 7e77) vh_fail( "pluto", "t=%.9g precision %ld: %.12f %.12f %.12f, the terms add to %.12f %.12f %.12f", t, prec, o[0], o[1], o[2], (double)l, (double)b, (double)d);
            }
         for( int planet = 0; planet <= 10; planet++)
            {
            double o[16]; o[15] = 7e77; LD l = 0, b = 0, d = 0, sl[3], w[15], size; vh_at( "compute_planet", planet, it); vh_d( t);
            const int rv = compute_planet( q->mem, planet, t, o); vh.states++; vh.transitions++; vh.validated++;
            if( planet == 10) { moon_ref( *q, t, 0, &l, &b, &d, sl); d /= 149597870.7L; }
            else if( planet == 9)
               {
               LD v[3]; pluto_ref( *q, t, 0, &l, &b, &d); v[0] = d * cosl( l) * cosl( b); v[1] = d * sinl( l) * cosl( b); v[2] = d * sinl( b);
               for( int k = 0; k < 3; k++) if( !close_to( v[k], o[12 + k], 1e-9L * d + 1e-11 * fabs( t))) vh_fail( "standard", "Pluto at t=%.9g: J2000 ecliptic coordinate %d is %.10f, should be %.10f", t, k, o[12 + k], (double)v[k]);
               l = o[0]; b = o[1]; d = o[2];
               }
            else if( planet) { l = 1e-8L * vsop_sum( q->vsop, planet, 0, t, 0, sl, &size); b = 1e-8L * vsop_sum( q->vsop, planet, 1, t, 0, sl, &size); d = 1e-8L * vsop_sum( q->vsop, planet, 2, t, 0, sl, &size); }
            standard_ref( l, b, d, t, w); const LD tol = fabsl( d) * (3e-11L + 5e-12L * fabsl( t) * (planet == 10 ? 100 : 1)) + 1e-12L;
            bool ok = !rv && o[15] == 7e77 && close_angle( w[0], o[0], 1e-9L) && close_to( w[1], o[1], 1e-9L) && close_to( w[2], o[2], tol);
            for( int k = 3; k < 15 && ok; k++) if( !close_to( w[k], o[k], tol * 30)) { ok = false; vh_fail( "standard", "object %d at t=%.9g: value %d is %.12g, should be %.12g", planet, t, k, o[k], (double)w[k]); }
            if( !ok) vh_fail( "standard", "object %d at t=%.9g: %.12g %.12g %.12g, should be %.12g %.12g %.12g", planet, t, o[0], o[1], o[2], (double)w[0], (double)w[1], (double)w[2]);
            if( fabs( t) <= 1.) { LD v[3] = { o[6], o[7], o[8] }; equator_to_2000( v, t); for( int k = 0; k < 3; k++) if( !close_to( v[k], o[9 + k], 4e-8L * fabsl( d) + 1e-13L)) vh_fail( "standard", "object %d at t=%.9g: equatorial place of date and of J2000 are not one place", planet, t); }
            vh_outcome( (uint64_t)( o[14] * 1e9) + planet);
            }
         if( memcmp( before.data( ), q->mem, before.size( ))) vh_fail( "written", "the data were changed by reading them");
         }
      }
}
/* ---- big_vsop.bin ---- */
static void big_check( const Vsop &f, FILE *fp, int planet, double t, double prec, const char *what)
{
   double o[4] = { 1, 2, 3, 7e77 }; vh_at( what, planet, 0); vh_d( t); vh_d( prec);
   const int rv = calc_big_vsop_loc( fp, planet, o, t, prec); vh.states++; vh.transitions++; vh.validated++;
   if( rv) { vh_fail( "big-vsop", "%s: planet %d refused with %d", what, planet, rv); return; }
   for( int k = 0; k < 3; k++)
      {
      LD slack = 0, size = 0; const LD want = planet ? vsop_sum( f, planet, k, t, fabs( prec), &slack, &size) : 0, tol = slack + 3e-16L * size + 1e-13L;
      if( !(k ? close_to( want, o[k], tol) : close_angle( want, o[k], tol)) || (!k && !(o[0] >= 0 && o[0] < 6.2831853071796))) vh_fail( "big-vsop", "%s: planet %d value %d at t=%.9g, precision %g: %.12g, the terms add to %.12g", what, planet, k, t, prec, o[k], (double)want);
      }
   if( o[3] != 7e77) vh_fail( "big-vsop", "wrote past the output");
   vh_outcome( (uint64_t)( o[0] * 1e9));
}
static void big_file( uint64_t *idx)
{
   const Vsop a = make_vsop( 77, false, .01), b = make_vsop( 78, false, .01);
   write_file( "a.bin", a.bytes); write_file( "b.bin", b.bytes); FILE *fa = fopen( "a.bin", "rb"), *fb = fopen( "b.bin", "rb");
   for( int it = 0; it < NT; it++) for( int planet = 0; planet < 9; planet++) if( vh_mine( (*idx)++)) for( double prec : { 0., 1e-9, -1e-9, 1e-6, 1e-4, 1. }) big_check( a, fa, planet, times[it], prec, "big_vsop");
   /* every history of three from: planets 0, 1, 8 of either file; the default file, there or not, whole or cut in the header or terms */
   enum { N = 10 }; const S head = b.bytes.substr( 0, 150), cut = b.bytes.substr( 0, 290 + 24 * (b.start[40] + 1));
   const int n = vh.thorough ? N * N * N * N : N * N * N;
   for( int h = 0; h < n; h++)
      {
      if( !vh_mine( (*idx)++)) continue;
      int k = h;
      const int fds = open_fds( );
      for( int step = 0; step < (vh.thorough ? 4 : 3); step++, k /= N)
         {
         const int op = k % N; double o[3];
         if( op < 3) big_check( a, fa, op == 2 ? 8 : op, .3, 0., "history a");
         else if( op < 6) big_check( b, fb, op == 5 ? 8 : op - 3, -.4, 0., "history b");
         else if( op == 6) { write_file( "big_vsop.bin", b.bytes); big_check( b, NULL, 1, .7, 0., "default file"); unlink( "big_vsop.bin"); }
         else
            {
            const char *what = op == 7 ? "missing" : op == 8 ? "cut in the header" : "cut in the terms"; if( op > 7) write_file( "big_vsop.bin", op == 8 ? head : cut);
            vh_at( what, h, step); const int rv = calc_big_vsop_loc( NULL, 8, o, .7, 0.); vh.states++; vh.transitions++; vh.validated++; if( op > 7) unlink( "big_vsop.bin");
            if( !rv) vh_fail( "big-torn", "a file %s was accepted", what);
            }
         }
      if( open_fds( ) != fds) vh_fail( "big-leak", "a file is left open after history %d", h);
      }
   /* every place the file can be cut, for each planet */
   for( int planet = 1; planet < 9; planet++) for( size_t len = 0; len <= b.bytes.size( ); len += (len < 330 ? 1 : vh.thorough ? 7 : 97))
      {
      if( !vh_mine( (*idx)++)) continue;
      write_file( "t.bin", b.bytes.substr( 0, len)); FILE *fp = fopen( "t.bin", "rb"); double o[3]; vh_at( "torn big_vsop", planet, (long)len);
      const size_t need = 290 + 24 * (size_t)b.start[planet * 18]; double other[3]; calc_big_vsop_loc( fa, planet % 8 + 1, other, .1, 0.);
      if( len >= need && b.start[planet * 18] > b.start[(planet - 1) * 18]) big_check( b, fp, planet, .7, 0., "cut later");
      else { const int rv = calc_big_vsop_loc( fp, planet, o, .7, 0.); vh.states++; vh.transitions++; vh.validated++; if( !rv) vh_fail( "big-torn", "planet %d from a file cut at byte %ld of %ld was accepted", planet, (long)len, (long)need); }
      fclose( fp);
      }
   fclose( fa); fclose( fb);
}
/* ---- ELP 2000-82B ---- */
struct Elp { S bytes; struct T { int32_t amp, phase; int m[11]; }; std::vector<T> s[36]; double poly[39]; };
static const int elp_size( int type) { return type == 0 ? 8 : type < 3 ? 13 : type < 7 ? 19 : 12; }
static Elp make_elp( int seed, bool big)
{
   Elp e; rnd_state = seed;
   static const double d0[5] = { 3.8, 1.45, 2.18, 1.75, 1.79 }, d1[5] = { 8399.7, 70.99, -33.78, 628.3, .00563 };
   for( int i = 0; i < 5; i++) { e.poly[5 * i] = d0[i]; e.poly[5 * i + 1] = d1[i]; e.poly[5 * i + 2] = 1e-5 * uni( ); e.poly[5 * i + 3] = 1e-8 * uni( ); e.poly[5 * i + 4] = -1e-10 * uni( ); }
   for( int i = 0; i < 7; i++) { e.poly[25 + i] = 6.28 * uni( ); e.poly[32 + i] = 2600. / (1 << i) * (1 + .1 * uni( )); }
   for( int i = 0; i < 36; i++)
      {
      const int type = i / 3; int n = (int)( rnd( ) % 25); if( i % 5 == 2) n = 0; if( i < 3) n = 100 + rnd( ) % 60;
      /* buffers hold 10000 bytes: make some series longer than one, one just as long, one a little longer */
      if( big) { if( i == 0) n = 1250 * 2 + 3; if( i == 1) n = 1250; if( i == 2) n = 1251; if( i == 10) n = 526 * 3 + 1; if( i == 35) n = 833 + 1; if( i == 5) n = 770; }
      std::vector<double> a; for( int k = 0; k < n; k++) a.push_back( pow( 10., 9. * (1. - (double)k / n)) * (.5 + .5 * (1. - (double)k / n)) * 1.9);
      for( int k = 0; k < n; k++)
         {
         Elp::T t; t.amp = (int32_t)a[k] * ((rnd( ) & 1) ? 1 : -1); t.phase = type ? (int32_t)( 36000000. * uni( )) : 0; memset( t.m, 0, sizeof( t.m));
         const int nm = type == 0 || type > 6 ? 4 : type < 3 ? 5 : 11; for( int x = 0; x < nm; x++) t.m[x] = (int)( rnd( ) % 7) - 3;
         e.s[i].push_back( t);
         }
      }
   e.bytes.resize( 608); int32_t pos = 608;
   for( int i = 0; i < 37; i++) { const int n = i < 36 ? (int)e.s[i].size( ) : 0; put<int32_t>( e.bytes, 8 * i, pos); put<int32_t>( e.bytes, 8 * i + 4, n); if( n) pos += n * elp_size( i / 3); }
   for( int i = 0; i < 39; i++) put<double>( e.bytes, 296 + 8 * i, e.poly[i]);
   for( int i = 0; i < 36; i++) for( auto &t : e.s[i])
      {
      const int type = i / 3; add( e.bytes, t.amp); if( type) add( e.bytes, t.phase);
      const int nm = type == 0 || type > 6 ? 4 : type < 3 ? 5 : 11; for( int x = 0; x < nm; x++) add<char>( e.bytes, (char)t.m[x]);
      }
   return e;
}
static LD dms( LD d, LD m, LD s) { return deg( d + m / 60 + s / 3600); }
static void elp_ref( const Elp &e, LD tc, double prec, LD *o, LD *slack, LD *size)
{
   size[0] = size[1] = size[2] = 0;
   const LD n = -23.8946L, x0 = tc * 100 + 45, t = tc - .000091L / (86400.L * 36525) * (n + 26) * x0 * x0;
   LD f[5], g[7]; for( int i = 0; i < 5; i++) { f[i] = 0; for( int k = 4; k >= 0; k--) f[i] = f[i] * t + e.poly[5 * i + k]; } for( int i = 0; i < 7; i++) g[i] = e.poly[25 + i] + t * (LD)e.poly[32 + i];
   const LD W1 = f[0], W2 = f[1], W3 = f[2], T = f[3], pe = f[4], del[4] = { W1 - T + PI_, T - pe, W1 - W2, W1 - W3 }, as = PI_ / 648000;
   const LD w1 = dms( 218, 18, 59.95571L), w2 = dms( 83, 21, 11.67475L), w3 = dms( 125, 2, 40.39816L), te = dms( 100, 27, 59.22059L), pp = dms( 102, 56, 14.42753L);
   const LD v1 = 1732559343.73604L * as, v2 = 14643420.2632L * as, v3 = -6967919.3622L * as, vt = 129597742.2758L * as, vp = 1161.2283L * as;
   const LD lin[4] = { w1 - te + PI_ + (v1 - vt) * t, te - pp + (vt - vp) * t, w1 - w2 + (v1 - v2) * t, w1 - w3 + (v1 - v3) * t }, Tl = te + vt * t, zeta = w1 + (v1 + 5029.0966L * as) * t;
   LD sum[3] = { W1 + dms( 0, 0, 22639.58578L) * sinl( del[2]), 0, 385000.52719L }; slack[0] = slack[1] = slack[2] = 0;
   for( int i = 0; i < 36; i++)
      {
      const int type = i / 3, q = i % 3; LD tot = 0, om = 0, all = 0, lim = prec * (q == 2 ? 384747.980674L : 180 * 3600 / PI_) * 1e5L; bool stop = false;
      for( auto &u : e.s[i])
         {
         LD a = deg( u.phase * 1e-5L);
         if( type == 0) for( int k = 0; k < 4; k++) a += u.m[k] * del[k];
         else if( type < 3 || type > 6) { for( int k = 0; k < 4; k++) a += u.m[k] * lin[k]; if( type < 3) a += u.m[4] * zeta; }
         else
            {
            const LD P[8] = { g[0], g[1], Tl, g[2], g[3], g[4], g[5], g[6] };   /* Me V E Ma J S U N */
            if( type < 5) { for( int k = 0; k < 8; k++) a += u.m[k] * P[k]; a += u.m[8] * lin[0] + u.m[9] * lin[2] + u.m[10] * lin[3]; }
            else { for( int k = 0; k < 7; k++) a += u.m[k] * P[k]; for( int k = 0; k < 4; k++) a += u.m[7 + k] * lin[k]; }
            }
         const LD term = 1e-5L * u.amp * (i == 2 ? cosl( a) : sinl( a));
         if( prec != 0 && fabsl( (LD)u.amp) <= lim + 1) stop = true;
         if( stop) om += fabsl( 1e-5L * u.amp); tot += term; all += fabsl( 1e-5L * u.amp);
         }
      const LD tp = type == 2 || type == 4 || type == 6 || type == 8 ? t : type == 11 ? t * t : 1;
      sum[q] += tot * tp * (q == 2 ? 1 : as); slack[q] += om * fabsl( tp) * (q == 2 ? 1 : as); size[q] += all * fabsl( tp) * (q == 2 ? 1 : as);
      }
   const LD V[3] = { sum[2] * cosl( sum[0]) * cosl( sum[1]), sum[2] * sinl( sum[0]) * cosl( sum[1]), sum[2] * sinl( sum[1]) };
   LD p = 0, q = 0; static const LD pc[5] = { .463486e-14L, -.2507948e-11L, -.5417367e-9L, .47020439e-6L, .10180391e-4L }, qc[5] = { -.320334e-14L, -.1371808e-11L, .1265417e-8L, .12372674e-6L, -.113469002e-3L };
   for( int k = 0; k < 5; k++) { p = p * t + pc[k]; q = q * t + qc[k]; } p *= t; q *= t;
   const LD ra = 2 * sqrtl( 1 - p * p - q * q);
   o[0] = (1 - 2 * p * p) * V[0] + 2 * p * q * V[1] + p * ra * V[2]; o[1] = 2 * p * q * V[0] + (1 - 2 * q * q) * V[1] - q * ra * V[2]; o[2] = -p * ra * V[0] + q * ra * V[1] + (1 - 2 * p * p - 2 * q * q) * V[2]; o[3] = sum[2];
}
static void elp_check( const Elp &e, FILE *fp, double t, double prec, const char *what)
{
   LD w[4], slack[3], size[3]; elp_ref( e, t, prec, w, slack, size); double o[5] = { 1, 2, 3, 4, 7e77 };
   vh_at( what); vh_d( t); vh_d( prec); const long m0 = in_use( ); const int rv = compute_elp_xyz( fp, t, prec, o); const long m1 = in_use( ); vh.states++; vh.transitions++; vh.validated++;
   const LD r = fabsl( w[3]) + 1, err = 2e-15L + 6e-11L * fabsl( t), tol = slack[2] + (slack[0] + slack[1]) * r + r * (1e-11L + 1e-11L * fabsl( t)) + (size[2] + (size[0] + size[1]) * r) * err;
   bool ok = !rv && o[4] == 7e77; for( int k = 0; k < 4; k++) if( !close_to( w[k], o[k], tol)) ok = false;
   if( !ok) vh_fail( "elp", "%s at t=%.9g, precision %g: %d: %.6f %.6f %.6f %.6f, the terms add to %.6f %.6f %.6f %.6f (within %.1g)", what, t, prec, rv, o[0], o[1], o[2], o[3], (double)w[0], (double)w[1], (double)w[2], (double)w[3], (double)tol);
   if( m1 != m0) vh_fail( "elp-memory", "%s: %ld blocks of memory are never given back", what, (long)( m1 - m0));
   vh_outcome( (uint64_t)( o[0] * 1e3));
}
static void elp_file( uint64_t *idx)
{
   for( int seed = 1; seed <= (vh.thorough ? 8 : 3); seed++)
      {
      const Elp e = make_elp( seed * 1001, seed % 3 == 2); write_file( "e.dat", e.bytes); FILE *fp = fopen( "e.dat", "rb"); { double o[4]; compute_elp_xyz( fp, 0., 0., o); }
      for( int it = 0; it < NT; it++) for( double prec : { 0., 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, .1 }) if( vh_mine( (*idx)++)) elp_check( e, fp, times[it], prec, "elp");
      fclose( fp);
      }
   const Elp e = make_elp( 5, false);
   const int fds = open_fds( );
   for( size_t len = 0; len <= e.bytes.size( ); len += (len < 1200 || vh.thorough ? 1 : 11))
      {
      if( !vh_mine( (*idx)++)) continue;
      write_file( "elp82.dat", e.bytes.substr( 0, len)); double o[4] = { 1, 2, 3, 4 }; vh_at( "torn elp82", (long)len, 0); const long m0 = in_use( ); const int rv = compute_elp_xyz( NULL, .3, 0., o); const long m1 = in_use( ); vh.states++; vh.transitions++; vh.validated++;
      if( len < e.bytes.size( ) && !rv) vh_fail( "elp-torn", "a file cut at byte %ld of %ld was accepted", (long)len, (long)e.bytes.size( ));
      if( len < e.bytes.size( ) && (o[0] || o[1] || o[2] || o[3])) vh_fail( "elp-torn", "a refused file gave a place");
      if( len == e.bytes.size( )) elp_check( e, NULL, .3, 0., "whole default file");
      if( m1 != m0) vh_fail( "elp-memory", "file cut at %ld: %ld blocks of memory are never given back", (long)len, (long)( m1 - m0));
      if( open_fds( ) != fds) { vh_fail( "elp-leak", "the file is left open (cut at %ld)", (long)len); break; }
      unlink( "elp82.dat");
      }
   double o[4]; if( compute_elp_xyz( NULL, .3, 0., o) != -1) vh_fail( "elp-torn", "no file, no error");
}
/* ---- PS-1996 ---- */
struct Ps { S bytes; struct Pl { double t0, dt; int nf[3], nb, nfq; std::vector<double> fq; struct B { double sec[12]; std::vector<double> c; size_t end; }; std::vector<B> b; } p[9]; };
static Ps make_ps( int seed)
{
   Ps f; rnd_state = seed; f.bytes.resize( 40);
   for( int i = 0; i < 9; i++)
      {
      auto &p = f.p[i]; put<int32_t>( f.bytes, 4 * i, (int32_t)f.bytes.size( ));
      p.t0 = 2415020.5 + 100 * i; p.dt = 365. * (1 + i); p.nb = i == 5 ? 1 : i == 6 ? 30 : 2 + rnd( ) % 5; for( int k = 0; k < 3; k++) p.nf[k] = i == 7 && k == 1 ? 0 : 1 + rnd( ) % 9; if( i == 8) p.nf[0] = p.nf[1] = p.nf[2] = 0; p.nfq = p.nf[0] + p.nf[1] + p.nf[2];
      add( f.bytes, p.t0); add( f.bytes, p.dt); for( int k = 0; k < 3; k++) add<int16_t>( f.bytes, p.nf[k]); add<int16_t>( f.bytes, p.nb); add<int16_t>( f.bytes, p.nfq);
      for( int k = 0; k < p.nfq; k++) { p.fq.push_back( .2 * uni( ) * (k + 1)); add( f.bytes, p.fq[k]); }
      std::vector<S> blocks;
      for( int b = 0; b < p.nb; b++)
         {
         Ps::Pl::B B; S s; for( auto &x : B.sec) { x = (uni( ) - .5) * 3e10; add( s, x); }
         for( int k = 0; k < p.nfq; k++)
            {
            int flags = 0; S t; for( int q = 0; q < 6; q++)
               {
               const int kind = rnd( ) & 3; flags |= kind << (2 * q); double v;
               const int edge = rnd( ) % 6;   /* the ends of each range, too */
               if( kind == 0) { const int8_t x = edge == 0 ? -128 : edge == 1 ? 127 : edge == 2 ? -1 : (int8_t)rnd( ); add( t, x); v = x; }
               else if( kind == 1) { const int16_t x = edge == 0 ? -32768 : edge == 1 ? 32767 : edge == 2 ? -1 : (int16_t)rnd( ); add( t, x); v = x; }
               else if( kind == 2) { const int32_t x = edge == 0 ? INT32_MIN : edge == 1 ? INT32_MAX : edge == 2 ? -1 : (int32_t)( rnd( ) * 200 - 1600000000); add( t, x); v = x; }
               else { v = (uni( ) - .5) * 1e10; add( t, v); }
               B.c.push_back( v);
               }
            add<uint16_t>( s, (uint16_t)flags); s += t;
            }
         blocks.push_back( s); p.b.push_back( B);
         }
      for( auto &s : blocks) add<int16_t>( f.bytes, (int16_t)s.size( ));
      for( int b = 0; b < p.nb; b++) { f.bytes += blocks[b]; p.b[b].end = f.bytes.size( ); }
      }
   return f;
}
static void ps_sum( const Ps::Pl &p, int blk, double jd, LD *o)
{
   const LD t0 = p.t0 + blk * (LD)p.dt, x = 2 * ((LD)jd - t0) / p.dt - 1, fx = x * p.dt / 2; const auto &B = p.b[blk];
   for( int i = 0; i < 3; i++) { o[i] = o[i + 3] = 0; LD w = 1; for( int j = 0; j < 4; j++) { o[i] += B.sec[4 * i + j] * w; if( j) o[i + 3] += B.sec[4 * i + j] * j * powl( x, j - 1) * 2 / p.dt; w *= x; } }
   int k = 0; for( int m = 0; m < 3; m++) for( int j = 0; j < p.nf[m]; j++, k++)
      {
      const LD a = p.fq[k], c = cosl( a * fx), s = sinl( a * fx), xm = powl( x, m), dx = m ? m * powl( x, m - 1) * 2 / p.dt : 0;
      for( int i = 0; i < 3; i++) { const LD A = B.c[6 * k + 2 * i], C = B.c[6 * k + 2 * i + 1]; o[i] += xm * (A * c + C * s); o[i + 3] += dx * (A * c + C * s) + xm * a * (C * c - A * s); }
      }
   for( int i = 0; i < 6; i++) o[i] *= 1e-10L;
}
static void ps_file( uint64_t *idx)
{
   for( int seed = 1; seed <= (vh.thorough ? 20 : 4); seed++)
      {
      const Ps f = make_ps( seed * 17); write_file( "p.dat", f.bytes); FILE *fp = fopen( "p.dat", "rb"); getc( fp);
      for( int i = 0; i < 9; i++) for( int blk = -1; blk <= f.p[i].nb; blk++)
         {
         if( !vh_mine( (*idx)++)) continue;
         const auto &p = f.p[i]; const bool in = blk >= 0 && blk < p.nb;
         for( int k = 0; k <= 40; k++)
            {
            const double jd = p.t0 + p.dt * blk + p.dt * (k == 0 ? 0. : k == 40 ? .999999 : k / 40.); vh_at( "ps1996", i + 1, blk); vh_d( jd);
            void *s; const long m0 = in_use( ); s = load_ps1996_series( k & 1 ? fp : (rewind( fp), fp), jd, i + 1); const long m1 = in_use( ); vh.states++; vh.transitions += 4; vh.validated++;
            if( !in) { if( s) { vh_fail( "ps-range", "planet %d at %.3f is outside the series, but was loaded", i + 1, jd); unload_ps1996_series( s); } continue; }
            if( !s) { vh_fail( "ps-load", "planet %d at %.3f was refused", i + 1, jd); continue; }
            const double at[] = { jd, p.t0 + p.dt * blk, p.t0 + p.dt * (blk + 1), p.t0 + p.dt * (blk + .5) };
            for( double x : at) for( int vel = 0; vel < 2; vel++)
               {
               double o[7]; for( auto &y : o) y = 7e77; LD w[6]; ps_sum( p, blk, x, w); const int rv = get_ps1996_position( x, s, o, vel); bool ok = !rv;
               for( int q = 0; q < (vel ? 6 : 3); q++) if( !close_to( w[q], o[q], 3e-12L + 2e-15L * p.dt * 10)) ok = false;
               for( int q = vel ? 6 : 3; q < 7; q++) if( o[q] != 7e77) ok = false;
               if( !ok) vh_fail( "ps-sum", "planet %d block %d at %.4f (velocity %d): %d: %.12g %.12g %.12g %.12g, the terms add to %.12g %.12g %.12g %.12g", i + 1, blk, x, vel, rv, o[0], o[1], o[2], o[3], (double)w[0], (double)w[1], (double)w[2], (double)w[3]);
               vh_outcome( (uint64_t)( o[0] * 1e9));
               }
            for( double x : { p.t0 + p.dt * blk - .001, p.t0 + p.dt * (blk + 1) + .001, -1e9, 1e9 })
               { double o[6] = { 1, 2, 3, 4, 5, 6 }; if( get_ps1996_position( x, s, o, 1) != -1 || o[0] != 1 || o[5] != 6) vh_fail( "ps-range", "planet %d, block %d: a place for %.3f, outside the block", i + 1, blk, x); }
            const long m2 = in_use( ); unload_ps1996_series( s);
            if( m1 - m0 != m2 - in_use( )) vh_fail( "ps-memory", "%ld blocks taken, %ld given back", m1 - m0, m2 - in_use( ));
            }
         }
      fclose( fp);
      }
   const Ps f = make_ps( 5); const int fds = open_fds( );
   for( size_t len = 0; len <= f.bytes.size( ); len += (len < 2500 || vh.thorough ? 1 : 23))
      {
      if( !vh_mine( (*idx)++)) continue;
      write_file( "ps_1996.dat", f.bytes.substr( 0, len));
      for( int i = 0; i < 9; i++) for( int blk = 0; blk < f.p[i].nb; blk += (f.p[i].nb > 8 ? 7 : 1))
         {
         const auto &p = f.p[i]; vh_at( "torn ps1996", i + 1, (long)len); const long m0 = in_use( ); void *s = load_ps1996_series( NULL, p.t0 + p.dt * (blk + .5), i + 1); if( in_use( ) != m0 + (s != NULL)) vh_fail( "ps-memory", "%ld blocks taken", in_use( ) - m0); vh.states++; vh.transitions++; vh.validated++;
         if( (s != NULL) != (len >= p.b[blk].end)) vh_fail( "ps-torn", "planet %d block %d, file cut at byte %ld (block ends at %ld): %s", i + 1, blk, (long)len, (long)p.b[blk].end, s ? "accepted" : "refused");
         if( s) { double o[6]; LD w[6]; ps_sum( p, blk, p.t0 + p.dt * (blk + .25), w); get_ps1996_position( p.t0 + p.dt * (blk + .25), s, o, 1); for( int q = 0; q < 6; q++) if( !close_to( w[q], o[q], 1e-10L)) { vh_fail( "ps-torn", "planet %d: wrong place from a file cut at %ld", i + 1, (long)len); break; } unload_ps1996_series( s); }
         if( open_fds( ) != fds) { vh_fail( "ps-leak", "the file is left open"); return; }
         }
      unlink( "ps_1996.dat");
      }
   if( load_ps1996_series( NULL, 2430000., 3)) vh_fail( "ps-torn", "no file, but a series");
}
/* ---- the Earth, whose series is in the program ---- */
static void earth( double t)
{
   double o[7]; o[6] = 7e77; vh_at( "get_earth_loc"); vh_d( t); const int rv = get_earth_loc( t, o); vh.states++; vh.transitions++; vh.validated++;
   if( rv || o[6] != 7e77 || !close_to( (LD)o[5] * cosl( o[3]) * cosl( o[4]), o[0], 1e-14L) || !close_to( (LD)o[5] * sinl( o[3]) * cosl( o[4]), o[1], 1e-14L) || !close_to( (LD)o[5] * sinl( o[4]), o[2], 1e-14L)) vh_fail( "earth-polar", "at t=%.9g the two forms of the Earth's place differ", t);
   /* Newton: pull of the Sun, Venus, Jupiter (mean places) and, by the month, the Moon */
   const double h = 2. / 365250.; double p[7][6]; for( int k = -3; k <= 3; k++) get_earth_loc( t + k * h, p[k + 3]);
   static const double c[7] = { 1. / 90., -3. / 20., 1.5, -49. / 18., 1.5, -3. / 20., 1. / 90. }; const double GM = .01720209895 * .01720209895;
   const double r = o[5], d = t * 365250.; double a[3], res[3];
   static const double pl[4][4] = { { .7233, 181.98, .98564736 + .61650145, 1. / 408523.7 }, { 5.2026, 34.35, .08309, 1. / 1047.35 }, { 9.555, 50.08, .03346, 1. / 3498. }, { 1.5237, 355.43, .5240208, 1. / 3098708. } };
   for( int x = 0; x < 3; x++) { a[x] = 0; for( int k = 0; k < 7; k++) a[x] += c[k] * p[k][x]; a[x] /= 4.; res[x] = a[x] + GM * 1.00000304 * o[x] / (r * r * r); }
   for( auto &q : pl) { const double L = (q[1] + q[2] * d) * M_PI / 180., P[3] = { q[0] * cos( L), q[0] * sin( L), 0 }; double dd[3], d2 = 0, p2 = q[0] * q[0]; for( int x = 0; x < 3; x++) { dd[x] = P[x] - o[x]; d2 += dd[x] * dd[x]; } for( int x = 0; x < 3; x++) res[x] -= GM * q[3] * (dd[x] / pow( d2, 1.5) - P[x] / pow( p2, 1.5)); }
   const double D = (297.8502 + 12.19074912 * d) * M_PI / 180., Lm = (218.3165 + (13.17639648 - 3.823e-5) * d) * M_PI / 180., Ms = (357.529 + .98560028 * d) * M_PI / 180.;
   const double M = (134.96 + 13.06499295 * d) * M_PI / 180., km = 384400. / 149597870.7, eq = .1098 * sin( M) + .0222 * sin( 2 * D - M) + .0115 * sin( 2 * D) + .0037 * sin( 2 * M) - .0032 * sin( Ms) - .0020 * sin( 2 * (93.2721 + 13.22935024 * d) * M_PI / 180.), lm = Lm + eq, rm = km * (1 - .0545 * cos( M) - .0096 * cos( 2 * D - M) - .0077 * cos( 2 * D));
   const double F = (93.2721 + 13.22935024 * d) * M_PI / 180., bm = .08950 * sin( F) + .0049 * sin( F + M) + .0048 * sin( M - F) + .0030 * sin( 2 * D - F);
   res[0] -= GM * 3.6943e-8 * cos( lm) * cos( bm) / (rm * rm); res[1] -= GM * 3.6943e-8 * sin( lm) * cos( bm) / (rm * rm); res[2] -= GM * 3.6943e-8 * sin( bm) / (rm * rm);
   double worst = 0; for( int x = 0; x < 3; x++) worst = fmax( worst, fabs( res[x]) / GM);
   if( getenv( "C29_SHOW")) { static double w; if( worst > w) printf( "%.6f %.2e  %.2e %.2e %.2e\n", t, w = worst, res[0] / GM, res[1] / GM, res[2] / GM); }
   if( !(worst < 5e-4)) /* terms below 25e-8 are not in the shortened series */ vh_fail( "earth-motion", "at t=%.9g the Earth's acceleration is %.2e of the Sun's pull off", t, worst);
   vh_outcome( (uint64_t)( o[3] * 1e9));
}
static void earth_series( uint64_t *idx)
{
   for( double t = -1.; t < 1.; t += (vh.thorough ? .0001234567 : .001234567)) if( vh_mine( (*idx)++)) earth( t);
   static const double ref[][4] = {
#include "c29_ref.h"
   };
   for( auto &q : ref) { double o[6]; vh_at( "earth reference"); vh_d( q[0]); get_earth_loc( q[0], o); vh.states++; vh.validated++; for( int k = 0; k < 3; k++) if( !(fabs( o[k] - q[k + 1]) < 2e-10)) vh_fail( "earth-series", "t=%.6f: coordinate %d is %.11f; the published series gives %.11f", q[0], k, o[k], q[k + 1]); }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); uint64_t idx = 0;
   if( getenv( "C29_RECORD")) { for( int i = -40; i <= 40; i++) { const double t = i * .05137 + .000001 * i * i; double o[6]; get_earth_loc( t, o); printf( "{ %.9f, %.12f, %.12f, %.12f },\n", t, o[0], o[1], o[2]); } fflush( stdout); return 0; }
   little_file( &idx); big_file( &idx); elp_file( &idx); ps_file( &idx); earth_series( &idx);
   return vh_done( );
}
