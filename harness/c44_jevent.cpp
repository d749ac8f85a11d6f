/* C44: lists of the transits, occultations, eclipses and shadows of Jupiter's four large moons (jevent.cpp). */
#include "vh.h"
#include <vector>
#include <algorithm>
#include <map>
#include "watdefs.h"
#include "date.h"
#include "lunar.h"
#include "afuncs.h"
#include "vsopbin.h"
static const V jup[] = { { 72, 59954691, 0, 0 }, { 72, 9695899, 5.0619179, 529.6909651 }, { 72, 573610, 1.444062, 7.113547 }, { 72, 306389, 5.417347, 1059.38193 }, { 72, 97178, 4.14265, 632.78374 }, { 73, 52993480757., 0, 0 }, { 73, 489741, 4.220667, 529.690965 },
   { 78, 2268616, 3.5585261, 529.6909651 }, { 78, 110090, 0, 0 }, { 78, 109972, 3.908093, 1059.38193 }, { 79, 177352, 5.701665, 529.690965 }, { 84, 520887429, 0, 0 }, { 84, 25209327, 3.4910864, 529.69096509 }, { 84, 610600, 3.841154, 1059.38193 }, { 84, 282029, 2.574199, 632.783739 }, { 85, 1271802, 2.6493751, 529.6909651 } };
static double speed[] = { 203.488955432, 101.374724550, 50.317609110, 21.571071314 }, worst = 0; static bool measure;
static void helio( int s0, ld jd, ld *v)
{
   const ld t = (jd - 2451545.L) / 365250.L; ld q[3] = { 0, 0, 0 }; auto f = [&]( const V &e) { if( e.series >= s0 && e.series < s0 + 18) q[(e.series - s0) / 6] += e.a * 1e-8L * powl( t, e.series % 6) * cosl( fmodl( e.b + (ld)e.c * t, 2. * pi_)); };
   for( const V &e : earth) f( e); for( const V &e : jup) f( e); v[0] = q[2] * cosl( q[1]) * cosl( q[0]); v[1] = q[2] * cosl( q[1]) * sinl( q[0]); v[2] = q[2] * sinl( q[1]);
}
/* the moon's place across (x) and above (y, stretched for the flattening) Jupiter's centre, in radii, from the Sun or the Earth;
   z > 0 when it is beyond Jupiter. 'jd' is the time at Jupiter; 'seen' the time on Earth */
struct Sky { ld x, y, z, seen; };
static Sky sky( int sat, bool from_earth, ld jd)
{
   ld j[3], e[3], d[3], w[3] = { 0, 0, 0 }; double m[15]; helio( 72, jd, j); helio( 36, jd, e); calc_jsat_loc( (double)jd, m, 1 << sat, 0L);
   ld r = 0, rs = 0; for( int i = 0; i < 3; i++) { d[i] = j[i] - e[i]; r += d[i] * d[i]; w[i] = from_earth ? d[i] : j[i]; rs += w[i] * w[i]; } r = sqrtl( r); rs = sqrtl( rs); const ld h = hypotl( w[0], w[1]), *p = w; Sky s;
   const double *q = m + 3 * sat; s.x = (-p[1] * q[0] + p[0] * q[1]) / h; s.z = (p[0] * q[0] + p[1] * q[1] + p[2] * q[2]) / rs; s.y = (q[2] - s.z * p[2] / rs) / (h / rs) * 1.071374L; s.seen = jd + r * 149597870.7L / 299792.458L / 86400.L; return s;
}
struct Ev { ld t; int sat, type; bool sure, hidden, maybe_hidden; };
static void truth( int sat, ld t1, ld t2, std::vector<Ev> &ev)
{
   std::vector<Ev> r; const ld step = 12. / speed[sat];
   for( int view = 0; view < 2; view++)
      {
      ld x0 = sky( sat, view, t1).x;
      for( ld t = t1; t < t2; t += step)
         {
         const ld x1 = sky( sat, view, t + step).x; if( (x0 > 0) != (x1 > 0))
            {
            ld a = t, b = t + step; for( int i = 0; i < 40; i++) { const ld m = (a + b) / 2; if( (sky( sat, view, m).x > 0) == (x0 > 0)) a = m; else b = m; }
            /* the nearest approach, by golden section, then where the disc is entered and left */
            auto d2 = [&]( ld u) { const Sky s = sky( sat, view, u); return s.x * s.x + s.y * s.y; }; ld lo = a - .7L * step, hi = a + .7L * step; for( int i = 0; i < 50; i++) { const ld p = hi - (hi - lo) * .618034L, q = lo + (hi - lo) * .618034L; if( d2( p) < d2( q)) hi = q; else lo = p; } const ld c = (lo + hi) / 2, dm = d2( c); const int type = (sky( sat, view, c).z < 0 ? 1 : 0) | (view ? 0 : 2);
            if( dm < 1.1) for( int end = 0; end < 2; end++)
               {
               ld in = c, o = c + (end ? 1 : -1) * 2.2L * step; if( dm < 1.) for( int i = 0; i < 45; i++) { const ld m = (in + o) / 2; if( d2( m) < 1) in = m; else o = m; } else in = c;
               r.push_back( Ev{ sky( sat, view, in).seen, sat, type | (end ? 0 : 4), dm < .94, false, false });
               }
            }
         x0 = x1;
         }
      }
   /* nothing of a moon is seen while it is behind Jupiter or in its shadow */
   const ld tol = .004L / (speed[sat] / 203.); for( Ev &e : r) for( size_t i = 0; i + 1 < r.size( ); i += 2) if( !(r[i].type & 1) && (r[i].type & 3) != (e.type & 3)) { if( e.t > r[i].t + tol && e.t < r[i + 1].t - tol) { if( r[i].sure) e.hidden = true; else e.maybe_hidden = true; } else if( e.t > r[i].t - tol && e.t < r[i + 1].t + tol) e.maybe_hidden = true; }
   ev.insert( ev.end( ), r.begin( ), r.end( ));
}
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); char b[4000]; size_t n; while( f && (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); if( f) fclose( f); return r; }
static void one( int d, int m, int y, int days, int mask, int style)
{
   vh_at( "events", d, m, y); unlink( "j.txt"); unlink( "j.dat"); S pre = style & 2 ? "12345" : ""; if( style & 2) spit( "j.dat", pre); std::vector<S> a = { std::to_string( d), std::to_string( m), std::to_string( y), "-fj.txt", "-rj.dat" }; if( days != 30) a.push_back( "-d" + std::to_string( days)); if( mask != 15) a.push_back( "-s" + std::to_string( mask)); const bool julian = style & 1; if( julian) a.push_back( "-j"); if( style & 4) a.push_back( "-q");
   const int rc = run( "PROG_JEVENT", a); const S txt = slurp( "j.txt"), dat = slurp( "j.dat"); vh.states++; vh_outcome( vh_hash( txt.data( ), txt.size( )));
   const ld t1 = (ld)dmy_to_day( d, m, y, julian ? CALENDAR_JULIAN : CALENDAR_GREGORIAN) - .5L, t2 = t1 + days; std::vector<Ev> ev; for( int s = 0; s < 4; s++) if( mask >> s & 1) truth( s, t1 - 1.5, t2 + 1.5, ev);
   std::vector<S> l; for( size_t i = 0; i < txt.size( ); ) { const size_t e = txt.find( '\n', i); l.push_back( txt.substr( i, e - i)); i = e + 1; }
   if( rc || dat.compare( 0, pre.size( ), pre) || dat.size( ) != pre.size( ) + 5 * l.size( )) { vh_fail( "shape", "exit %d, %zu lines, %zu bytes of data", rc, l.size( ), dat.size( )); return; }
   std::vector<char> used( ev.size( ), 0); ld prev = 0; static const char *nm[] = { "Occ", "Tra", "Ecl", "Sha" };
   for( size_t i = 0; i < l.size( ); i++)
      {
      int32_t mins; memcpy( &mins, dat.data( ) + pre.size( ) + 5 * i, 4); const int b = (unsigned char)dat[pre.size( ) + 5 * i + 4], sat = (b >> 3) - 1, type = b & 7; const ld t = 2451545.L + (mins + (mins < 0 ? -.5L : .5L)) / 1440.L; vh.transitions++;
      if( sat < 0 || sat > 3 || !(mask >> sat & 1) || (i && t < prev)) { vh_fail( "order", "event %zu of moon %d, %.5Lf after %.5Lf", i, sat + 1, t, prev); return; } prev = t;
      char want[60]; snprintf( want, sizeof want, "sat %d: %s %s: ", sat + 1, nm[type & 3], type & 4 ? "start" : "end  "); bool ok = !l[i].compare( 0, strlen( want), want); if( ok) { ok = false; for( int k = -1; k < 2 && !ok; k++) { char w[80]; const double u = (double)t + k * .5 / 1440.; full_ctime( w, u - td_minus_ut( u) / 86400., FULL_CTIME_FORMAT_HH_MM); ok = l[i].substr( strlen( want)) == w; } }
      if( !ok) vh_fail( "line", "'%s' is stored as moon %d, type %d, JD %.5Lf", l[i].c_str( ), sat + 1, type, t);
      size_t best = ev.size( ); for( size_t k = 0; k < ev.size( ); k++) if( !used[k] && ev[k].sat == sat && ev[k].type == type && (best == ev.size( ) || fabsl( ev[k].t - t) < fabsl( ev[best].t - t))) best = k;
      const ld e = best < ev.size( ) ? (ev[best].t - t) * 1440. * speed[sat] / 203. : 999, lim = best < ev.size( ) && !ev[best].sure ? 60 : 1.3; if( best < ev.size( ) && ev[best].sure && fabsl( e) < 30) worst = std::max( worst, (double)fabsl( e));
      if( !(fabsl( e) < lim)) { vh_fail( "time", "'%s': the nearest such event is %.1Lf minutes off, for Io's speed", l[i].c_str( ), e); continue; }
      used[best] = 1; if( ev[best].hidden && !ev[best].maybe_hidden) vh_fail( "hidden", "'%s' cannot be seen", l[i].c_str( )); else vh.validated++;
      }
   for( size_t k = 0; k < ev.size( ); k++) if( !used[k] && ev[k].sure && !ev[k].hidden && !ev[k].maybe_hidden && ev[k].t > t1 + .02 && ev[k].t < t2 - .02) vh_fail( "missing", "moon %d, type %d, JD %.5Lf is not listed", ev[k].sat + 1, ev[k].type, ev[k].t);
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); const bool t = vh.thorough; measure = getenv( "TOL") != NULL; more_series.assign( jup, jup + sizeof jup / sizeof *jup); spit( "vsop.bin", vsop_bin( )); uint64_t k = 0;
   for( int y = 1600; y < 2400; y += t ? 6 : 40) for( int m = 1; m <= 12; m += t ? 1 : 5) if( vh_mine( k++)) one( 1 + (int)(k % 28), m, y, 30, 15, (int)(k / 3 % 8));
   for( int mask = 1; mask < 16; mask++) for( int days : { 1, 2, 7, 31, 100 }) for( int y : { 1995, 2003, 2009, 2021 }) if( vh_mine( k++)) one( 3 + (int)(k % 20), 1 + (int)(k % 12), y, days, mask, (int)(k % 8));
   if( vh_mine( k++)) one( 1, 1, 2004, t ? 3000 : 800, 15, 4);
   if( measure) vh_fail( "worst", "%g min", worst);
   return vh_done( );
}
