/* C41: lists of the Moon's phases and of the Sun's seasons, and the Chinese calendar data made from them (phases.cpp,
   chinese.cpp, solseqn.cpp, persian.cpp), with series made here (vsopbin.h), against roots found by bisection here. */
#include "vh.h"
#include <algorithm>
#include "watdefs.h"
#include "date.h"
#include "lunar.h"
#include "afuncs.h"
#include "vsopbin.h"
double get_solstice_equinox_date( double jd);
static double tol_s = 1e9, worst_s = 0., worst_z = 0.;
/* days since 1 Jan 4713 BC (proleptic Julian) or the same day in the Gregorian calendar, from plain rules */
static int64_t jdn( int64_t y, int m, int d, bool julian)
{
   const int64_t a = (14 - m) / 12, yy = y + 400000 - a, mm = m + 12 * a - 3; const int64_t base = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4;
   const int64_t off = 400000LL * 365 + 100000; return julian ? base - off - 365 * 4800LL - 1200 + 365 * 4800LL + 1200 + 1721117 : base - off - (yy / 100 - yy / 400) + (4000 - 1000) + 1721119;
}
static ld sun_lon( ld jd) { Place p = place( 3, jd); const ld lag = p.r * 149597870.7L / 299792.458L / 86400.L; return place( 3, jd - lag).lon; }
static ld elong_( ld jd) { return place( 10, jd).lon - sun_lon( jd); }
template<class F> static ld root( F f, ld a, ld b) { ld fa = remainderl( f( a), 2. * pi_); for( int i = 0; i < 45; i++) { const ld m = (a + b) / 2, fm = remainderl( f( m), 2. * pi_); if( (fm > 0) == (fa > 0)) { a = m; fa = fm; } else b = m; } return (a + b) / 2; }
static ld phase_near( ld jd, int i) { return root( [i]( ld t) { return elong_( t) - i * pi_ / 2; }, jd - 3., jd + 3.); }
static ld term_near( ld jd, int k) { return root( [k]( ld t) { return sun_lon( t) - k * pi_ / 6; }, jd - 8., jd + 8.); }
static const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
/* "%2d Mon %4d %2d:%02d:%02d" -> JD (or -1) */
static ld read_time( const char *s, bool julian) { int d, y, h, mi, sec, n = 0; char m[4]; if( sscanf( s, "%d %3s %d %d:%d:%d%n", &d, m, &y, &h, &mi, &sec, &n) != 6) return -1; const char *p = strstr( mon, m); if( !p || (p - mon) % 3) return -1; return jdn( y, (int)(p - mon) / 3 + 1, d, julian) - .5L + (h * 3600 + mi * 60 + sec) / 86400.L; }
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); char b[4000]; size_t n; while( f && (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); if( f) fclose( f); return r; }
/* lines, without the 'JD ... (...)\r' that may be shown at any moment to tell how far the program is */
static std::vector<S> split( S t) { std::vector<S> r; for( size_t c; (c = t.find( '\r')) != S::npos; ) { const size_t b = t.rfind( "JD ", c); t.erase( b == S::npos ? c : b, b == S::npos ? 1 : c + 1 - b); } size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); if( e == S::npos) e = t.size( ); r.push_back( t.substr( i, e - i)); i = e + 1; } return r; }
static ld utc( ld td) { return td - td_minus_utc( (double)td) / 86400.; }
static const char *names[] = { "New moon ", "1st qtr. ", "Full moon", "last qtr." };
static void phases( int y, double span, bool julian)
{
   vh_at( "phases", y, julian); char a[20], m[30]; snprintf( a, sizeof a, "%d", y); snprintf( m, sizeof m, "-m%g", y + span); std::vector<S> args = { a, m, "-lp.log", "-dp.dat" }; if( julian) args.push_back( "-j");
   unlink( "p.log"); unlink( "p.dat"); const int rc = run( "PROG_PHASES", args); const std::vector<S> o = split( out), l = split( slurp( "p.log")); const S d = slurp( "p.dat"); vh.states++; vh_outcome( vh_hash( d.data( ), d.size( )));
   int32_t k0 = 0; if( d.size( ) >= 4) memcpy( &k0, d.data( ), 4);
   if( rc || l.empty( ) || l.size( ) % 4 || o.size( ) < l.size( ) / 4 || d.size( ) != 4 + 4 * l.size( ) || k0 != (int32_t)floor( (y - 2000.) * 12.3685)) { vh_fail( "phases-shape", "exit %d, %zu lines logged, %zu printed, %zu bytes of data from lunation %d", rc, l.size( ), o.size( ), d.size( ), k0); return; }
   const ld end = 2451545.L + (y + span - 2000.) * 365.25L, start = 2451545.L + (y - 2000.) * 365.25L; ld prev = 0.;
   for( size_t i = 0; i < l.size( ); i++)
      {
      const int q = (int)(i % 4); const ld mean = 2451550.09765L + 29.530588853L * (k0 + i / 4.L), t = phase_near( mean + 1e-4 * powl( mean - 2451545., 2) / 1e8, q), u = utc( t); vh.transitions++;
      const ld got = l[i].size( ) > 11 && !l[i].compare( 0, 9, names[q]) ? read_time( l[i].c_str( ) + 11, julian) : -1, e = (got - u) * 86400.L; const size_t row = i / 4; int32_t dt; memcpy( &dt, d.data( ) + 4 + 4 * i, 4); const ld e2 = dt - (t - mean) * 86400.L;
      worst_s = std::max( worst_s, (double)std::max( fabsl( e + .5L), fabsl( e2)));
      S want = l[i].size( ) > 11 ? l[i].substr( 11, 17) : ""; const S p = o[row].size( ) >= 19 * (q + 1u) ? o[row].substr( 19 * q, 17) : "?";
      if( !(fabsl( e) < tol_s) || !(fabsl( e2) < tol_s)) vh_fail( "phase-time", "%s of lunation %d: '%s' is %.1Lf s, the data file %.1Lf s from JD %.6Lf", names[q], k0 + (int)row, l[i].c_str( ), e, e2, u);
      else if( p != want) vh_fail( "phase-row", "'%s' is listed as '%s'", l[i].c_str( ), o[row].c_str( ));
      else if( i && !(u - prev > 5.5 && u - prev < 9.5)) vh_fail( "phase-gap", "%Lg days before '%s'", u - prev, l[i].c_str( ));
      else vh.validated++;
      prev = u; if( i == 3 && u < start - 62.) vh_fail( "phase-start", "the list begins long before the year: %s", l[0].c_str( ));
      if( i + 1 == l.size( ) && t < end - .01) vh_fail( "phase-end", "the list ends at '%s'", l[i].c_str( )); if( i + 5 == l.size( ) && t > end + .01) vh_fail( "phase-end", "the list runs past '%s'", l[i].c_str( ));
      }
}
/* new moons and principal terms, as logged for the calendar; then the calendar data */
struct Ev { long jd; bool term; int month; long year; S line; };
struct Yr { int mask, icm; long ny; bool any; };
/* the calendar by its rule: month 11 holds the solstice; when there are 13 months, the first with no principal term repeats */
static void rule( const std::vector<Ev> &ev, std::map<long, Yr> &res, std::map<long, int> &n_months)
{
   struct Mo { long jd; int num; bool leap; long year; }; std::vector<Mo> mo; std::vector<size_t> sol; for( size_t i = 0; i < ev.size( ); i++) if( ev[i].term && ev[i].month == 11) sol.push_back( i);
   for( size_t s = 0; s + 1 < sol.size( ); s++)
      {
      std::vector<size_t> ms; for( size_t i = sol[s]; i < sol[s + 1]; i++) if( !ev[i].term) ms.push_back( i); bool used = false; int num = 11; const long y = ev[sol[s]].year;
      for( size_t i : ms) { bool has = false; for( size_t j = i + 1; j < ev.size( ) && ev[j].term; j++) has = true; const bool lp = ms.size( ) == 13 && !used && !has; if( lp) used = true; else num++; Mo m; m.jd = ev[i].jd; m.leap = lp; m.num = num > 12 ? num - 12 : num; m.year = num > 12 ? y + 1 : y; mo.push_back( m); }
      }
   long cur = 0; int bit = 99;
   for( size_t i = 0; i + 1 < mo.size( ); i++)
      {
      if( mo[i].num == 1 && !mo[i].leap) { cur = mo[i].year; bit = 0; Yr &r = res[cur]; r.mask = r.icm = 0; r.ny = mo[i].jd; r.any = true; n_months[cur] = 0; } if( bit == 99) continue;
      Yr &r = res[cur]; if( mo[i + 1].jd - mo[i].jd == 30) r.mask |= 1 << bit; if( mo[i].leap) r.icm = mo[i].num; bit++; n_months[cur] = bit;
      }
}
static void make_data( const std::vector<Ev> &ev, const char *what)
{
   std::vector<S> ls; for( const Ev &e : ev) ls.push_back( e.line); std::sort( ls.begin( ), ls.end( )); S t; for( const S &x : ls) t += x + "\n"; spit( "s.log", t);
   std::map<long, Yr> want; std::map<long, int> nm; rule( ev, want, nm); if( want.size( ) < 3) { vh_fail( "few", "%s: only %zu years", what, want.size( )); return; }
   const long y0 = want.begin( )->first; const int n = (int)want.size( ); char a[20]; snprintf( a, sizeof a, "%d", n); unlink( "chinese.dat"); const int rc = run( "PROG_CHINESE", { "s.log", a }); const S d = slurp( "chinese.dat"); int16_t h[2] = { 0, 0 }; if( d.size( ) >= 4) memcpy( h, d.data( ), 4); vh_outcome( vh_hash( d.data( ), d.size( )));
   if( rc || d.size( ) != 4 + 3 * (size_t)n || h[0] != n || h[1] != y0) { vh_fail( "data-shape", "%s: exit %d, %zu bytes, %d years from %d (not %d from %ld)", what, rc, d.size( ), h[0], h[1], n, y0); return; }
   for( int i = 0; i < n - 1; i++)
      {
      const unsigned char *p = (const unsigned char *)d.data( ) + 4 + 3 * i; const long v = p[0] | p[1] << 8 | (long)p[2] << 16, y = y0 + i; const Yr &w = want[y]; const int mask = v & 8191, icm = (v >> 13) % 14; const long ny = 365 * y + y / 4 + 757861L + (v >> 13) / 14; vh.states++; vh.transitions++;
      if( (mask ^ w.mask) & ((1 << nm[y]) - 1) || icm != w.icm || ny != w.ny) vh_fail( "chinese-data", "%s: Chinese %ld: months %04x, intercalary %d, new year %ld; not %04x, %d, %ld", what, y, mask, icm, ny, w.mask, w.icm, w.ny); else vh.validated++;
      }
}
static void chinese( int y, int span)
{
   vh_at( "calendar", y); char a[20], m[30]; snprintf( a, sizeof a, "%d", y); snprintf( m, sizeof m, "-m%d", y + span); unlink( "p.log"); const int rc = run( "PROG_PHASES", { a, m, "-c", "-lp.log" }); std::vector<S> l = split( slurp( "p.log")); if( rc || l.size( ) < 20) { vh_fail( "calendar-shape", "exit %d, %zu lines", rc, l.size( )); return; }
   std::vector<Ev> ev; const ld start = 2451545.L + (y - 2000.) * 365.25L, end = start + span * 365.25L; ld prev[2] = { 0, 0 };
   for( size_t i = 0; i < l.size( ); i++)
      {
      S x = l[i]; Ev e; e.line = x; e.jd = atol( x.c_str( )); e.term = x.size( ) > 8 && x[8] == 'z'; e.month = 0; e.year = 0; vh.transitions++; vh.states++;
      const ld got = x.size( ) > 11 ? read_time( x.c_str( ) + (e.term ? 9 : 8), false) : -1; ld t;
      if( !e.term) t = phase_near( got > 0 ? got + .0007 + td_minus_utc( (double)got) / 86400. : e.jd, 0);
      else { S tail = x; if( x.size( ) > 17 && x.size( ) > 26 && x[26] == ':') tail.erase( 17, 1); e.month = tail.size( ) > 32 ? atoi( tail.c_str( ) + 32) : 0; e.year = tail.size( ) > 35 ? atol( tail.c_str( ) + 35) : 0; t = term_near( (got > 0 ? got : e.jd) + td_minus_utc( (double)got) / 86400., (e.month + 10) % 12); }
      const ld u = utc( t), er = (got - u) * 86400.L; double &w = e.term ? worst_z : worst_s; w = std::max( w, (double)fabsl( er + .5L)); const ld b = u - 1.L / 6.L; const bool near = fabsl( b - roundl( b)) * 86400.L < (e.term ? 2. : tol_s);
      if( !(fabsl( er) < (e.term ? 3. : tol_s))) vh_fail( "calendar-time", "'%s' is %.1Lf s from JD %.6Lf", x.c_str( ), er, u);
      else if( e.jd != (long)floorl( b) && !near) vh_fail( "calendar-day", "'%s': the day in Beijing is %ld", x.c_str( ), (long)floorl( b));
      else if( prev[e.term] && !(e.term ? t - prev[1] > 29. && t - prev[1] < 32. : t - prev[0] > 29.1 && t - prev[0] < 30.)) vh_fail( "calendar-gap", "%Lg days before '%s'", t - prev[e.term], x.c_str( ));
      else if( e.term) { long gy = 0; int gm = 0; for( gy = y - 3; jdn( gy + 1, 1, 1, false) <= (long)floorl( u + .5L); ) gy++; for( gm = 12; jdn( gy, gm, 1, false) > (long)floorl( u + .5L); ) gm--; const long wy = gy + 2637 - (e.month >= 11 && gm <= 2); if( y > 0 && y < 4000 && e.year != wy) vh_fail( "calendar-year", "'%s': in Chinese year %ld", x.c_str( ), wy); else vh.validated++; }
      else vh.validated++;
      if( !prev[e.term] && t > start + (e.term ? 32. : 40.)) vh_fail( "calendar-start", "the list begins at '%s'", x.c_str( ));
      prev[e.term] = t; ev.push_back( e);
      }
   for( int k = 0; k < 2; k++) if( prev[k] < end - 33. || prev[k] > end + 33.) vh_fail( "calendar-end", "the last %s is at JD %.3Lf", k ? "term" : "new moon", prev[k]);
   for( size_t i = 1; i < ev.size( ); i++) if( ev[i].term == ev[i - 1].term && ev[i].term && ev[i].year < ev[i - 1].year) vh_fail( "calendar-year", "'%s' after '%s'", ev[i].line.c_str( ), ev[i - 1].line.c_str( ));
   std::stable_sort( ev.begin( ), ev.end( ), []( const Ev &p, const Ev &q) { return p.jd != q.jd ? p.jd < q.jd : p.term < q.term; }); char w[40]; snprintf( w, sizeof w, "from %d", y); while( !ev.empty( ) && !(ev.back( ).term && ev.back( ).month == 11)) ev.pop_back( ); /* the incomplete last year */ make_data( ev, w);
   /* against the calendar in the library, for years in which nothing falls near midnight */
   if( y >= 1650 && y + span < 2170)
      { std::map<long, Yr> want; std::map<long, int> nm; rule( ev, want, nm); int same = 0, n = 0; for( auto &p : want) { if( std::next( p.second.any ? want.find( p.first) : want.end( )) == want.end( )) continue; n++; const long ny = dmy_to_day( 1, 1, p.first, CALENDAR_CHINESE); const int icm = get_chinese_intercalary_month( ); bool ok = ny == p.second.ny + 1 && (icm ? icm - 1 : 0) == p.second.icm; for( int k = 0; ok && k < nm[p.first]; k++) ok = days_in_month( k + 1, p.first, CALENDAR_CHINESE) == 29 + (p.second.mask >> k & 1); same += ok; } vh.transitions += n; if( same < n * 3 / 4) vh_fail( "library", "of %d Chinese years from %d, only %d are as in the library", n, y, same); else vh.validated++; }
}
/* made-up years: every place of the intercalary month, before and after every other, with months of 29 and 30 days in every pattern of a period of five */
static void patterns( int full)
{
   int idx = 0;
   for( int first = -1; first < 12; first++) for( int second = -1; second < 12; second++) for( int pat = 0; pat < (full ? 32 : 4); pat++)
      {
      if( idx++ % vh.nshards != vh.shard) continue; vh_at( "pattern", first, second, pat); const int pt = full ? pat : pat * 11 + 2; std::vector<Ev> ev; long jd = 2451520, year = 4636; int mcount = 0; char b[100];
      auto moon = [&]( ) { snprintf( b, sizeof b, "%7ld     7 Dec 1999 22:32:10", jd); Ev e = { jd, false, 0, 0, b }; ev.push_back( e); jd += 29 + (pt >> (mcount++ % 5) & 1); };
      auto term = [&]( long at, int m, long y) { snprintf( b, sizeof b, "%7ld z  22 Dec 1999  7:44:10  %2d %5ld", at, m, y); Ev e = { at, true, m, y, b }; ev.push_back( e); };
      moon( ); term( ev.back( ).jd + 12, 11, year);
      for( int s = 0; s < 5; s++)
         { const int leap = s == 1 ? first : s == 3 ? second : -1;      /* the leap month comes after this many ordinary ones */
         for( int i = 0; i < 12; i++) { if( leap == i) moon( ); const int m = (11 + i) % 12 + 1; if( m == 1) year++; moon( ); const long here = ev.back( ).jd; term( here + (leap >= 0 ? (i >= leap ? 0 : 28) : 14), m, year); } }
      make_data( ev, "made-up");
      }
}
/* solstices and equinoxes: apparent longitude (equinox of date, with nutation and aberration) a multiple of 90 degrees */
static void seasons( int y0, int y1)
{
   S b; std::vector<V> t; int16_t st[145]; int n = 0; for( int i = 0; i < 145; i++) { st[i] = (int16_t)n; const int s = i - 36 + 36; if( i >= 36 && i < 54) for( const V &e : earth) if( e.series == s) { t.push_back( e); n++; } } for( int16_t s : st) add<int16_t>( b, s); for( const V &e : t) { add( b, e.a * 1e-8); add( b, e.b); add( b, e.c); } spit( "big_vsop.bin", b);
   auto app = []( ld jd) { const ld T = (jd - 2451545.L) / 36525.L; double dl = 0.; nutation( (double)T, &dl, NULL); const Place p = place( 3, jd), q = place( 3, jd + .5L), o = place( 3, jd - .5L); const ld rate = remainderl( q.lon - o.lon, 2. * pi_); return p.lon + D2R / 3600.L * (dl - .09033L) - rate * p.r * .005775518L; };
   for( int y = y0 + vh.shard; y < y1; y += vh.nshards) for( int k = 0; k < 4; k++) for( int g = -40; g <= 40; g += 20)
      {
      vh_at( "season", y, k, g); const ld mean = 1721139.29189L + 365.242137L * (y + k / 4.L) + (k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 1 : 0), t0 = root( [&]( ld t) { return app( t) - k * pi_ / 2; }, mean - 8., mean + 8.); const double got = get_solstice_equinox_date( (double)t0 + g); const ld e = (got - t0) * 86400.L; vh.states++; vh.transitions++; worst_z = std::max( worst_z, (double)fabsl( e));
      if( !(fabsl( e) < 4.)) vh_fail( "season", "year %d, season %d from %d days off: JD %.6f, %.2Lf s from JD %.6Lf", y, k, g, got, e, t0); else vh.validated++;
      }
   for( int y = 1 + vh.shard * 40; y < 2300; y += 40 * vh.nshards)
      {   /* persian: lengths of the years between noons at Teheran */
      vh_at( "persian", y); char a[20]; snprintf( a, sizeof a, "%d", y); std::vector<S> l; const int rc = run( "PROG_PERSIAN", { a, "40", "-j" }); l = split( out); size_t at = 0; if( !l.empty( ) && !l[0].compare( 0, 9, "Switching")) at++;
      if( rc) { vh_fail( "persian", "exit %d", rc); continue; }
      for( int i = 0; i < 40; i++)
         {
         const int yr = y + i, g = yr + 621; auto eq = [&]( int gy) { const ld m = 2451623.809L + (gy - 2000) * 365.24237404L; const ld r = root( [&]( ld t) { return app( t); }, m - 6., m + 6.); return r + (51.L + 26.L / 60.L) / 360.L - td_minus_ut( 2451545. + (g - 2000.) * 365.25) / 86400.L; };
         const ld e1 = eq( g), e2 = eq( g + 1); if( fabsl( e1 - roundl( e1)) < 1e-4 || fabsl( e2 - roundl( e2)) < 1e-4) { while( at < l.size( ) && atoi( l[at].c_str( )) != g + 1) at++; continue; }
         const int n = (int)(floorl( e2) - floorl( e1)); int gg = 0, yy = 0, nn = 0; vh.states++; vh.transitions++; const S first = at < l.size( ) ? l[at] : S( "nothing"); S rest; at++; while( at < l.size( ) && !isdigit( (unsigned char)l[at][0])) rest += l[at++] + "|";
         const int r33 = yr % 33, rr = r33 > 18 ? r33 - 1 : r33; const bool leap = rr % 4 == 1, panic = (long)floorl( e1) + 1 != dmy_to_day( 1, 1, yr, CALENDAR_PERSIAN);
         if( sscanf( first.c_str( ), "%d, %d: %d", &gg, &yy, &nn) != 3 || gg != g || yy != yr || nn != n || (first.find( "Is leap") != S::npos) != leap || (rest.find( "DANGER") != S::npos) != (n != 365 + leap) || (rest.find( "PANIC") != S::npos) != panic) vh_fail( "persian", "year %d: '%s' '%s'; %d days from JD %.4Lf, %s", yr, first.c_str( ), rest.c_str( ), n, e1, panic ? "unlike the library's" : "as in the library"); else vh.validated++;
         }
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); const bool t = vh.thorough; spit( "vsop.bin", vsop_bin( ));
   if( !vh.shard) for( int j = 0; j < 3; j++) { const long d = j == 0 ? jdn( 2000, 1, 1, false) - 2451545 : j == 1 ? jdn( 1, 1, 1, true) - 1721424 : jdn( -4712, 1, 1, true); if( d) { fprintf( stderr, "day count %d off by %ld\n", j, d); exit( 3); } }
   std::vector<int> ys; for( int y = -1400; y < 3500; y += t ? 10 : 100) ys.push_back( y); if( getenv( "TOL")) tol_s = atof( getenv( "TOL")); else tol_s = 3.;
   for( size_t i = vh.shard; i < ys.size( ); i += vh.nshards) { phases( ys[i], t ? 10. : 2., false); if( ys[i] > 0 && ys[i] < 1600) phases( ys[i], 1., true); }
   ys.clear( ); for( int y = -2500; y < 6000; y += t ? 50 : 250) ys.push_back( y); for( int y = 1660; y < 2120; y += 50) ys.push_back( y);
   for( size_t i = vh.shard; i < ys.size( ); i += vh.nshards) chinese( ys[i], t ? 54 : 24);
   patterns( t); seasons( t ? -1500 : 1500, t ? 4000 : 2300);
   if( getenv( "TOL")) vh_fail( "worst", "worst %g s, terms %g s\n", worst_s, worst_z);
   return vh_done( );
}
