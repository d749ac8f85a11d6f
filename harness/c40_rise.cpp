/* C40: rise, set and transit of the Sun and the Moon (riseset3.cpp, lun_tran.cpp, the programs 'tables' and 'lun_test'),
   with a 'vsop.bin' made here from the leading terms of VSOP87 and of Meeus's theory of the Moon.  The expected
   places are computed here, in long double, from the same terms. */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "lunar.h"
#include "afuncs.h"
#include "riseset3.h"
#include "vsopbin.h"
double get_lunar_transit_time( const int year, const int month, const int day, const double latitude, const double longitude, const int time_zone, const int dst, const int real_transit);
int get_zip_code_data( const int zip_code, double *latitude, double *longitude, int *time_zone, int *use_dst, char *place_name);
void format_hh_mm( char *buff, const double time);
static ld lst( ld jd, ld lon) { const ld d = jd - 2451545.L, T = d / 36525.L; return norm( D2R * fmodl( 280.46061837L + 360.98564736629L * d + .000387933L * T * T - T * T * T / 38710000.L, 360.L) + lon); }
/* altitude, and the angle east of the meridian */
static ld alt_of( const Place &p, ld jd, ld lat, ld lon, ld *east = NULL, ld *az = NULL)
{
   const ld th = lst( jd, lon), x = p.eq[0] * cosl( th) + p.eq[1] * sinl( th), y = -p.eq[0] * sinl( th) + p.eq[1] * cosl( th), z = p.eq[2];
   if( east) *east = atan2l( y, x); const ld s = sinl( lat) * z + cosl( lat) * x; if( az) { az[0] = sinl( lat) * x - cosl( lat) * z; az[1] = y; az[2] = s; } return asinl( s > 1. ? 1.L : s < -1. ? -1.L : s);
}
static const double J0 = 2451544.5;
static void places( int days)
{
   static const double lats[] = { -90., -66.5, -33., 0., 21., 44.01, 70., 90. }, lons[] = { 0., -69.9, 175. };
   for( long i = vh.shard; i < days; i += vh.nshards) for( int body = 3; body <= 10; body += 7)
      {
      const double jd = 2415020.5 + i * 73049.37 / days; const Place p = place( body, jd);
      for( double la : lats) for( double lo : lons)
         {
         vh_at( "place", body); vh_d( jd); vh_d( la); vh_d( lo); PLANET_DATA d; memset( &d, 0, sizeof d); fill_planet_data( &d, body, jd, la * (double)D2R, lo * (double)D2R, vs); ld az[3], east; alt_of( p, jd, la * D2R, lo * D2R, &east, az); vh.states++; vh.transitions++; vh_outcome( vh_hash( &d, sizeof d));
         ld worst = 0.; for( int k = 0; k < 3; k++) { worst = std::max( worst, fabsl( d.ecliptic_loc[k] - p.ecl[k])); worst = std::max( worst, fabsl( d.equatorial_loc[k] - p.eq[k])); worst = std::max( worst, fabsl( d.altaz_loc[k] - az[k])); }
         worst = std::max( worst, fabsl( remainderl( d.hour_angle - east, 2. * pi_)) * sqrtl( 1. - p.eq[2] * p.eq[2])); worst = std::max( worst, fabsl( remainderl( d.ecliptic_lon - p.lon, 2. * pi_))); worst = std::max( worst, fabsl( d.ecliptic_lat - p.lat)); worst = std::max( worst, fabsl( d.r / p.r - 1.)); if( d.jd != jd) worst = 9.;
         if( !(worst < 5e-7)) vh_fail( "place", "body %d at JD %.6f from latitude %g longitude %g: off by %.3Lg", body, jd, la, lo, worst); else vh.validated++;
         }
      }
}
static ld rs_alt( int body) { return body == 10 ? .125L * D2R : -.83333L * D2R; }
static void rise_set( int days, int step_div, const std::vector<double> &lats, const std::vector<double> &lons)
{
   ld worst = 0.;
   for( long i = vh.shard; i < days; i += vh.nshards) for( int body = 3; body <= 10; body += 7)
      {
      double jd = J0 + i; Place p[49]; for( int h = 0; h <= step_div; h++) p[h] = place( body, J0 + i + (ld)h / step_div);
      for( double la : lats) for( double lo : lons) for( int h = 0; h < step_div; h++)
         {
         const double j0 = jd + (double)h / step_div, j1 = jd + (double)(h + 1) / step_div; vh_at( "rise-set", body, h); vh_d( j0); vh_d( la); vh_d( lo); int set = 77;
         const double got = look_for_rise_set( body, j0, j1, la * (double)D2R, lo * (double)D2R, vs, &set); vh.states++; vh.transitions++;
         const ld a0 = alt_of( p[h], j0, la * D2R, lo * D2R) - rs_alt( body), a1 = alt_of( p[h + 1], j1, la * D2R, lo * D2R) - rs_alt( body);
         if( fabsl( a0) < 1e-6 || fabsl( a1) < 1e-6) { vh.counters["within 0.2 arcsec of the horizon"]++; continue; }
         const int want = a0 > 0. && a1 <= 0. ? 1 : a0 <= 0. && a1 > 0. ? 0 : -1;
         if( set != want) { vh_fail( "rise-or-set", "body %d, JD %.4f to %.4f, latitude %g longitude %g: says %d, but the altitude goes from %.5Lf to %.5Lf degrees", body, j0, j1, la, lo, set, a0 / D2R, a1 / D2R); continue; }
         if( want < 0) { vh.validated++; continue; }
         vh_outcome( vh_hash( &got, sizeof got)); const ld off = (ld)(got - j0) * step_div; const ld a = alt_of( place( body, got), got, la * D2R, lo * D2R) - rs_alt( body), err = a / (a1 - a0);
         if( fabsl( err) > worst) worst = fabsl( err);
         if( !(off > -1e-3 && off < 1.001)) vh_fail( "rise-set-time", "body %d, JD %.6f to %.6f, latitude %g longitude %g: the time found, %.6f, is outside", body, j0, j1, la, lo, got);
         else if( !(fabsl( a) < 3e-5 * D2R * (1.L + 360.L / step_div) + 3e-4 * fabsl( a1 - a0))) vh_fail( "rise-set-time", "body %d, latitude %g longitude %g: JD %.6f is not when it %s: it is %.4Lf degrees from the horizon", body, la, lo, got, want ? "sets" : "rises", a / D2R);
         else vh.validated++;
         }
      }
   char b[80]; snprintf( b, sizeof b, "worst rise/set error %.3Lg of the interval", worst); vh_sample( "%s", b);
}
static int ref_dst( int year, int doy)    /* noon of that day; doy from 0 */
{
   const long d0 = dmy_to_day( 1, 1, year, 0); const long day = d0 + doy; int m0 = year <= 2006 ? 4 : 3, n0 = year <= 2006 ? 1 : 2;
   long s = dmy_to_day( 1, m0, year, 0); while( s % 7 != 6) s++; s += 7 * (n0 - 1); long e; if( year <= 2006) { e = dmy_to_day( 31, 10, year, 0); while( e % 7 != 6) e--; } else { e = dmy_to_day( 1, 11, year, 0); while( e % 7 != 6) e++; }
   return day >= s && day < e;
}
static void transits( int y0, int y1, int every, const std::vector<double> &lats)
{
   int idx = 0;
   for( int y = y0; y <= y1; y++) for( int doy = 0; doy < (int)( dmy_to_day( 1, 1, y + 1, 0) - dmy_to_day( 1, 1, y, 0)); doy++)
      {
      if( idx++ % vh.nshards != vh.shard) continue; if( (idx / vh.nshards) % every) continue;
      int d, m; long yy; day_to_dmy( dmy_to_day( 1, 1, y, 0) + doy, &d, &m, &yy, 0); const long day = dmy_to_day( d, m, y, 0);
      for( double la : lats) for( int q = 0; q < 4; q++)
         {
         static const double lons[] = { -69.9, -156.5, -90., 144.8 }; static const int zones[] = { -5, -10, -6, 10 }; const double lo = lons[q]; const int tz = zones[q], dst = (q ^ doy) & 1, real = (q / 2 ^ doy / 2) & 1;
         vh_at( "transit", y, m, d, q); vh_d( la); vh_i( dst); vh_i( real); const double f = get_lunar_transit_time( y, m, d, la, lo, tz, dst, real); vh.states++; vh.transitions++; vh_outcome( vh_hash( &f, sizeof f));
         const ld hours = tz + (dst && ref_dst( y, doy)), jd = day - .5L + f - hours / 24.L; ld east; const ld a = alt_of( place( 10, jd), jd, la * D2R, lo * D2R, &east); if( !real) east = remainderl( east + pi_, 2. * pi_);
         const bool pole = fabs( la) > 89.9;
         if( !(f > -.06 && f < 1.06)) vh_fail( "transit-day", "%d-%02d-%02d at latitude %g longitude %g: a %s at %.5f of the day", y, m, d, la, lo, real ? "transit" : "lower transit", f);
         else if( !pole && !(fabsl( east) < 2e-4)) vh_fail( "transit", "%d-%02d-%02d at latitude %g longitude %g, zone %d%s: %s at %.5f of the day, when the Moon is %.3Lf degrees from that meridian, %.2Lf high", y, m, d, la, lo, tz, dst ? " with daylight time" : "", real ? "transit" : "lower transit", f, east / D2R, a / D2R);
         else vh.validated++;
         }
      }
}
static void hh_mm( )
{
   vh_at( "format"); for( int i = -3000 + vh.shard; i < 20000; i += vh.nshards) { const double t = (i + .5) / 14400.; char b[40]; memset( b, '#', sizeof b); format_hh_mm( b, t); vh.states++; vh.transitions++; char w[20]; const int mn = i / 10; if( t < 0. || t >= 1.) strcpy( w, "--:--"); else snprintf( w, sizeof w, "%02d:%02d", mn / 60, mn % 60); if( strcmp( b, w) || b[6] != '#') vh_fail( "hh-mm", "%.6f of a day is shown as '%.10s', not '%s'", t, b, w); else vh.validated++; }
}
/* is the clock time 'hh:mm' (cut, not rounded) within a few seconds of the event at 't' (fraction of a day)? */
static bool clock_is( const S &s, ld t, ld tol_s) { int h, m; if( s.size( ) < 5 || s[2] != ':' || sscanf( s.c_str( ), "%2d:%2d", &h, &m) != 2 || h > 23 || m > 59) return false; const ld x = (t - floorl( t)) * 1440.L, v = h * 60 + m; const ld d = remainderl( x - v - .5L, 1440.L); return fabsl( d) < .5L + tol_s / 60.L; }
static void tables( int y0, int y1)
{
   const ld la = 44.01L * D2R, lo = -69.9L * D2R; int idx = 0;
   for( int y = y0; y <= y1; y++) for( int whole = 0; whole < 2; whole++) for( int mo = 1; mo <= (whole ? 1 : 12); mo++)
      {
      if( idx++ % vh.nshards != vh.shard) continue; vh_at( "tables", y, mo, whole); char a[20], b[20]; snprintf( a, sizeof a, "%d", y); snprintf( b, sizeof b, "%d", mo); std::vector<S> args; args.push_back( a); if( !whole) args.push_back( b);
      const int rc = run( "PROG_TABLES", args); std::vector<S> l = lines( ); const long d0 = dmy_to_day( 1, whole ? 1 : mo, y, 0), d1 = whole || mo == 12 ? dmy_to_day( 1, 1, y + 1, 0) : dmy_to_day( 1, mo + 1, y, 0);
      vh_outcome( out.c_str( )); if( rc || (long)l.size( ) != d1 - d0 + 2) { vh_fail( "tables", "tables %s %s: status %d, %zu lines", a, whole ? "" : b, rc, l.size( )); continue; }
      for( long d = d0; d < d1; d++)
         {
         const S &s = l[d - d0 + 2]; vh.states++; bool ok = s.size( ) == 39; const char *why = "length"; int dd, mm; long yy; day_to_dmy( d, &dd, &mm, &yy, 0); char w[10]; if( d % 7 == 6) strcpy( w, "Su"); else snprintf( w, sizeof w, "%2d", dd);
         if( ok) { why = "day"; ok = s.substr( 0, 2) == w; }
         for( int body = 3; ok && body <= 10; body += 7)
            {
            const ld j = d - .5L + 5.L / 24.L; ld last = alt_of( place( body, j), j, la, lo) - rs_alt( body); bool seen[2] = { false, false }; ld when[2] = { 0., 0. }; bool close_ = false; const int n = 24;
            for( int h = 1; h <= n; h++) { ld t1 = j + (ld)h / n, t0 = j + (ld)(h - 1) / n; const ld cur = alt_of( place( body, t1), t1, la, lo) - rs_alt( body); if( fabsl( cur) < 1e-5 || fabsl( last) < 1e-5) close_ = true; if( (last > 0.) != (cur > 0.)) { const int k = last > 0. ? 1 : 0; ld x0 = t0, x1 = t1; for( int it = 0; it < 40; it++) { const ld x = (x0 + x1) / 2., v = alt_of( place( body, x), x, la, lo) - rs_alt( body); if( (v > 0.) == (last > 0.)) x0 = x; else x1 = x; } seen[k] = true; when[k] = (x0 + x1) / 2. - j; } last = cur; }
            for( int k = 0; ok && k < 2; k++) { static const int at[2][2] = { { 4, 10 }, { 17, 23 } }; const S f = s.substr( at[body == 10][k], 5); why = body == 10 ? (k ? "Moon set" : "Moon rise") : (k ? "Sun set" : "Sun rise"); if( close_) vh.counters["horizon at the hour"]++; else ok = seen[k] ? clock_is( f, when[k], 3.) : f == "--:--"; }
            }
         if( ok)
            {
            ld el[2], sun[2]; for( int k = 0; k < 2; k++) { const ld j = d - .5L + 5.L / 24.L + k; sun[k] = place( 3, j).lon; el[k] = norm( place( 10, j).lon - sun[k]); } const int q0 = (int)( el[0] * 2. / pi_), q1 = (int)( el[1] * 2. / pi_), s0 = (int)( sun[0] * 2. / pi_), s1 = (int)( sun[1] * 2. / pi_);
            static const char *ph[] = { "1Q", "FM", "3Q", "NM" }, *se[] = { "Summ Sol", "Autu Eq", "Wint Sol", "Vern Eq" }; bool near_ = false; for( int k = 0; k < 2; k++) { const ld u = el[k] * 2. / pi_, v = sun[k] * 2. / pi_; if( fabsl( u - roundl( u)) < 1e-5 || fabsl( v - roundl( v)) < 1e-5) near_ = true; }
            S want = s0 != s1 ? se[s0] : q0 != q1 ? ph[q0] : ""; want.resize( 10, ' '); why = "phase or season"; if( !near_) ok = s.substr( 29) == want;
            }
         if( !ok) vh_fail( "tables", "tables %s %s, %ld-%02d-%02d: %s: '%s'", a, whole ? "" : b, yy, mm, dd, why, s.c_str( )); else vh.validated++;
         }
      }
   if( !vh.shard) { rename( "vsop.bin", "away"); const int rc = run( "PROG_TABLES", { "2000", "1" }); if( rc != 255 || out.find( "wasn't loaded") == S::npos) vh_fail( "tables", "tables without vsop.bin: status %d '%.100s'", rc, out.c_str( )); else vh.validated++; rename( "away", "vsop.bin"); }
}
/* the list of ZIP codes, and 'lun_test' */
struct Zip { int code; S st; double lat, lon; int tz, dst; S name; };
static void zips( int n_months)
{
   static const char *names[] = { "Bowdoinham", "A", "Saint Mary of the Woods", "Hilo", "Adak" }, *st[] = { "ME", "NY", "IN", "HI", "AK" }; std::vector<Zip> all; S file;
   for( int i = 0; i < 40; i++) { Zip z; z.code = i == 0 ? 501 : i == 1 ? 4008 : 1000 + i * 2477; z.st = st[i % 5]; z.lat = 17.5 + i * 1.3 + .010301 * i; z.lon = -66. - i * 2.8; z.tz = -5 - i % 6; z.dst = i & 1; z.name = names[i % 5]; all.push_back( z); }
   for( const Zip &z : all) { char b[200]; snprintf( b, sizeof b, "%05d %2s   %10.6f %11.6f  %3d %d         ", z.code, z.st.c_str( ), z.lat, z.lon, z.tz, z.dst); S l = b; l.resize( 48, ' '); l += z.name; file += l + "\r\n"; }
   /* columns: latitude at 11, longitude at 22, zone at 35, daylight time at 39, name at 48 */
   spit( "zips5.txt", file); int idx = 0;
   for( const Zip &z : all)
      {
      if( idx++ % vh.nshards != vh.shard) continue; for( int miss = -1; miss <= 1; miss++)
         {
         double la = 7., lo = 7.; int tz = 77, dst = 77; char nm[120] = "?"; vh_at( "zip", z.code + miss); const int rc = get_zip_code_data( z.code + miss, &la, &lo, &tz, &dst, nm); vh.states++; vh.transitions++; bool ok;
         if( miss) ok = rc == -1 && la == 7. && lo == 7. && tz == 77; else ok = !rc && fabs( la - z.lat) < 1e-6 && fabs( lo - z.lon) < 1e-6 && tz == z.tz && dst == z.dst && z.name + ", " + z.st == nm; if( !miss) { double l2, m2; int a, b; if( get_zip_code_data( z.code, &l2, &m2, &a, &b, NULL) || l2 != la || b != dst) ok = false; }
         if( !ok) vh_fail( "zip", "ZIP code %05d: %d, %f %f %d %d '%s'", z.code + miss, rc, la, lo, tz, dst, nm); else vh.validated++;
         }
      for( int mo = 0; mo < n_months; mo++)
         {
         const int y = 2006 + mo / 12 + z.code % 7, m = mo % 12 + 1; char a[20], b[20], c[20]; snprintf( a, sizeof a, "%d", y); snprintf( b, sizeof b, "%d", m); snprintf( c, sizeof c, "%05d", z.code); vh_at( "lun_test", y, m, z.code); const int rc = run( "PROG_LUNTEST", { a, b, c }); std::vector<S> l = lines( ); vh_outcome( out.c_str( ));
         double la, lo; int tz, dst, n = 0; if( rc || l.size( ) != 32 || sscanf( l[0].c_str( ), "Lat %lf Lon %lf Time zone %d DST=%d %n", &la, &lo, &tz, &dst, &n) != 4 || fabs( la - z.lat) > 2e-6 || fabs( lo - z.lon) > 2e-6 || tz != z.tz || dst != z.dst || l[0].substr( n) != z.name + ", " + z.st) { vh_fail( "lun-test", "lun_test %s %s %s: status %d: '%.200s'", a, b, c, rc, out.c_str( )); continue; }
         for( int d = 1; d <= 31; d++)
            {
            const S &s = l[d]; vh.states++; bool ok = s.size( ) == 15 && atoi( s.c_str( )) == d; const long day = dmy_to_day( d, m, y, 0); const ld hours = z.tz + (z.dst && ref_dst( y, (int)( day - dmy_to_day( 1, 1, y, 0))));
            for( int k = 0; ok && k < 2; k++)
               {
               const S f = s.substr( 4 + 6 * k, 5); ld e0, e1; const ld j0 = day - .5L - hours / 24.L; bool seen = false, edge = false; ld when = 0.;
               for( int h = 0; h < 24; h++) { const ld t0 = j0 + h / 24.L, t1 = t0 + 1.L / 24.L; alt_of( place( 10, t0), t0, z.lat * D2R, z.lon * D2R, &e0); alt_of( place( 10, t1), t1, z.lat * D2R, z.lon * D2R, &e1); if( k) { e0 = remainderl( e0 + pi_, 2. * pi_); e1 = remainderl( e1 + pi_, 2. * pi_); } if( (!h && fabsl( e0) < 3e-4) || (h == 23 && fabsl( e1) < 3e-4)) edge = true; if( e0 > 0. && e1 <= 0. && e0 < 1.) { ld x0 = t0, x1 = t1; for( int it = 0; it < 40; it++) { const ld x = (x0 + x1) / 2.; ld e; alt_of( place( 10, x), x, z.lat * D2R, z.lon * D2R, &e); if( k) e = remainderl( e + pi_, 2. * pi_); if( e > 0.) x0 = x; else x1 = x; } seen = true; when = (x0 + x1) / 2. - j0; } }
               if( edge) { vh.counters["transit at midnight"]++; continue; } ok = seen ? clock_is( f, when, 8.) : f == "--:--";
               if( !ok) vh_fail( "lun-test", "lun_test %s %s %s (latitude %g), day %d: %s '%s', should be %s%.2Lf h", a, b, c, z.lat, d, k ? "lower transit" : "transit", s.c_str( ), seen ? "" : "none or ", when * 24.L);
               }
            if( ok) vh.validated++;
            }
         }
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); data_ = vsop_bin( ); vs = data_.data( );
   if( !vh.shard) { vh_at( "missing"); unlink( "vsop.bin"); const double f = get_lunar_transit_time( 2011, 7, 29, 44.01, -69.9, -5, 1, 1); if( f != -2.) vh_fail( "missing", "with no vsop.bin, a transit at %g", f); size_t n = 5; if( load_file_into_memory( "vsop.bin", &n)) vh_fail( "missing", "a missing file is loaded"); }
   spit( "vsop.bin", data_); { size_t n = 0; char *p = load_file_into_memory( "vsop.bin", &n); if( !p || n != data_.size( ) || memcmp( p, vs, n)) vh_fail( "load", "vsop.bin is loaded as %zu bytes", n); free( p); }
   const bool t = vh.thorough;
   places( t ? 100000 : 8000);
   std::vector<double> la = { -90., -89.5, -75., -66.7, -60., -40., -20., 0., 21., 44.01, 52., 62., 65.5, 66.5, 67., 70., 80., 90. }, lo = { 0., -69.9, 150. }; if( t) for( double x = -88.; x < 90.; x += 4.) la.push_back( x);
   rise_set( t ? 6940 : 740, 24, la, lo); rise_set( t ? 6940 : 740, 5, la, { 11. });
   std::vector<double> tl = { 44.01, 19.7, 0., -14.3, -45., 61., 71.3 }; if( t) for( double x = -85.; x <= 85.; x += 10.) tl.push_back( x); transits( t ? 1990 : 2000, t ? 2040 : 2012, t ? 1 : 2, tl);
   hh_mm( ); tables( t ? 1960 : 2003, t ? 2060 : 2008); zips( t ? 48 : 6);
   return vh_done( );
}
