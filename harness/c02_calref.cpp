/* C02: dates agree with independent statements of each calendar's rule.
   Each reference model is a leap-year / month-length rule plus one historical
   anchor date; it is stepped year by year (state = New Year's JD), and the
   implementation is compared on every month start of every year.          */
#include "vh.h"
#include "watdefs.h"
#include "date.h"

static long fdiv( long a, long b) { long q = a / b; if( (a % b) && ((a < 0) != (b < 0))) q--; return q; }
static long fmod_( long a, long b) { return a - b * fdiv( a, b); }

static bool greg_leap( long y) { return fmod_( y, 4) == 0 && (fmod_( y, 100) != 0 || fmod_( y, 400) == 0); }
static bool jul_leap( long y) { return fmod_( y, 4) == 0; }

struct Year { int n; int len[14]; };      /* months 1..13 */

static Year solar( bool leap)
{
   static const int l[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   Year y; y.n = 12; for( int i = 1; i <= 12; i++) y.len[i] = l[i]; if( leap) y.len[2] = 29; y.len[13] = 0; return y;
}
static Year gregorian( long y) { return solar( greg_leap( y)); }
static Year julian( long y) { return solar( jul_leap( y)); }
static Year islamic( long y)
{
   static const int leaps[] = { 2, 5, 7, 10, 13, 16, 18, 21, 24, 26, 29 };
   long c = fmod_( y, 30); bool leap = false;
   for( int l : leaps) if( c == l) leap = true;
   Year r; r.n = 12; for( int i = 1; i <= 12; i++) r.len[i] = (i & 1) ? 30 : 29;
   if( leap) r.len[12] = 30; r.len[13] = 0; return r;
}
static Year modern_persian( long y)
{
   /* Birashk: 2820-year cycle with 683 leap years */
   const long e = fmod_( y - 474, 2820) + 474;
   const bool leap = ((e + 38) * 682) % 2816 < 682;
   Year r; r.n = 12;
   for( int i = 1; i <= 12; i++) r.len[i] = i <= 6 ? 31 : (i <= 11 ? 30 : (leap ? 30 : 29));
   r.len[13] = 0; return r;
}
/* Hebrew: molad arithmetic and the four postponements, after Reingold & Dershowitz */
static long heb_elapsed( long y)
{
   const long months = fdiv( 235 * y - 234, 19);
   const long parts = 12084 + 13753 * months;
   long day = 29 * months + fdiv( parts, 25920);
   if( fmod_( 3 * (day + 1), 7) < 3) day++;
   return day;
}
static long heb_new_year( long y)
{
   const long n0 = heb_elapsed( y - 1), n1 = heb_elapsed( y), n2 = heb_elapsed( y + 1);
   int corr = 0;
   if( n2 - n1 == 356) corr = 2;
   else if( n1 - n0 == 382) corr = 1;
   return 347998 + n1 + corr;
}
static Year hebrew( long y)
{
   static const int leap19[] = { 3, 6, 8, 11, 14, 17, 0 };
   bool leap = false;
   for( int l : leap19) if( fmod_( y, 19) == l) leap = true;
   const long len = heb_new_year( y + 1) - heb_new_year( y);
   Year r;
   r.len[1] = 30; r.len[2] = (len % 10 == 5) ? 30 : 29; r.len[3] = (len % 10 == 3) ? 29 : 30;
   r.len[4] = 29; r.len[5] = 30;
   if( leap) { r.len[6] = 30; r.len[7] = 29; } else { r.len[6] = 29; r.len[7] = 0; }
   r.len[8] = 30; r.len[9] = 29; r.len[10] = 30; r.len[11] = 29; r.len[12] = 30; r.len[13] = 29;
   r.n = 13;
   return r;
}
/* mean equinoxes, Meeus, _Astronomical Algorithms_ ch. 26 (TD) */
static double equinox( bool march, double y)
{
   if( y < 1000)
      {
      const double Y = y / 1000;
      return march ? 1721139.29189 + Y * (365242.13740 + Y * (0.06134 + Y * (0.00111 - 0.00071 * Y)))
                   : 1721325.70455 + Y * (365242.49558 + Y * (-0.11677 + Y * (-0.00297 + 0.00074 * Y)));
      }
   const double Y = (y - 2000) / 1000;
   return march ? 2451623.80984 + Y * (365242.37404 + Y * (0.05169 + Y * (-0.00411 - 0.00057 * Y)))
                : 2451810.21715 + Y * (365242.01767 + Y * (-0.11575 + Y * (0.00337 + 0.00078 * Y)));
}
/* Borkowski's table of Jalaali leap-year breaks */
static long borkowski( int jy)
{
   static const int br[] = { -61, 9, 38, 199, 426, 686, 756, 818, 1111, 1181, 1210, 1635, 2060, 2097, 2192, 2262, 2324, 2394, 2456, 3178 };
   int jp = br[0], jump = 0, leapJ = -14;
   for( int i = 1; i < 20; i++)
      {
      jump = br[i] - jp;
      if( jy < br[i]) break;
      leapJ += jump / 33 * 8 + (jump % 33) / 4; jp = br[i];
      }
   int n = jy - jp;
   leapJ += n / 33 * 8 + (n % 33 + 3) / 4;
   if( jump % 33 == 4 && jump - n == 4) leapJ++;
   const int gy = jy + 621;
   const int leapG = gy / 4 - ((gy / 100 + 1) * 3) / 4 - 150;
   /* Gregorian March 'day' of year gy -> JD, by counting from 1 March 2000 = 2451605 */
   long jd = 2451605;
   if( gy >= 2000) for( int y = 2000; y < gy; y++) jd += 365 + greg_leap( y + 1);
   else for( int y = gy; y < 2000; y++) jd -= 365 + greg_leap( y + 1);
   return jd + (20 + leapJ - leapG) - 1;
}

typedef Year (*rule)( long);
static void ruled( const char *name, int cal, rule f, long anchor_year, long anchor_jd, long y0, long y1)
{
   static uint64_t block = 0;
   for( int dir = 0; dir < 2; dir++)
      {
      long jd = anchor_jd;
      for( long y = anchor_year; dir ? y >= y0 : y <= y1; )
         {
         const Year r = f( y);
         long len = 0; for( int i = 1; i <= 13; i++) len += r.len[i];
         if( vh_mine( block++ / 64))
            {
            long j = jd;
            for( int m = 1; m <= 13; m++)
               {
               vh_at( name, y, m);
               vh.states++;
               const int dim = days_in_month( m, y, cal);
               if( dim != r.len[m])
                  vh_fail( "month-length", "%s %ld month %d: %d days, the rule says %d", name, y, m, dim, r.len[m]);
               if( r.len[m])
                  {
                  int d; int mm; long yy;
                  if( dmy_to_day( 1, m, y, cal) != j)
                     vh_fail( "month-start", "%s %ld month %d begins on day %ld, the rule says %ld", name, y, m, dmy_to_day( 1, m, y, cal), j);
                  for( int k = 0; k < 3; k++)
                     {
                     const int want = k == 0 ? 1 : k == 1 ? r.len[m] : 1 + (int)(fmod_( y + m, r.len[m]));
                     day_to_dmy( j + want - 1, &d, &mm, &yy, cal);
                     vh.transitions++;
                     if( d != want || mm != m || yy != y)
                        vh_fail( "date", "%s: day %ld converts to %ld/%d/%d, the rule says %ld/%d/%d", name, j + want - 1, yy, mm, d, y, m, want);
                     }
                  vh.validated++;
                  char b[24]; snprintf( b, sizeof( b), "%d.%d.%d", cal, m, dim); vh_outcome( b);
                  }
               j += r.len[m];
               }
            }
         if( y == anchor_year + 1000 && !dir) vh_sample( "%s year %ld: rule and library both begin it on JD %ld", name, y, jd);
         if( dir) { y--; if( y >= y0) { const Year p = f( y); for( int i = 1; i <= 13; i++) jd -= p.len[i]; } }
         else { jd += len; y++; }
         }
      }
}

/* true new moon (JDE), Meeus ch. 47 with the main periodic terms: good to minutes for modern eras */
static double new_moon( double k)
{
   const double T = k / 1236.85, rad = 3.14159265358979323846 / 180;
   const double E = 1 - 0.002516 * T - 0.0000074 * T * T;
   const double M = (2.5534 + 29.10535669 * k - 0.0000218 * T * T) * rad;
   const double Mp = (201.5643 + 385.81693528 * k + 0.0107438 * T * T) * rad;
   const double F = (160.7108 + 390.67050274 * k - 0.0016341 * T * T) * rad;
   double jde = 2451550.09765 + 29.530588853 * k + 0.0001337 * T * T;
   jde += -0.40720 * sin( Mp) + 0.17241 * E * sin( M) + 0.01608 * sin( 2 * Mp) + 0.01039 * sin( 2 * F)
        + 0.00739 * E * sin( Mp - M) - 0.00514 * E * sin( Mp + M) + 0.00208 * E * E * sin( 2 * M) - 0.00111 * sin( Mp - 2 * F)
        - 0.00057 * sin( Mp + 2 * F) + 0.00056 * E * sin( 2 * Mp + M) - 0.00042 * sin( 3 * Mp);
   return jde;
}
static double delta_t_days( double y)
{
   double u = (y - 1820) / 100;                       /* crude long-term parabola */
   double dt = (y > 1700 && y < 2050) ? 30. : -20 + 32 * u * u;
   return dt / 86400.;
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   const long wide = vh.thorough ? 1000000 : 120000;
   ruled( "Gregorian", CALENDAR_GREGORIAN, gregorian, 2000, 2451545, -wide, wide);
   ruled( "Julian", CALENDAR_JULIAN, julian, 1999, 2451545 - 18 - 334, -wide, wide);
   ruled( "Islamic", CALENDAR_ISLAMIC, islamic, 1, 1948440, -wide, wide);
   ruled( "Hebrew", CALENDAR_HEBREW, hebrew, 1, 347998, 1, wide);
   ruled( "Modern Persian", CALENDAR_MODERN_PERSIAN, modern_persian, 1, 1948321, -wide, wide);
   uint64_t block = 0;
   /* Julian/Gregorian: Julian through JD 2299160, Gregorian after */
   for( long jd = 2299160 - 700000; jd < 2299160 + 700000; jd++)
      if( vh_mine( block++ / 1000))
         {
         int d, m, d2, m2; long y, y2;
         vh_at( "Julian-Gregorian", jd);
         day_to_dmy( jd, &d, &m, &y, CALENDAR_JULIAN_GREGORIAN);
         day_to_dmy( jd, &d2, &m2, &y2, jd > 2299160 ? CALENDAR_GREGORIAN : CALENDAR_JULIAN);
         vh.states++; vh.validated++;
         if( d != d2 || m != m2 || y != y2)
            vh_fail( "jg", "Julian-Gregorian day %ld gives %ld/%d/%d", jd, y, m, d);
         if( dmy_to_day( d2, m2, y2, CALENDAR_JULIAN_GREGORIAN) != jd)
            vh_fail( "jg", "Julian-Gregorian %ld/%d/%d gives day %ld, not %ld", y2, m2, d2, dmy_to_day( d2, m2, y2, CALENDAR_JULIAN_GREGORIAN), jd);
         }
   /* French Revolutionary: equinox calendar, leap years 3, 7, 11, (15) as historically observed */
   for( long y = -1007; y <= 611; y++)
      if( vh_mine( block++))
         {
         vh_at( "Revolutionary", y);
         const long a = dmy_to_day( 1, 1, y, CALENDAR_REVOLUTIONARY);
         const double diff = (double)a - equinox( false, (double)y + 1791);
         vh.states++; vh.validated++;
         if( diff < -0.75 || diff > 0.75)
            vh_fail( "rev-equinox", "1 Vendemiaire %ld falls on day %ld, %.2f days from the mean equinox", y, a, diff);
         for( int m = 1; m <= 13; m++)
            {
            const int n = days_in_month( m, y, CALENDAR_REVOLUTIONARY);
            if( m < 13 ? n != 30 : (n != 5 && n != 6))
               vh_fail( "rev-month", "Revolutionary %ld month %d has %d days", y, m, n);
            }
         if( y >= 1 && y <= 15 && days_in_month( 13, y, CALENDAR_REVOLUTIONARY) != (y % 4 == 3 ? 6 : 5))
            vh_fail( "rev-leap", "Revolutionary year %ld has %d complementary days", y, days_in_month( 13, y, CALENDAR_REVOLUTIONARY));
         }
   if( dmy_to_day( 1, 1, 1, CALENDAR_REVOLUTIONARY) != 2375840)
      vh_fail( "rev-epoch", "1 Vendemiaire I is day %ld, should be 22 Sep 1792 = 2375840", dmy_to_day( 1, 1, 1, CALENDAR_REVOLUTIONARY));
   /* Persian (Jalaali) */
   for( long y = -1096; y <= 2327; y++)
      if( vh_mine( block++))
         {
         vh_at( "Persian", y);
         const long a = dmy_to_day( 1, 1, y, CALENDAR_PERSIAN);
         const double diff = (double)a - equinox( true, (double)y + 621) - 3.42 / 24.;
         vh.states++; vh.validated++;
         if( y >= -60 && y <= 1700 && a != borkowski( (int)y))
            vh_fail( "persian-borkowski", "1 Farvardin %ld is day %ld, Borkowski's rule gives %ld", y, a, borkowski( (int)y));
         if( diff < -0.3 || diff > 1.3)
            vh_fail( "persian-equinox", "1 Farvardin %ld falls on day %ld, %.3f days after the mean equinox", y, a, diff);
         for( int m = 1; m <= 13; m++)
            {
            const int n = days_in_month( m, y, CALENDAR_PERSIAN);
            const bool ok = m <= 6 ? n == 31 : m <= 11 ? n == 30 : m == 12 ? (n == 29 || n == 30) : n == 0;
            if( !ok)
               vh_fail( m == 12 && y == 2327 ? "persian-2327" : "persian-month", "Persian %ld month %d has %d days", y, m, n);
            }
         }
   /* Chinese: months begin on the day of new moon at Beijing, 12 or 13 months */
   static long prev_start = 0;
   double worst_lo = 9, worst_hi = -9;
   for( long y = -362; y <= 9635; y++)
      if( vh_mine( block++ / 100))
         {
         int nm = 0;
         for( int m = 1; m <= 13; m++)
            {
            vh_at( "Chinese", y, m);
            const int n = days_in_month( m, y, CALENDAR_CHINESE);
            if( n != 29 && n != 30 && !(m == 13 && n == 0))
               vh_fail( "chinese-month", "Chinese %ld month %d has %d days", y, m, n);
            if( !n) continue;
            nm++;
            const long j = dmy_to_day( 1, m, y, CALENDAR_CHINESE);
            const int icm = get_chinese_intercalary_month( );
            if( icm < 0 || icm > 13 || ((icm == 0) != (days_in_month( 13, y, CALENDAR_CHINESE) == 0)))
               vh_fail( "chinese-leap", "Chinese %ld: intercalary month %d inconsistent with month 13 of %d days", y, icm, days_in_month( 13, y, CALENDAR_CHINESE));
            vh.states++; vh.validated++;
            const double gy = 2000. + ((double)j - 2451545.) / 365.2425;
            if( gy > -3000 && gy < 4000)
               {
               const double k = floor( ((double)j - 2451550.09765) / 29.530588853 + .5);
               const double nmoon = new_moon( k) - delta_t_days( gy) + 8. / 24.;   /* Beijing */
               const double diff = (double)j - nmoon;     /* noon of the day minus the moment: [-.5,.5] */
               if( diff < worst_lo) worst_lo = diff;
               if( diff > worst_hi) worst_hi = diff;
               const double tol = (gy > 1000 && gy < 2500) ? .56 : .75;
               if( diff < -tol || diff > tol)
                  vh_fail( "chinese-newmoon", "Chinese %ld month %d begins on day %ld, %.3f d from the new moon", y, m, j, diff);
               }
            }
         const long ny = dmy_to_day( 1, 1, y, CALENDAR_CHINESE);
         /* New Year lies between about 1 and 2 synodic months after the winter solstice */
         const double gy = 2000. + ((double)ny - 2451545.) / 365.2425;
         const double solst = 2451900.05952 - 365.24219 + 365.242190 * floor( gy - 2000. + .06);   /* near */
         (void)solst;
         char b[24]; snprintf( b, sizeof( b), "c%d", nm); vh_outcome( b);
         }
   /* ... numbered by the Sun: the eleventh holds the winter solstice, and, if thirteen months begin from one eleventh
      month to the next, the first of them without a principal term (a multiple of 30 degrees) is intercalary */
   for( long y = -361; y <= 9634; y++)
      if( vh_mine( block++ / 100))
         {
         struct Mo { int num; bool leap; long start; }; std::vector<Mo> mo; const double gy = y - 2637.; if( gy < -3000 || gy > 4000) continue;
         vh_at( "Chinese numbering", y);
         for( long yy = y - 1; yy <= y; yy++)
            {
            const int icm = (dmy_to_day( 1, 1, yy, CALENDAR_CHINESE), get_chinese_intercalary_month( ));
            for( int m = 1; m <= (icm ? 13 : 12); m++) { const bool leap = icm && m == icm; mo.push_back( { icm && m >= icm ? m - 1 : m, leap, dmy_to_day( 1, m, yy, CALENDAR_CHINESE) }); }
            }
         size_t i0 = 99, i1 = 99; for( size_t i = 0; i < mo.size( ); i++) if( mo[i].num == 11 && !mo[i].leap) { if( i0 == 99) i0 = i; else i1 = i; }
         vh.states++; if( i1 == 99) { vh_fail( "chinese-numbering", "Chinese %ld: no two eleventh months", y); continue; }
         const double tol = gy > 1600 && gy < 2150 ? .03 : gy > 0 && gy < 3000 ? .1 : .25; bool vague = false; std::vector<int> terms;
         for( size_t i = i0; i <= i1 && i + 1 < mo.size( ); i++)
            {
            double s[2]; for( int k = 0; k < 2; k++) { const double jd = mo[i + k].start - .5 - 8. / 24. + delta_t_days( gy), T = (jd - 2451545.) / 36525., M = (357.52911 + 35999.05029 * T - .0001537 * T * T) * M_PI / 180.; s[k] = 280.46646 + 36000.76983 * T + .0003032 * T * T + (1.914602 - .004817 * T - .000014 * T * T) * sin( M) + (.019993 - .000101 * T) * sin( 2. * M) + .000289 * sin( 3. * M) - .00569; if( fabs( remainder( s[k], 30.)) < tol) vague = true; }
            const int n = (int)( floor( s[1] / 30.) - floor( s[0] / 30.)); terms.push_back( n);
            if( mo[i].num == 11 && !mo[i].leap) { const double a = fmod( fmod( s[0], 360.) + 360., 360.), c = a + (s[1] - s[0]); if( !vague && !(a <= 270. && c > 270.)) { vh_fail( "chinese-solstice", "Chinese %ld: the eleventh month from day %ld on: the Sun goes from %.3f to %.3f degrees, so the winter solstice isn't in it", y, mo[i].start, a, c); vague = true; } }
            }
         if( vague) { vh.counters["Chinese years with a term near midnight"]++; continue; }
         const size_t n = i1 - i0; size_t want = 99; if( n == 13) for( size_t k = 1; k < n && want == 99; k++) if( !terms[k]) want = k;
         bool ok = n == 12 || n == 13; for( size_t k = 1; ok && k < n; k++) ok = mo[i0 + k].leap == (k == want); if( n == 12 && i0 < 99) for( size_t k = 0; k < n; k++) if( mo[i0 + k].leap) ok = false;
         for( size_t k = 1; ok && k <= n; k++) ok = mo[i0 + k].num == (mo[i0 + k].leap ? mo[i0 + k - 1].num : mo[i0 + k - 1].num % 12 + 1);
         if( !ok) vh_fail( "chinese-numbering", "Chinese %ld: %zu months from one solstice month to the next; the intercalary one should be %d after the first", y, n, want == 99 ? -1 : (int)want); else vh.validated++;
         }
   fprintf( stderr, "chinese new moon diff %f..%f\n", worst_lo, worst_hi);
   /* historical anchors, all calendars */
   if( vh.shard == 0)
      {
      static const struct { int cal, d, m; long y, jd; const char *what; } a[] = {
         { CALENDAR_GREGORIAN, 15, 10, 1582, 2299161, "first Gregorian day" },
         { CALENDAR_JULIAN, 4, 10, 1582, 2299160, "last Julian day" },
         { CALENDAR_JULIAN, 1, 1, -4712, 0, "JD zero" },
         { CALENDAR_JULIAN_GREGORIAN, 4, 10, 1582, 2299160, "switch" },
         { CALENDAR_JULIAN_GREGORIAN, 15, 10, 1582, 2299161, "switch" },
         { CALENDAR_HEBREW, 16, 12, 5748, 2447373, "16 Av 5748 = 30 Jul 1988" },
         { CALENDAR_HEBREW, 14, 8, 5730, 2440697, "14 Nisan 5730 = 20 Apr 1970" },
         { CALENDAR_HEBREW, 1, 1, 5750, 2447800, "1 Tishri 5750 = 30 Sep 1989" },
         { CALENDAR_ISLAMIC, 1, 1, 1421, 2451641, "1 Muharram 1421 = 6 Apr 2000" },
         { CALENDAR_REVOLUTIONARY, 18, 2, 8, 2378444, "18 Brumaire VIII = 9 Nov 1799" },
         { CALENDAR_REVOLUTIONARY, 9, 11, 2, 2376513, "9 Thermidor II = 27 Jul 1794" },
         { CALENDAR_PERSIAN, 1, 1, 1379, 2451624, "1 Farvardin 1379 = 20 Mar 2000" },
         { CALENDAR_MODERN_PERSIAN, 1, 1, 1379, 2451624, "1 Farvardin 1379 = 20 Mar 2000" },
         { CALENDAR_CHINESE, 1, 1, 4637, 2451580, "Chinese New Year 5 Feb 2000" },
         { CALENDAR_CHINESE, 1, 1, 4661, 2460351, "Chinese New Year 10 Feb 2024" },
         { CALENDAR_CHINESE, 1, 1, 4622, 2446117, "Chinese New Year 20 Feb 1985" } };
      for( auto &x : a)
         {
         vh_at( x.what);
         vh.states++;
         const long j = dmy_to_day( x.d, x.m, x.y, x.cal);
         if( j != x.jd) vh_fail( "anchor", "%s: day %ld, should be %ld", x.what, j, x.jd);
         }
      }
   return vh_done( );
}
