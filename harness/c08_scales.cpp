/* C08: time scales.  Reference: IERS/USNO published TAI-UTC history, Espenak & Meeus polynomials,
   the biennial Delta-T table, Fairhead's leading TDB-TT terms.                                   */
#include "vh.h"
#include <limits.h>
#include "watdefs.h"
#include "afuncs.h"
#include "date.h"
extern int mjd_end_of_predictive_leap_seconds;

static long greg( long y, int m, int d)       /* MJD of a Gregorian date, Fliegel-style */
{
   const long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045 - 2400001;
}
struct Early { int y, m; double a; int mjd0; double rate; };
static const Early early[] = {          /* TAI - UTC = a + (mjd - mjd0) * rate */
   { 1961, 1, 1.4228180, 37300, .001296 }, { 1961, 8, 1.3728180, 37300, .001296 }, { 1962, 1, 1.8458580, 37665, .0011232 },
   { 1963, 11, 1.9458580, 37665, .0011232 }, { 1964, 1, 3.2401300, 38761, .001296 }, { 1964, 4, 3.3401300, 38761, .001296 },
   { 1964, 9, 3.4401300, 38761, .001296 }, { 1965, 1, 3.5401300, 38761, .001296 }, { 1965, 3, 3.6401300, 38761, .001296 },
   { 1965, 7, 3.7401300, 38761, .001296 }, { 1965, 9, 3.8401300, 38761, .001296 }, { 1966, 1, 4.3131700, 39126, .002592 },
   { 1968, 2, 4.2131700, 39126, .002592 } };
static const int leaps[][2] = { { 1972, 1 }, { 1972, 7 }, { 1973, 1 }, { 1974, 1 }, { 1975, 1 }, { 1976, 1 }, { 1977, 1 }, { 1978, 1 }, { 1979, 1 },
   { 1980, 1 }, { 1981, 7 }, { 1982, 7 }, { 1983, 7 }, { 1985, 7 }, { 1988, 1 }, { 1990, 1 }, { 1991, 1 }, { 1992, 7 }, { 1993, 7 }, { 1994, 7 },
   { 1996, 1 }, { 1997, 7 }, { 1999, 1 }, { 2006, 1 }, { 2009, 1 }, { 2012, 7 }, { 2015, 7 }, { 2017, 1 } };
static const double table[] = { 124, 115, 106, 98, 91, 85, 79, 74, 70, 65, 62, 58, 55, 53, 50, 48, 46, 44, 42, 40, 37, 35, 33, 31, 28, 26, 24, 22,
   20, 18, 16, 14, 13, 12, 11, 10, 9, 9, 9, 9, 9, 9, 9, 9, 10, 10, 10, 10, 10, 11, 11, 11, 11, 11, 11, 11, 11, 12, 12, 12, 12, 12, 13,
   13, 13, 13, 14, 14, 14, 15, 15, 15, 15, 16, 16, 16, 16, 16, 17, 17, 17, 17, 17, 17, 17, 17, 16, 16, 15, 14, 13.7,
   13.1, 12.7, 12.5, 12.5, 12.5, 12.5, 12.5, 12.5, 12.3, 12, 11.4, 10.6, 9.6, 8.6, 7.5, 6.6, 6, 5.7, 5.6, 5.7, 5.9,
   6.2, 6.5, 6.8, 7.1, 7.3, 7.5, 7.7, 7.8, 7.9, 7.5, 6.4, 5.4, 2.9, 1.6, -1, -2.7, -3.6, -4.7, -5.4, -5.2, -5.5,
   -5.6, -5.8, -5.9, -6.2, -6.4, -6.1, -4.7, -2.7, 0, 2.6, 5.4, 7.7, 10.5, 13.4, 16, 18.2, 20.2, 21.2, 22.4, 23.5, 23.9,
   24.3, 24, 23.9, 23.9, 23.7, 24, 24.3, 25.3, 26.2, 27.3, 28.2, 29.1, 30, 30.7, 31.4, 32.2, 33.1, 34, 35, 36.5, 38.3,
   40.2, 42.2, 44.5, 46.5, 48.5, 50.5, 52.2, 53.8, 54.9, 55.8, 56.86, 58.31, 59.98, 61.63, 62.97, 63.83, 64.30, 64.57, 64.85, 65.46, 66.07,
   66.60, 67.28, 68.10, 68.97, 69.36, 69.29, 69.18 };
static const int NTAB = sizeof( table) / sizeof( table[0]);

struct Poly { double y1, y2, off; int n; double c[8]; };
static const Poly em[] = {
   { -1e+308, -500, 1820, 3, { -20, 0, 32 } },
   { -500, 500, 0, 7, { 10583.6, -1014.41, 33.78311, -5.952053, -.1798452, .022174192, .0090316521 } },
   { 500, 1600, 1000, 7, { 1574.2, -556.01, 71.23472, .319781, -.8503463, -.005050998, .0083572073 } },
   { 1600, 1620, 1600, 4, { 120, -98.08, -153.2, 140.272 } } };
static bool poly( const Poly *p, int n, double year, double &out)
{
   for( int i = 0; i < n; i++)
      if( year >= p[i].y1 && year < p[i].y2)
         {
         const double x = (year - p[i].off) / 100.;
         out = 0.;
         for( int k = p[i].n - 1; k >= 0; k--) out = out * x + p[i].c[k];
         return true;
         }
   return false;
}
static std::vector<Poly> user;         /* the polynomials now in force */
static double model_dt( double jd)
{
   const double year = 2000. + (jd - 2451545.) / 365.25;
   double r;
   if( user.size( ) && poly( user.data( ), (int)user.size( ), year, r)) return r;
   if( poly( em, 4, year, r)) return r;
   double x = (year - 1620.) / 2.;
   int i = x >= NTAB - 1 ? NTAB - 2 : (int)x;
   r = table[i] + (table[i + 1] - table[i]) * (x - i);
   if( x - i > 1.) r += 32.5 * ((x - i - 1.) / 50.) * ((x - i - 1.) / 50.);
   return r;
}
/* TD - UTC for a day (an integer MJD) and a fraction of it */
static double model_utc( long mjd, double frac, long limit)
{
   const double t = (double)mjd + frac;
   if( mjd < 41317)
      {
      for( int i = 12; i >= 0; i--)
         if( mjd >= greg( early[i].y, early[i].m, 1))
            return 32.184 + early[i].a + (t - early[i].mjd0) * early[i].rate;
      return model_dt( 2400000.5 + t);
      }
   if( mjd > limit) mjd = limit;
   if( mjd < greg( 2021, 12, 1))
      {
      int n = 9;
      for( auto &l : leaps) if( mjd >= greg( l[0], l[1], 1)) n++;
      return 32.184 + n;
      }
   long y = 2021;
   while( mjd >= greg( y + 1, 1, 1)) y++;
   const bool second = mjd >= greg( y, 7, 1);
   const double mid = second ? (greg( y, 7, 1) + greg( y + 1, 1, 1)) * .5 : (greg( y, 1, 1) + greg( y, 7, 1)) * .5;
   return 32.184 + floor( model_dt( 2400000.5 + mid) + .5 - 32.184);
}
static long year_hint;
static void chk_utc( long mjd, double frac, long limit)
{
   const double jd = 2400000.5 + (double)mjd + frac;
   vh_at( "td-utc", mjd, limit == INT_MAX ? -1 : limit); vh_d( frac);
   const double got = td_minus_utc( jd), want = model_utc( mjd, frac, limit);
   vh.states++; vh.transitions++;
   if( fabs( got - want) > 2e-6) vh_fail( "td-utc", "MJD %ld + %.9f (limit %ld): TD-UTC %.7f, should be %.7f", mjd, frac, limit, got, want);
   else vh.validated++;
   const double g2 = tdb_minus_utc( jd) - got;
   const double tdb = (double)tdb_minus_tdt( (long double)( jd - 2451545.) / 36525.L);
   if( fabs( g2 - tdb) > 1e-8) vh_fail( "tdb-utc", "MJD %.6f: TDB-UTC exceeds TD-UTC by %.9f s, TDB-TD is %.9f s", mjd + frac, g2, tdb);
}
static void chk_dt( double jd, const char *what)
{
   vh_at( what); vh_d( jd);
   const double got = td_minus_ut( jd), want = model_dt( jd);
   vh.states++; vh.transitions++;
   if( !(fabs( got - want) <= 1e-6 + fabs( want) * 1e-11)) vh_fail( what, "JD %.4f: Delta-T %.6f, should be %.6f", jd, got, want);
   else vh.validated++;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   static const double fr[] = { 0., 1e-9, .25, .5, .75, 1. - 1e-9 };
   uint64_t idx = 0;
   /* (1) UTC day by day */
   for( long mjd = greg( 1955, 1, 1); mjd < greg( vh.thorough ? 9999 : 2700, 1, 1); mjd++)
      if( vh_mine( idx++ / 512)) for( double f : fr) chk_utc( mjd, f, INT_MAX);
   /* second by second around every leap second and half-year start */
   if( vh.shard == 0) for( long y = 1961; y < 2200; y++) for( int m = 1; m <= 12; m++)
      for( int s = -3; s <= 3; s++)
         { const long j = greg( y, m, 1); chk_utc( s < 0 ? j - 1 : j, s < 0 ? 1. + s / 86400. : s / 86400., INT_MAX); }
   /* (2) the end of predictive leap seconds, any setting in any order */
   static const long lims[] = { INT_MAX, 59215, 59580, 60000, 57753, 57754, 50000, 41317, 69000 };
   for( long l1 : lims) for( long l2 : lims)
      {
      if( !vh_mine( idx++)) continue;
      for( int k = 0; k < 2; k++)
         {
         const long l = k ? l2 : l1;
         mjd_end_of_predictive_leap_seconds = (int)l;
         for( long mjd = 37000; mjd < 90000; mjd += k ? 17 : 701) chk_utc( mjd, .3, l);
         for( long b : lims) if( b != INT_MAX) for( long mjd = b - 2; mjd <= b + 2; mjd++) chk_utc( mjd, .999999, l);
         vh.transitions++;
         }
      mjd_end_of_predictive_leap_seconds = INT_MAX;
      }
   /* (3) Delta-T over history, every few days and at every joint */
   for( double jd = 2451545. - 6000. * 365.25; jd < 2451545. + 6000. * 365.25; jd += vh.thorough ? .73 : 7.3)
      if( vh_mine( idx++ / 4096)) chk_dt( jd, "delta-t");
   for( int y = 1600; y < 2040; y++)
      for( int k = -3; k <= 3; k++) if( vh_mine( idx++)) chk_dt( 2451545. + (y - 2000.) * 365.25 + k * .01, "delta-t");
   for( double y : { -500., 500., 1600., 1620. })
      for( int k = -50; k <= 50; k++) if( vh_mine( idx++)) chk_dt( 2451545. + (y - 2000.) * 365.25 + k * .01 + .003, "delta-t");
   for( double jd : { -1e9, -1e8, -1e7, 1e7, 2.9e7, 3.1e7, 1e8, 1e9 }) if( vh_mine( idx++)) chk_dt( jd, "delta-t");
   /* (4) user-supplied definitions, replaced in every order */
   struct Def { const char *s; std::vector<Poly> p; };
   const Poly e0 = em[0], e1 = em[1], e2 = em[2], e3 = em[3];
   static const std::vector<Def> defs = {
      { NULL, { e0, e1, e2, e3 } }, { "", { e0, e1, e2, e3 } },
      { "-10000,948:2715.6,573.36,46.5;948,1620:50.6,67.5,22.5", { { -10000, 948, 2000, 3, { 2715.6, 573.36, 46.5 } }, { 948, 1620, 2000, 3, { 50.6, 67.5, 22.5 } } } },
      { "1900,2100:42", { { 1900, 2100, 2000, 1, { 42. } } } },
      { "1900,1950:o1900,1,2,3,4;1950,2000:o1950,-5,.25;2000,2050:-7e1", { { 1900, 1950, 1900, 4, { 1, 2, 3, 4 } }, { 1950, 2000, 1950, 2, { -5, .25 } }, { 2000, 2050, 2000, 1, { -70 } } } },
      { "-1e+308,1e+308:o1820,-20,0,32", { { -1e308, 1e308, 1820, 3, { -20, 0, 32 } } } },
      { "1620,1630:1,1,1,1,1,1,1;1600,1625:o1600,9", { { 1620, 1630, 2000, 7, { 1, 1, 1, 1, 1, 1, 1 } }, { 1600, 1625, 1600, 1, { 9 } } } },
      { "2050,3000:o2000,64,50,30", { { 2050, 3000, 2000, 3, { 64, 50, 30 } } } } };
   std::vector<double> jds;
   for( double y : { -6000., -500.25, -499.75, 0., 499.9, 500.1, 947.9, 948.1, 1599.9, 1600.1, 1619.9, 1620.1, 1624.9, 1625.1, 1629.9, 1630.1, 1899.9, 1900.1,
                     1949.9, 1950.1, 1999.9, 2000.1, 2049.9, 2050.1, 2099.9, 2100.1, 2999.9, 3000.1, 9000. }) jds.push_back( 2451545. + (y - 2000.) * 365.25);
   for( size_t a = 0; a < defs.size( ); a++) for( size_t b = 0; b < defs.size( ); b++) for( size_t c = 0; c < defs.size( ); c++)
      {
      if( !vh_mine( idx++)) continue;
      const size_t seq[3] = { a, b, c };
      for( size_t k : seq)
         {
         vh.transitions++;
         reset_td_minus_dt_string( defs[k].s);
         user = defs[k].p;
         for( double jd : jds) chk_dt( jd, "user-delta-t");
         chk_utc( 36000, .5, INT_MAX); chk_utc( 60500, .5, INT_MAX); chk_utc( 80000, .5, INT_MAX);
         }
      }
   reset_td_minus_dt_string( NULL); user.clear( );
   /* (5) TDB - TT against the leading terms of Fairhead, Bretagnon & Lestrade, and its size */
   static const double amp[6] = { 1656.6894, 22.4175, 13.8399, 4.7701, 4.6767, 2.2566 };
   static const double frq[6] = { 628.30758494, 575.33848843, 1256.61516988, 52.96909651, 606.97767539, 21.32990954 };
   static const double pha[6] = { 6.2400497, 4.2969771, 6.1968995, .4444038, 4.0211937, 5.5431320 };
   for( long d = -1000000; d < 1000000; d += vh.thorough ? 1 : 5) if( vh_mine( idx++ / 1024))
      {
      const long double t = (long double)d / 36525.L;
      double want = 0.; for( int i = 0; i < 6; i++) want += amp[i] * 1e-6 * sin( (double)fmodl( (long double)frq[i] * t + pha[i], 6.283185307179586476925286766559L));
      vh_at( "tdb-tdt", d); vh.states++; vh.transitions++;
      const double got = (double)tdb_minus_tdt( t);
      if( fabs( got - want) > 2e-9 || fabs( got) > .00175) vh_fail( "tdb-tdt", "J2000 %+ld d: TDB-TT %.10f s, should be %.10f", d, got, want); else vh.validated++;
      if( !(d % 1000)) { char b[20]; snprintf( b, 20, "%.4f", got * 1e3); vh_outcome( b); }
      }
   vh_sample( "TD-UTC on 2017 Jan 1 = %.3f", td_minus_utc( 2457754.5)); vh_sample( "Delta-T in 1000 AD = %.1f s", td_minus_ut( 2086302.5));
   return vh_done( );
}
