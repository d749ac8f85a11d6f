/* C06: every documented notation for a date and/or time evaluates to the
   instant it denotes.  Texts are generated from their parts, so the expected
   instant is computed from the parts and never parsed.                    */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"

#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
typedef long double ld;
/* the clock the library sees: ours, when set */
static long long fake_ns = -1;
static long long real_ns( void) { struct timespec t; syscall( SYS_clock_gettime, CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static long long clock_ns( void) { return fake_ns < 0 ? real_ns( ) : fake_ns; }
extern "C" time_t time( time_t *p) noexcept { const time_t t = (time_t)(clock_ns( ) / 1000000000LL); if( p) *p = t; return t; }
extern "C" int gettimeofday( struct timeval *tv, void *) noexcept { const long long n = clock_ns( ); tv->tv_sec = n / 1000000000LL; tv->tv_usec = n % 1000000000LL / 1000; return 0; }
extern "C" int clock_gettime( clockid_t id, struct timespec *t) noexcept { if( id != CLOCK_REALTIME || fake_ns < 0) return (int)syscall( SYS_clock_gettime, id, t); t->tv_sec = fake_ns / 1000000000LL; t->tv_nsec = fake_ns % 1000000000LL; return 0; }
extern "C" int timespec_get( struct timespec *t, int base) noexcept { t->tv_sec = clock_ns( ) / 1000000000LL; t->tv_nsec = clock_ns( ) % 1000000000LL; return base; }
static const char *FULL[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
static const char *SHORTEST[12] = { "Ja", "F", "Mar", "Ap", "May", "Jun", "Jul", "Au", "Se", "O", "N", "D" };
static const char *DOW[7] = { "Sun", "Monday", "tue", "Wednesday", "thu", "FRI", "Sat" };
static uint64_t idx = 0;

struct Init { ld t2k; long y; int m, d, h, mi; ld sec; long jd; };
static Init inits[8]; static int n_inits;
static void add_init( long y, int m, int d, int h, int mi, double s, int cal)
{
   Init &i = inits[n_inits++];
   i.y = y; i.m = m; i.d = d; i.h = h; i.mi = mi; i.sec = s;
   i.jd = dmy_to_day( d, m, y, cal);
   i.t2k = (ld)( i.jd - 2451545) - .5L + ((ld)h * 3600.L + mi * 60.L + (ld)s) / 86400.L;
}

struct Tod { const char *txt; int kind; ld sec; };      /* kind 0 absolute, 1 keep hour, 2 keep everything, 3 FITS-only */
static const Tod tods[] = { { "", 0, 0. }, { " 0:00", 0, 0. }, { " 3:14", 0, 11640.L }, { " 12:00", 0, 43200.L }, { " 23:59:59.75", 0, 86399.75L },
   { " 14:15:16", 0, 51316.L }, { " 07:08.5", 0, 25710.L }, { " :", 2, 0. }, { " :17", 1, 1020.L }, { " :17:12.25", 1, 1032.25L },
   { " 12:30 am", 0, 1800.L }, { " 12:30 PM", 0, 45000.L }, { " 3:14:15 p.m.", 0, 54855.L }, { " 11:59 A.M.", 0, 43140.L }, { " 3:00 pm", 0, 54000.L }, { " 4:", 0, 14400.L } };
static const int NT = sizeof( tods) / sizeof( tods[0]);
struct Off { const char *txt; ld days; };
static const Off offs[] = { { "", 0. }, { " -3h", -.125L }, { " +2d", 2.L }, { " -10m", -10.L / 1440.L }, { " +15.5s", 15.5L / 86400.L },
   { " +1w", 7.L }, { " -2.5 d", -2.5L }, { " +1y", 365.25L }, { " -1c", -36525.L }, { " +2l", 59.061177706L }, { " +0d", 0.L } };
static const int NO = sizeof( offs) / sizeof( offs[0]);

static void expect( const char *txt, int fmt, const Init &in, ld want, int ut, const char *key, ld tol = 3e-10L)
{
   int is_ut = 99;
   vh_ats( "notation", txt); vh_i( fmt); vh_i( in.y);
   vh.states++; vh.transitions++;
   const ld got = get_time_from_stringl( in.t2k, txt, fmt, &is_ut);
   if( !(fabsl( got - want) <= tol + fabsl( want) * 1e-18L))
      vh_fail( key, "'%s' (format %x, starting from J2000 + %.6Lf) gives J2000 + %.9Lf; should be %.9Lf (%.9Lg days off)", txt, fmt, in.t2k, got, want, got - want);
   else if( is_ut != ut)
      vh_fail( "status", "'%s': status %d, should be %d", txt, is_ut, ut);
   else vh.validated++;
   if( !(vh.states & 1023)) vh_outcome( vh_hash( txt, strlen( txt)));
   /* without a status pointer, and in double precision */
   if( !(vh.states & 15))
      {
      const ld g2 = get_time_from_stringl( in.t2k, txt, fmt, NULL);
      if( g2 != got) vh_fail( "no-status", "'%s': differs when no status is requested", txt);
      const double g3 = get_time_from_string( (double)( in.t2k + 2451545.L), txt, fmt, NULL);
      if( fabs( g3 - (double)( got + 2451545.L)) > 2e-9) vh_fail( "double", "'%s': double precision version gives %.9f", txt, g3);
      }
}

static ld tod_sec( const Tod &t, const Init &in)
{
   if( t.kind == 2) return in.h * 3600.L + in.mi * 60.L + in.sec;
   if( t.kind == 1) return in.h * 3600.L + t.sec;
   return t.sec;
}

/* a date text (already complete) combined with times of day and offsets */
static void with_times( const std::string &date, int fmt, ld jd, int level, const char *key, bool decimal = false)
{
   for( int i = 0; i < n_inits; i++)
      {
      const Init &in = inits[i];
      for( int t = 0; t < NT; t++)
         {
         if( level == 0 && t != 0 && t != 2 && t != 12) continue;
         if( decimal && t) continue;
         for( int o = 0; o < NO; o++)
            for( int o2 = 0; o2 < NO; o2++)
               {
               if( o2 && !o) continue;
               if( level < 2 && (o2 || (o && (o + t) % 4))) continue;
               if( level == 0 && i) continue;
               const std::string txt = date + tods[t].txt + offs[o].txt + offs[o2].txt;
               if( txt.size( ) > 60) continue;
               expect( txt.c_str( ), fmt, in, jd - 2451545.5L + tod_sec( tods[t], in) / 86400.L + offs[o].days + offs[o2].days, 0, key);
               }
         }
      }
}
static std::string casing( const char *s, int k)
{
   std::string r = s;
   if( k == 1) for( char &c : r) c = (char)toupper( c);
   if( k == 2) for( char &c : r) c = (char)tolower( c);
   return r;
}

/* Meeus, Astronomical Algorithms (2nd ed.), chapter 49: TD of a phase of the moon, in days from J2000 */
static ld phase_ref( ld k, int p)
{
   const ld d2r = acosl( -1.L) / 180.L, T = k / 1236.85L, E = 1.L - .002516L * T - .0000074L * T * T;
   const ld M = d2r * (2.5534L + 29.10535670L * k - .0000014L * T * T), m = d2r * (201.5643L + 385.81693528L * k + .0107582L * T * T);
   const ld F = d2r * (160.7108L + 390.67050284L * k - .0016118L * T * T), O = d2r * (124.7746L - 1.56375588L * k + .0020672L * T * T);
   struct Tm { ld a[3]; int e, M, m, F; };
   static const Tm tm[] = {
      { { -.40720L, -.62801L, -.40614L }, 0, 0, 1, 0 }, { { .17241L, .17172L, .17302L }, 1, 1, 0, 0 }, { { .01608L, .00862L, .01614L }, 0, 0, 2, 0 },
      { { .01039L, .00804L, .01043L }, 0, 0, 0, 2 }, { { .00739L, .00454L, .00734L }, 1, -1, 1, 0 }, { { -.00514L, -.01183L, -.00515L }, 1, 1, 1, 0 },
      { { .00208L, .00204L, .00209L }, 2, 2, 0, 0 }, { { -.00111L, -.00180L, -.00111L }, 0, 0, 1, -2 }, { { -.00057L, -.00070L, -.00057L }, 0, 0, 1, 2 },
      { { .00056L, .00027L, .00056L }, 1, 1, 2, 0 }, { { -.00042L, -.00040L, -.00042L }, 0, 0, 3, 0 }, { { .00042L, .00032L, .00042L }, 1, 1, 0, 2 },
      { { .00038L, .00032L, .00038L }, 1, 1, 0, -2 }, { { -.00024L, -.00034L, -.00024L }, 1, -1, 2, 0 } };
   const int t = p == 0 ? 0 : p == 2 ? 2 : 1;
   ld r = 5.09766L + 29.530588861L * k + .00015437L * T * T - .00017L * sinl( O);
   for( const Tm &q : tm) r += q.a[t] * powl( E, q.e) * sinl( q.M * M + q.m * m + q.F * F);
   if( t == 1) r += (p == 1 ? 1.L : -1.L) * (.00306L - .00038L * E * cosl( M) + .00026L * cosl( m) - .00002L * cosl( m - M) + .00002L * cosl( m + M) + .00002L * cosl( 2.L * F));
   return r;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   add_init( 2013, 5, 17, 10, 20, 30.5, 0);
   add_init( 1987, 11, 30, 23, 59, 59., 0);
   add_init( 1600, 2, 29, 0, 0, 0., 0);
   add_init( -300, 8, 1, 12, 0, 0., 0);
   char b[200];
   static const int flags[4] = { FULL_CTIME_DMY, FULL_CTIME_MDY, FULL_CTIME_YMD, FULL_CTIME_YDM };
   static const long years[] = { 33, 99, 325, 999, 1582, 1600, 1776, 1999, 2000, 2004, 2100, 9999, 12345, -1, -584, -4712 };
   /* (1) month spelt: every order, every separator, every case and length of name */
   for( long y : years)
      for( int m = 1; m <= 12; m++)
         for( int d = 1; d <= 31; d++)
            {
            if( d > days_in_month( m, y, 0)) continue;
            if( !vh_mine( idx++)) continue;
            const ld jd = (ld)dmy_to_day( d, m, y, 0);
            for( int order = 0; order < 6; order++)
               for( int sep = 0; sep < 3; sep++)
                  for( int nm = 0; nm < 4; nm++)
                     {
                     if( y < 0 && (sep == 1 || (order != 0 && order != 1))) continue;         /* '-' and a negative year don't mix */
                     const std::string mon = nm == 0 ? std::string( FULL[m - 1]).substr( 0, 3) : nm == 1 ? casing( FULL[m - 1], 1) : nm == 2 ? casing( SHORTEST[m - 1], 2) : FULL[m - 1];
                     char ys[20], ds[20]; snprintf( ys, sizeof( ys), "%ld", y); snprintf( ds, sizeof( ds), (nm & 1) ? "%d" : "%02d", d);
                     const std::string Y = ys, D = ds, s( 1, " -/"[sep]);
                     const std::string f[6][3] = { { D, mon, Y }, { mon, D, Y }, { Y, mon, D }, { Y, D, mon }, { mon, Y, D }, { D, Y, mon } };
                     const std::string txt = f[order][0] + s + f[order][1] + s + f[order][2];
                     const bool all = (d == 1 + m % 28);
                     with_times( txt, flags[(d + order) & 3], jd, (all && sep == 0 && nm == 0 && order < 4) ? (vh.thorough || (y == 2004 && m == 7)) ? 2 : 1 : 0, "month-name");
                     /* run together, as in 11Nov1918 */
                     if( sep == 0 && order < 3 && y > 0 && nm < 2)
                        { const std::string t2 = f[order][0] + f[order][1] + (order == 1 ? " " : "") + f[order][2];
                          if( order != 1) with_times( t2, flags[d & 3], jd, 0, "run-together"); }
                     }
            /* BC and AD */
            if( y > 0)
               {
               static const char *bc[] = { "%d %s %ld BC", "BC %ld %s %d", "%d %s %ldbc", "%d %s %ld B.C.", "%ld %s %d b.c." };
               for( int k = 0; k < 5; k++)
                  {
                  const long yy = y > 9000 ? 4000 : y;
                  if( d > days_in_month( m, 1 - yy, 0)) continue;
                  if( *bc[k] == 'B' || bc[k][1] == 'l') snprintf( b, sizeof( b), bc[k], yy, FULL[m - 1], d); else snprintf( b, sizeof( b), bc[k], d, FULL[m - 1], yy);
                  with_times( b, flags[k & 3], (ld)dmy_to_day( d, m, 1 - yy, 0), 0, "bc");
                  }
               snprintf( b, sizeof( b), "AD %ld %s %d", y, FULL[m - 1], d); with_times( b, flags[d & 3], jd, 0, "ad");
               snprintf( b, sizeof( b), "%d %s %ld A.D.", d, FULL[m - 1], y); with_times( b, flags[d & 3], jd, 0, "ad");
               }
            /* decimal days, with a month name or recognised by the decimal point */
            if( y > 0)
               {
               static const char *df[] = { "%s %02d.25 %ld", "%ld %s %02d.25", "%02d.25 %s %ld" };
               snprintf( b, sizeof( b), "%s %d.25 %ld", FULL[m - 1], d, y); with_times( b, flags[d & 3], jd + .25L, 0, "decimal-day", true);
               snprintf( b, sizeof( b), "%ld %s %d.25", y, FULL[m - 1], d); with_times( b, flags[d & 3], jd + .25L, 0, "decimal-day", true);
               snprintf( b, sizeof( b), "%d.25 %s %ld", d, FULL[m - 1], y); with_times( b, flags[d & 3], jd + .25L, 0, "decimal-day", true);
               snprintf( b, sizeof( b), "%d.25/%d/%ld", d, m, y); with_times( b, FULL_CTIME_MDY, jd + .25L, 0, "decimal-day", true);
               snprintf( b, sizeof( b), "%d/%d.25/%ld", m, d, y); with_times( b, FULL_CTIME_DMY, jd + .25L, 0, "decimal-day", true);
               snprintf( b, sizeof( b), "%ld %d %d.25", y, m, d); with_times( b, FULL_CTIME_YDM, jd + .25L, 0, "decimal-day", true);
               (void)df;
               }
            /* (2) all digits: order from the time format, or from the values where they are telling */
            for( int fl = 0; fl < 4; fl++)
               for( int sep = 0; sep < 4; sep++)
                  {
                  if( y < 0 && sep == 1) continue;
                  const char s = " -/."[sep];
                  char ys[20]; snprintf( ys, sizeof( ys), "%ld", y);
                  char ds[8], ms[8]; snprintf( ds, sizeof( ds), sep & 1 ? "%02d" : "%d", d); snprintf( ms, sizeof( ms), sep & 1 ? "%02d" : "%d", m);
                  const bool md = (flags[fl] & FULL_CTIME_MONTH_DAY) != 0;
                  const std::string f1 = md ? ms : ds, f2 = md ? ds : ms;
                  const std::string t1 = std::string( ys) + s + f1 + s + f2, t2 = f1 + s + f2 + s + ys;
                  with_times( t1, flags[fl], jd, (sep == 2 && d == m) ? 1 : 0, "digits");
                  with_times( t2, flags[fl], jd, (sep == 2 && d == m) ? 1 : 0, "digits");
                  if( d > 12)
                     {
                     const std::string u1 = std::string( ys) + s + f2 + s + f1, u2 = f2 + s + f1 + s + ys;
                     with_times( u1, flags[fl], jd, 0, "telling-digits");
                     with_times( u2, flags[fl], jd, 0, "telling-digits");
                     }
                  }
            /* compact forms and FITS */
            for( int fl = 0; fl < 4; fl++)
               {
               if( y >= 1000 && y <= 9999)
                  {
                  snprintf( b, sizeof( b), "%04ld%02d%02d", y, m, d); with_times( b, flags[fl], jd, fl ? 0 : 1, "yyyymmdd");
                  snprintf( b, sizeof( b), "%04ld%02d%02d.625", y, m, d); with_times( b, flags[fl], jd + .625L, 0, "yyyymmdd", true);
                  for( int k = 0; k < 3; k++)
                     {
                     static const char *ff[] = { "%04ld-%02d-%02dT13:14:15", "%04ld-%02d-%02dT13:14:15.5", "%04ld-%02d-%02dt13:14:15.50" };
                     snprintf( b, sizeof( b), ff[k], y, m, d);
                     for( int i = 0; i < n_inits; i++) expect( b, flags[fl], inits[i], jd - 2451545.5L + (47655.L + (k ? .5L : 0.L)) / 86400.L, 0, "fits");
                     }
                  }
               if( y >= 1940 && y < 2040)
                  { snprintf( b, sizeof( b), "%02ld%02d%02d", y % 100, m, d); with_times( b, flags[fl], jd, 0, "yymmdd");
                    snprintf( b, sizeof( b), "%02ld%02d%02d.125", y % 100, m, d); with_times( b, flags[fl], jd + .125L, 0, "yymmdd", true); }
               }
            /* year and day of year */
            const int doy = (int)( dmy_to_day( d, m, y, 0) - dmy_to_day( 1, 1, y, 0)) + 1;
            if( y > 366 && y < 10000)
               {
               snprintf( b, sizeof( b), "%ld/%d", y, doy); with_times( b, flags[d & 3], jd, 0, "day-of-year");
               snprintf( b, sizeof( b), "%d %ld", doy, y); with_times( b, flags[d & 3], jd, 0, "day-of-year");
               snprintf( b, sizeof( b), "%ld %d.5", y, doy); with_times( b, flags[d & 3], jd + .5L, 0, "day-of-year", true);
               }
            }
   /* (3) partial dates keep what is not given */
   for( int i = 0; i < n_inits; i++)
      for( int fl = 0; fl < 4; fl++)
         {
         const Init &in = inits[i];
         for( int t = 0; t < NT; t++)
            {
            if( !vh_mine( idx++)) continue;
            const ld ts = tod_sec( tods[t], in) / 86400.L - 2451545.5L;
            for( int m = 1; m <= 12; m++)
               {
               const std::string nm[3] = { FULL[m - 1], casing( SHORTEST[m - 1], 1), std::string( FULL[m - 1]).substr( 0, 3) };
               for( int k = 0; k < 3; k++)
                  {
                  expect( (nm[k] + tods[t].txt).c_str( ), flags[fl], in, (ld)dmy_to_day( in.d, m, in.y, 0) + ts, 0, "month-only");
                  for( int d = 1; d <= 31; d++)
                     {
                     snprintf( b, sizeof( b), "%s %d%s", nm[k].c_str( ), d, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + ts, 0, "month-day");
                     snprintf( b, sizeof( b), "%d-%s%s", d, nm[k].c_str( ), tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + ts, 0, "month-day");
                     if( !t) for( double frac : { .0, .125, .5, .875 })
                        {
                        snprintf( b, sizeof( b), "%s %.3f", nm[k].c_str( ), d + frac); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + frac + ts, 0, "month-day");
                        snprintf( b, sizeof( b), "%.3f/%s", d + frac, nm[k].c_str( )); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + frac + ts, 0, "month-day");
                        snprintf( b, sizeof( b), "%s-%.3f -3h", nm[k].c_str( ), d + frac); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + frac - .125L + ts, 0, "month-day");
                        }
                     }
                  for( long y : { 33L, 1912L, 2050L })
                     {
                     snprintf( b, sizeof( b), "%s %ld%s", nm[k].c_str( ), y, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( in.d, m, y, 0) + ts, 0, "month-year");
                     snprintf( b, sizeof( b), "%ld/%s%s", y, nm[k].c_str( ), tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( in.d, m, y, 0) + ts, 0, "month-year");
                     }
                  }
               for( int d = 1; d <= 31; d++)
                  {
                  const bool md = (flags[fl] & FULL_CTIME_MONTH_DAY) != 0;
                  snprintf( b, sizeof( b), "%d/%d%s", md ? m : d, md ? d : m, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + ts, 0, "two-digits");
                  if( d > 12)
                     { snprintf( b, sizeof( b), "%d/%d%s", md ? d : m, md ? m : d, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + ts, 0, "two-digits"); }
                  if( !t)
                     { snprintf( b, sizeof( b), "%d.25-%d", d, m); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + .25L + ts, 0, "two-digits");
                       snprintf( b, sizeof( b), "%d-%d.75", m, d); expect( b, flags[fl], in, (ld)dmy_to_day( d, m, in.y, 0) + .75L + ts, 0, "two-digits"); }
                  }
               }
            for( int d = 1; d <= 31; d++)
               { snprintf( b, sizeof( b), "%d%s", d, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( d, in.m, in.y, 0) + ts, 0, "day-only");
                 if( !t) { snprintf( b, sizeof( b), "%d.5", d); expect( b, flags[fl], in, (ld)dmy_to_day( d, in.m, in.y, 0) + .5L + ts, 0, "day-only"); } }
            for( int d = 100; d <= 366; d++)
               { snprintf( b, sizeof( b), "%d%s", d, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( 1, 1, in.y, 0) + d - 1 + ts, 0, "day-of-year-only"); }
            for( long y = 1000; y < 12000; y += 37)
               { snprintf( b, sizeof( b), "%ld%s", y, tods[t].txt); expect( b, flags[fl], in, (ld)dmy_to_day( 1, 1, y, 0) + ts, 0, "year-only"); }
            if( *tods[t].txt)
               expect( tods[t].txt + 1, flags[fl], in, (ld)in.jd + ts, 0, "time-only");
            for( int w = 0; w < 7; w++)         /* nearest such weekday */
               {
               const int now = (int)( ((in.jd + 1) % 7 + 7) % 7); int df = w - now; if( df > 3) df -= 7; if( df < -3) df += 7;
               snprintf( b, sizeof( b), "%s%s", DOW[w], tods[t].txt); expect( b, flags[fl], in, (ld)( in.jd + df) + ts, 0, "weekday");
               }
            }
         for( int o = 1; o < NO; o++)
            for( int o2 = 0; o2 < NO; o2++) for( int o3 = 0; o3 < NO; o3++)
               if( vh_mine( idx++) && !(o3 && !o2))
                  { snprintf( b, sizeof( b), "%s%s%s", offs[o].txt + 1, offs[o2].txt, offs[o3].txt); expect( b, flags[fl], in, in.t2k + offs[o].days + offs[o2].days + offs[o3].days, 0, "offset-only"); }
         for( int k = -4000; k < 4000; k += 7) if( k && vh_mine( idx++))
            { snprintf( b, sizeof( b), "%+.2f", k / 16. * .16); expect( b, flags[fl], in, in.t2k + (ld)k * .01L, 0, "plain-days"); }
         }
   /* (4) numeric notations */
   for( long k = 1000000; k < 3600000; k += vh.thorough ? 1 : 41) if( vh_mine( idx++))
      {
      const Init &in = inits[k & 3]; const int fl = flags[(k >> 2) & 3];
      static const char *jf[] = { "JD %ld.25", "jd%ld.25", "j%ld.25", "J %ld.25" };
      snprintf( b, sizeof( b), jf[k & 3], k); expect( b, fl, in, (ld)k + .25L - 2451545.L, 1, "jd", 1e-9L);
      snprintf( b, sizeof( b), "%ld", k); expect( b, fl, in, (ld)k - 2451545.L, 1, "jd", 1e-9L);
      snprintf( b, sizeof( b), "%ld.5", k); expect( b, fl, in, (ld)k + .5L - 2451545.L, 1, "jd", 1e-9L);
      snprintf( b, sizeof( b), "JD %ld.5 -3h +2d", k); expect( b, fl, in, (ld)k + .5L - .125L + 2.L - 2451545.L, 1, "jd", 1e-9L);
      snprintf( b, sizeof( b), k & 1 ? "MJD %ld.75" : "mjd%ld.75", k - 2400000); expect( b, fl, in, (ld)( k - 2400000) + (k < 2400000 ? -.75L : .75L) - 51544.5L, 1, "mjd", 1e-9L);
      snprintf( b, sizeof( b), "unix %ld", (k - 2440588) * 86400 + 43200); expect( b, fl, in, (ld)k - 2451545.L, 0, "unix", 1e-8L);
      const long y = k / 1000;
      snprintf( b, sizeof( b), "y%ld.%03ld", y, k % 1000); expect( b, fl, in, ((ld)( k) / 1000.L - 2000.L) * 365.25L - .5L, 0, "decimal-year", 1e-8L);
      snprintf( b, sizeof( b), "%ld.%03ld", y, k % 1000);
      if( k % 1000) expect( b, fl, in, ((ld)( k) / 1000.L - 2000.L) * 365.25L - .5L, 0, "decimal-year", 1e-8L);
      }
   for( int w = 0; w < 10000; w++) if( vh_mine( idx++))
      for( int d = 0; d < 7; d++)
         { snprintf( b, sizeof( b), "GPS %04d%d", w, d); expect( b, 0, inits[w & 3], 2444244.5L + 7.L * w + d - 2451545.L, 0, "gps"); }
   /* (5) lunar phases: the nearest one to the time given before it (or to the current time) */
   {
   static const char *ph[4] = { "nm", "1q", "fm", "3q" };
   static const struct { int ph; double jd; } known[] = {        /* almanac instants (TT) */
      { 0, 2443192.65118 }, { 3, 2467636.49186 },               /* Meeus, examples 49.a and 49.b */
      { 0, 2451550.2599 }, { 1, 2451558.0654 }, { 2, 2451564.6951 }, { 3, 2451571.8319 } };   /* Jan 2000 */
   if( vh.shard == 0)
      for( auto &k : known) for( double off = -13.; off < 13.; off += 1.)
         {
         Init in = inits[0]; in.t2k = (ld)( k.jd + off) - 2451545.L;
         expect( ph[k.ph], 0, in, (ld)( k.jd - 2451545.), 1, "phase", .004L);
         snprintf( b, sizeof( b), "JD %.5f %s", k.jd + off, ph[k.ph]); expect( b, 0, inits[1], (ld)( k.jd - 2451545.), 1, "phase", .004L);
         snprintf( b, sizeof( b), "%s +2d", ph[k.ph]); expect( b, 0, in, (ld)( k.jd - 2451545.) + 2.L, 1, "phase", .004L);
         }
   /* every lunation within 150 years of 2000, against the full series of Meeus chap. 49; and from which times it is found */
   if( vh.shard < 4)
      {
      const int p = vh.shard; ld sum2 = 0.L, prev = 0.L; int n = 0, ut;
      for( int k = -1855; k <= 1855; k++)
         {
         const ld kk = (ld)k + .25L * p, T = kk / 1236.85L, mean = 5.09766L + 29.530588861L * kk + .00015437L * T * T;
         vh_at( "phase-series", k, p); vh.states++; vh.transitions += 3;
         const ld x = get_time_from_stringl( mean, ph[p], 0, &ut), r = phase_ref( kk, p);
         sum2 += (x - r) * (x - r); n++;
         if( fabsl( x - r) > .004L) vh_fail( "phase", "%s nearest J2000 + %.4Lf: %.5Lf, should be %.5Lf", ph[p], mean, x, r); else vh.validated++;
         if( prev != 0.L) for( int side = -1; side <= 1; side += 2)
            {
            const ld t = (x + prev) / 2.L + .001L * side, y = get_time_from_stringl( t, ph[p], 0, &ut);
            if( fabsl( y - (side < 0 ? prev : x)) > 1e-9L) vh_fail( "phase-nearest", "%s nearest J2000 + %.4Lf: %.4Lf, should be %.4Lf", ph[p], t, y, side < 0 ? prev : x);
            }
         prev = x;
         }
      vh_at( "phase-series", p);
      if( sqrtl( sum2 / n) > .00104L) vh_fail( "phase", "%s: rms error of %.2Lf minutes", ph[p], sqrtl( sum2 / n) * 1440.L);
      vh_sample( "%s: rms difference from the full series %.2Lf minutes", ph[p], sqrtl( sum2 / n) * 1440.L);
      }
   for( long k = -100; k < 1100; k++) if( vh_mine( idx++))
      {
      ld t = (ld)k * 29.53L - 7000.L, prev = 0.L;
      for( int p = 0; p < 4; p++)
         {
         Init in = inits[0];
         int ut;
         vh_at( "phase", k, p); vh.states++; vh.transitions++;
         in.t2k = t;
         const ld x = get_time_from_stringl( t, ph[p], 0, &ut);
         if( fabsl( x - t) > 15.5L) vh_fail( "phase", "%s nearest J2000 + %.3Lf: %.3Lf", ph[p], t, x);
         /* the same phase is found from every time nearer to it than half a lunation, less the inequality */
         for( ld o = -13.8L; o < 14.L; o += 4.6L)
            { const ld x2 = get_time_from_stringl( x + o, ph[p], 0, &ut); if( fabsl( x2 - x) > 1e-9L) vh_fail( "phase", "%s from %.3Lf is %.3Lf, from %.3Lf is %.3Lf", ph[p], t, x, x + o, x2); vh.transitions++; }
         const ld nx = get_time_from_stringl( x + 7.4L, ph[(p + 1) & 3], 0, &ut);
         if( nx - x < 6.2L || nx - x > 8.7L) vh_fail( "phase", "%s at %.3Lf is followed by %s at %.3Lf", ph[p], x, ph[(p + 1) & 3], nx);
         else vh.validated++;
         prev = x; (void)prev;
         }
      }
   }
   /* (6) nonsense is refused with a negative status and the time unchanged */
   if( vh.shard == 0)
      {
      static const char *bad[] = { "", "   ", "xyzzy", "@#!", "????", "qwertyuiop" };
      for( const char *s : bad) for( int i = 0; i < n_inits; i++)
         {
         int ut = 99; vh_ats( "nonsense", s); vh.states++; vh.transitions++;
         const ld x = get_time_from_stringl( inits[i].t2k, s, 0, &ut);
         if( ut >= 0 || x != inits[i].t2k) vh_fail( "nonsense", "'%s' gives %.6Lf status %d", s, x, ut);
         else vh.validated++;
         }
      std::string l( 80, '1');
      int ut = 99; if( get_time_from_stringl( 5.L, l.c_str( ), 0, &ut) != 5.L || ut >= 0) vh_fail( "nonsense", "80 digits accepted, status %d", ut);
      }
   /* (7) 'now', whenever that is; two-digit years, from 60 years ago to 39 hence; the library's own clock */
   for( int cy = 1970; cy <= 2104; cy++) for( int q = 0; q < 9; q++) if( vh_mine( idx++))
      {
      static const int md[9][2] = { { 1, 1 }, { 1, 3 }, { 2, 28 }, { 3, 1 }, { 6, 30 }, { 7, 17 }, { 11, 11 }, { 12, 29 }, { 12, 31 } }; static const long tod[9] = { 0, 1, 86399, 43200, 3723, 50000, 71999, 12345, 86399 };
      const long day = dmy_to_day( md[q][1], md[q][0], cy, 0); const long long sec = (day - 2440588LL) * 86400LL + tod[q]; fake_ns = sec * 1000000000LL + q * 123456789LL; const ld now = (ld)(day - 2451545) - .5L + (ld)tod[q] / 86400.L, frac = (ld)q * .123456789L / 86400.L; char b[80]; vh_at( "clock", cy, q);
      const ld cj = current_jd( ) - 2451545.; const int64_t ns = nanoseconds_since_1970( ); vh.states++; if( ns > fake_ns || ns < fake_ns - 1000) vh_fail( "clock", "nanoseconds_since_1970 is %lld, should be %lld", (long long)ns, fake_ns); else if( fabsl( cj - now - frac) > 6e-10L) vh_fail( "clock", "current_jd is J2000 + %.9Lf, should be %.9Lf", cj, now + frac); else vh.validated++;
      for( int k = 0; k < n_inits; k++)
         {
         static const struct { const char *t; ld off; } tx[] = { { "now", 0.L }, { "NOW", 0.L }, { "now+3d", 3.L }, { "now -2.5h", -2.5L / 24.L }, { " now +1d -36h", -.5L } };
         for( auto &x : tx) { int ut = 99; vh_ats( "now", x.t); vh.states++; vh.transitions++; const ld y = get_time_from_stringl( inits[k].t2k, x.t, 0, &ut); if( ut < 0 || y < now + x.off - 1e-8L || y > now + x.off + frac + 1e-8L) vh_fail( "now", "'%s' gives %.7Lf status %d, should be %.7Lf", x.t, y, ut, now + x.off); else vh.validated++; }
         const ld mid = floorl( now + .5L) - .5L; int ut; const ld y = get_time_from_stringl( inits[k].t2k, "now 6:00", 0, &ut); vh.states++; if( fabsl( y - mid - .25L) > 1e-8L) vh_fail( "now", "'now 6:00' gives %.6Lf, should be %.6Lf", y, mid + .25L); else vh.validated++;
         }
      const bool edge = (md[q][0] == 1 && md[q][1] < 3) || (md[q][0] == 12 && md[q][1] > 29);        /* the year may be taken from a mean length */
      if( !edge) for( int yy = 1; yy < 100; yy++)
         {
         int y = cy - 60; while( y % 100 != yy) y++; const int fl = FULL_CTIME_TWO_DIGIT_YEAR | FULL_CTIME_DMY; const ld want = (ld)(dmy_to_day( 17, 3, y, 0) - 2451545) - .5L + .25L; static const char *ft[] = { "17 mar %02d 6:00", "17/3/%02d 6:00", "17-03-%02d 6:00" };
         snprintf( b, sizeof( b), ft[(yy + q) % 3], yy); int ut = 99; vh_ats( "two-digit year", b); vh.states++; vh.transitions++; const ld got = get_time_from_stringl( inits[yy & 3].t2k, b, fl, &ut); if( ut < 0 || fabsl( got - want) > 1e-8L) vh_fail( "two-digit-year", "'%s' in %d gives %.6Lf, should be in %d", b, cy, got, y); else vh.validated++;
         }
      fake_ns = -1;
      }
   vh_sample( "'7 dec 1941 3:14 -10m +3h'"); vh_sample( "'BC 415o9 12:33 -2h'"); vh_sample( "'2008-03-14T15:26:53.5'");
   return vh_done( );
}
