/* C01: day number <-> date conversions form one unbroken sequence of days in
   every calendar.  Transition system: state = (calendar, JD, y, m, d) as the
   library reports it, transition = next day.  Walked exhaustively.        */
#include "vh.h"
#include "watdefs.h"
#include "date.h"

static const char *cname[9] = { "Gregorian", "Julian", "Hebrew", "Islamic",
   "Revolutionary", "Persian", "Julian-Gregorian", "Chinese", "Modern-Persian" };

struct Date { long y; int m, d; };
static Date conv( long jd, int cal)
{
   Date r; r.m = -77; r.y = -777777;
   r.d = -77;
   day_to_dmy( jd, &r.d, &r.m, &r.y, cal);
   return r;
}
static bool nonexistent_jg( const Date &a) { return a.y == 1582 && a.m == 10; }

static void check_pair( int cal, long jd, const Date &a, const Date &b)
{
   /* a = date of jd, b = date of jd + 1 */
   vh.transitions++;
   const int dim = days_in_month( a.m, a.y, cal);
   bool ok;
   if( cal == CALENDAR_JULIAN_GREGORIAN && jd == 2299160)
      {
      ok = (a.y == 1582 && a.m == 10 && a.d == 4 && b.y == 1582 && b.m == 10 && b.d == 15);
      if( !ok)
         vh_fail( "jg-switch", "%s: day %ld is %ld/%d/%d but day after is %ld/%d/%d", cname[cal], jd, a.y, a.m, a.d, b.y, b.m, b.d);
      return;
      }
   if( a.y == b.y && a.m == b.m)
      ok = (b.d == a.d + 1 && b.d <= dim);
   else
      {
      ok = (a.d == dim && b.d == 1);
      if( a.y == b.y)           /* next month with a non-zero number of days */
         {
         int m = a.m + 1;
         while( m <= 13 && days_in_month( m, a.y, cal) == 0) m++;
         ok = ok && (b.m == m);
         }
      else
         {
         ok = ok && b.y == a.y + 1 && b.m == 1;
         for( int m = a.m + 1; m <= 13; m++)
            if( days_in_month( m, a.y, cal) != 0) ok = false;
         }
      }
   if( !ok)
      vh_fail( "step", "%s: day %ld is %ld/%d/%d (month has %d days) but day %ld is %ld/%d/%d", cname[cal], jd,
                  a.y, a.m, a.d, dim, jd + 1, b.y, b.m, b.d);
}

static void check_one( int cal, long jd, const Date &a)
{
   vh.states++;
   if( a.m < 1 || a.m > 13 || a.d < 1 || a.d > 31)
      { vh_fail( "range", "%s: day %ld gives %ld/%d/%d", cname[cal], jd, a.y, a.m, a.d); return; }
   const long back = dmy_to_day( a.d, a.m, a.y, cal);
   vh.validated++;
   if( back != jd)
      vh_fail( "roundtrip", "%s: day %ld -> %ld/%d/%d -> day %ld", cname[cal], jd, a.y, a.m, a.d, back);
}

static void month_lengths( int cal, long year)
{
   /* the lengths reported for the months add up to the distance between New Years */
   if( cal == CALENDAR_JULIAN_GREGORIAN && year == 1582) return;
   long tot = 0, jd0 = dmy_to_day( 1, 1, year, cal), jd1 = dmy_to_day( 1, 1, year + 1, cal);
   long jd = jd0;
   for( int m = 1; m <= 13; m++)
      {
      const int n = days_in_month( m, year, cal);
      if( n && dmy_to_day( 1, m, year, cal) != jd)
         vh_fail( "month-start", "%s %ld: month %d starts at %ld, previous months end at %ld", cname[cal], year, m, dmy_to_day( 1, m, year, cal), jd);
      if( n)                     /* last day of month, and day 'n+1' = following day */
         {
         if( dmy_to_day( n, m, year, cal) != jd + n - 1)
            vh_fail( "month-end", "%s %ld: month %d day %d", cname[cal], year, m, n);
         if( dmy_to_day( 0, m, year, cal) != jd - 1 || dmy_to_day( n + 1, m, year, cal) != jd + n)
            vh_fail( "month-carry", "%s %ld: month %d day 0 / %d do not carry", cname[cal], year, m, n + 1);
         }
      tot += n; jd += n;
      }
   vh.states++;
   if( tot != jd1 - jd0)
      vh_fail( "year-length", "%s %ld: months add up to %ld days, years are %ld apart", cname[cal], year, tot, jd1 - jd0);
   char b[40]; snprintf( b, sizeof( b), "%d:%ld", cal, tot);
   vh_outcome( b);
}

/* Every ordered triple of conversions from a colliding alphabet: both sides of
   neighbouring New Years and month ends, in every calendar, both directions. */
struct Op { int cal; long jd; bool to_day; Date d; };
static void run_op( const Op &o, Date &r, long &j)
{
   if( o.to_day) j = dmy_to_day( o.d.d, o.d.m, o.d.y, o.cal);
   else r = conv( o.jd, o.cal);
}
static void histories( )
{
   std::vector<Op> ops; std::vector<Date> rd; std::vector<long> rj;
   for( int cal = 0; cal < 9; cal++)
      for( int k = 0; k < 8; k++)
         {
         const long y = (cal == 7 ? 4698 : cal == 2 ? 5785 : cal == 3 ? 1446 : cal == 4 ? 233 : (cal == 5 || cal == 8) ? 1403 : 2024) + k / 4;
         const long jd = dmy_to_day( 1, (k & 2) ? 3 : 1, y, cal) - (k & 1);
         Op o; o.cal = cal; o.jd = jd; o.d = conv( jd, cal);
         o.to_day = false; ops.push_back( o);
         o.to_day = true; ops.push_back( o);
         }
   const size_t n = ops.size( );
   for( size_t i = 0; i < n; i++)
      for( size_t j = 0; j < n; j++)
         if( vh_mine( i * n + j))
            for( size_t k = 0; k < n; k++)
               {
               Date r = { 0, 0, 0}; long jd = 0;
               vh_at( "history", (long)i, (long)j, (long)k);
               run_op( ops[i], r, jd); run_op( ops[j], r, jd); run_op( ops[k], r, jd);
               vh.states++; vh.transitions += 3;
               const Op &o = ops[k];
               if( o.to_day ? jd != o.jd : (r.y != o.d.y || r.m != o.d.m || r.d != o.d.d))
                  vh_fail( "history", "%s day %ld: converted differently after %s day %ld and %s day %ld", cname[o.cal], o.jd,
                        cname[ops[i].cal], ops[i].jd, cname[ops[j].cal], ops[j].jd);
               else vh.validated++;
               }
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   histories( );
   static const int order[9] = { 0, 1, 6, 3, 2, 8, 4, 5, 7 };
   uint64_t block = 0;
   const long span_years = vh.thorough ? 30000 : 12000;
   for( int k = 0; k < 9; k++)
      {
      const int cal = order[k];
      long lo, hi;
      if( cal == CALENDAR_PERSIAN)
         {
         lo = dmy_to_day( 1, 1, -1096, cal);
         hi = dmy_to_day( 1, 1, 2327, cal) + 364;
         }
      else if( cal == CALENDAR_CHINESE)
         {
         lo = dmy_to_day( 1, 1, -362, cal);
         hi = dmy_to_day( 1, 1, 9635, cal);
         }
      else
         { lo = 2451545L - span_years * 365L; hi = 2451545L + span_years * 365L; }
      for( long b = lo; b < hi; b += 4000)
         {
         if( !vh_mine( block++)) continue;
         const long e = std::min( b + 4000, hi);
         vh_at( "calendar,JD", cal, b);
         Date a = conv( b, cal);
         for( long jd = b; jd < e; jd++)
            {
            vh_at( "calendar,JD", cal, jd);
            check_one( cal, jd, a);
            Date n = conv( jd + 1, cal);
            check_pair( cal, jd, a, n);
            a = n;
            }
         if( (b - lo) / 4000 == 500)
            vh_sample( "%s JD %ld = year %ld month %d day %d", cname[cal], e, a.y, a.m, a.d);
         }
      vh_at( "calendar", cal);
      vh.counters[std::string( "days_") + cname[cal]] = (vh.shard ? 0 : hi - lo);
      }
            /* every year of a much wider span: month tables and both sides of each New Year */
   const long wide = vh.thorough ? 3000000 : 400000;
   for( int k = 0; k < 9; k++)
      {
      const int cal = order[k];
      long y0 = -wide, y1 = wide;
      if( cal == CALENDAR_PERSIAN) { y0 = -1096; y1 = 2326; }
      if( cal == CALENDAR_CHINESE) { y0 = -362; y1 = 9634; }
      for( long y = y0; y <= y1; y++)
         if( vh_mine( block++))
            {
            vh_at( "calendar,year", cal, y);
            month_lengths( cal, y);
            const long jd0 = dmy_to_day( 1, 1, y, cal);
            if( (cal == CALENDAR_PERSIAN || cal == CALENDAR_CHINESE) && y == y0) continue;
            Date a = conv( jd0 - 1, cal), b = conv( jd0, cal);
            check_one( cal, jd0 - 1, a); check_one( cal, jd0, b);
            check_pair( cal, jd0 - 1, a, b);
            if( b.y != y || b.m != 1 || b.d != 1)
               vh_fail( "new-year", "%s: 1/1/%ld is day %ld, which converts to %ld/%d/%d", cname[cal], y, jd0, b.y, b.m, b.d);
            }
      }
            /* the documented limits of the table-driven calendars */
   if( vh_mine( block++))
      {
      long y = 2327;
      vh_at( "Persian upper limit");
      month_lengths( CALENDAR_MODERN_PERSIAN, y);
      int dim = days_in_month( 12, 2327, CALENDAR_PERSIAN);
      if( dim != 29 && dim != 30)
         vh_fail( "persian-2327", "last Persian year covered (2327) has a final month of %d days", dim);
      else
         for( long jd = dmy_to_day( 1, 1, 2327, CALENDAR_PERSIAN); jd < dmy_to_day( dim, 12, 2327, CALENDAR_PERSIAN); jd++)
            {
            Date a = conv( jd, CALENDAR_PERSIAN), b = conv( jd + 1, CALENDAR_PERSIAN);
            check_one( CALENDAR_PERSIAN, jd, a); check_pair( CALENDAR_PERSIAN, jd, a, b); check_one( CALENDAR_PERSIAN, jd + 1, b);
            }
      /* outside the table-driven range an error (day -1, JD 0) is reported, never a wrong date */
      for( int k = 0; k < 2; k++)
         {
         const int cal = k ? CALENDAR_CHINESE : CALENDAR_PERSIAN;
         for( long j = -4000; j < 4000; j++)
            {
            vh_at( "beyond table", cal, j);
            const long lo = dmy_to_day( 1, 1, k ? -363 : -1096, cal);
            const long jd = (j < 0) ? lo - 800 + j * 97 : (k ? 5300000 : 2798300 + 400) + j * 97;
            Date a = conv( jd, cal);
            vh.states++;
            if( a.d != -1)
               {
               if( dmy_to_day( a.d, a.m, a.y, cal) != jd)
                  vh_fail( "beyond-table", "%s: day %ld beyond the table gives %ld/%d/%d", cname[cal], jd, a.y, a.m, a.d);
               }
            }
         }
      }
   return vh_done( );
}
