/* C05: time -> text -> time.  full_ctime() against an integer-tick reference
   formatter, and get_time_from_string() as its inverse; split_time() too.  */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"

static const char *MON[13] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "Ext" };
static const char *DOW[7] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
typedef long long ll;
static ll p10( int n) { ll r = 1; while( n--) r *= 10; return r; }

/* day: integer JD (noon) of the civil day; tick: units*10^p ticks within it */
static std::string reference( long jd, ll tick, int fmt)
{
   const int p = (fmt >> 4) & 15, of = fmt & FULL_CTIME_FORMAT_MASK, cal = fmt & 15;
   const ll P = p10( p);
   int d, m; long y; char b[60];
   std::string r, mon, yr, dy, dec;
   day_to_dmy( jd, &d, &m, &y, cal);
   const char *z2 = (fmt & FULL_CTIME_LEADING_ZEROES) ? "%02d" : "%2d";
   if( p) { snprintf( b, sizeof( b), ".%0*lld", p, tick % P); dec = b; }
   if( fmt & FULL_CTIME_DAY_OF_WEEK_FIRST) { r += DOW[((jd + 1) % 7 + 7) % 7]; r += ' '; }
   if( !(fmt & FULL_CTIME_TIME_ONLY))
      {
      if( fmt & FULL_CTIME_MONTHS_AS_DIGITS) { snprintf( b, sizeof( b), z2, m); mon = b; } else mon = MON[m - 1];
      if( fmt & FULL_CTIME_TWO_DIGIT_YEAR) snprintf( b, sizeof( b), "%02d", (int)labs( y % 100));
      else snprintf( b, sizeof( b), (fmt & FULL_CTIME_LEADING_ZEROES) ? "%04ld" : "%4ld", y);
      yr = b;
      snprintf( b, sizeof( b), z2, d); dy = b;
      if( fmt & FULL_CTIME_DAY_OF_YEAR)
         { snprintf( b, sizeof( b), "%03ld", jd - dmy_to_day( 1, 1, y, cal) + 1); dy = b; }
      if( of == FULL_CTIME_FORMAT_DAY) dy += dec;
      const bool ny = (fmt & FULL_CTIME_NO_YEAR) != 0;
      if( (fmt & FULL_CTIME_YEAR_FIRST) && !ny) r += yr + " ";
      if( fmt & FULL_CTIME_DAY_OF_YEAR) r += dy;
      else if( fmt & FULL_CTIME_MONTH_DAY) r += mon + " " + dy;
      else r += dy + " " + mon;
      if( !(fmt & FULL_CTIME_YEAR_FIRST) && !ny) r += " " + yr;
      if( of != FULL_CTIME_FORMAT_DAY) r += " ";
      }
   const ll u = tick / P;
   const char *z = (fmt & FULL_CTIME_LEADING_ZEROES) ? "%02lld" : "%2lld";
   if( of == FULL_CTIME_FORMAT_SECONDS) { snprintf( b, sizeof( b), z, u / 3600); r += b; snprintf( b, sizeof( b), ":%02lld:%02lld", u / 60 % 60, u % 60); r += b; r += dec; }
   if( of == FULL_CTIME_FORMAT_HH_MM) { snprintf( b, sizeof( b), z, u / 60); r += b; snprintf( b, sizeof( b), ":%02lld", u % 60); r += b; r += dec; }
   if( of == FULL_CTIME_FORMAT_HH) { snprintf( b, sizeof( b), z, u); r += b; r += dec; }
   if( fmt & FULL_CTIME_DAY_OF_WEEK_LAST) { r += " "; r += DOW[((jd + 1) % 7 + 7) % 7]; }
   std::string o;
   for( char c : r) if( !(c == ' ' && (fmt & FULL_CTIME_NO_SPACES)) && !(c == ':' && (fmt & FULL_CTIME_NO_COLONS))) o += c;
   return o;
}

static const ll UNITS[4] = { 86400, 1440, 24, 1 };
static const double OFF_T[] = { 0., .3, .62, .9 }, OFF_R[] = { 0., .25, .4, .6, .9 };

/* can this text be read back unambiguously? (documented reading rules) */
static bool readable( int fmt, long jd)
{
   const int of = fmt & FULL_CTIME_FORMAT_MASK, cal = fmt & 15;
   int d, m; long y;
   day_to_dmy( jd, &d, &m, &y, cal);
   if( fmt & (FULL_CTIME_TWO_DIGIT_YEAR | FULL_CTIME_DAY_OF_WEEK_FIRST | FULL_CTIME_DAY_OF_WEEK_LAST | FULL_CTIME_NO_COLONS)) return false;
   if( of == FULL_CTIME_FORMAT_HH) return false;
   if( fmt & FULL_CTIME_TIME_ONLY) return of != FULL_CTIME_FORMAT_DAY && !(fmt & FULL_CTIME_DAY_OF_YEAR);
   if( fmt & FULL_CTIME_NO_YEAR) return false;
   if( fmt & FULL_CTIME_DAY_OF_YEAR) return y > 400 && !(fmt & FULL_CTIME_NO_SPACES);
   if( fmt & FULL_CTIME_NO_SPACES)
      return of == FULL_CTIME_FORMAT_DAY && (fmt & FULL_CTIME_MONTHS_AS_DIGITS) && (fmt & FULL_CTIME_LEADING_ZEROES) &&
             (fmt & FULL_CTIME_YMD) == FULL_CTIME_YMD && y >= 1000 && y <= 9999;
   /* a field > 32 is "probably a year", 32 itself is ambiguous */
   if( y == 32) return false;
   return true;
}

static void one( long jd, ll tick, double off, int fmt, bool up)
{
   const int of = fmt & FULL_CTIME_FORMAT_MASK, p = (fmt >> 4) & 15;
   const ll T = UNITS[of >> 8] * p10( p);
   const long double t2k = (long double)( jd - 2451545) - .5L + ((long double)tick + (long double)off) / (long double)T;
   long jd2 = jd; ll t2 = tick + (up ? 1 : 0);
   if( t2 == T) { t2 = 0; jd2++; }
   char buff[200];
   memset( buff, '#', sizeof( buff)); buff[199] = 0;
   vh_at( "format", jd, (long)tick, fmt, (long)( off * 100));
   full_ctimel( buff, t2k, fmt);
   vh.states++; vh.transitions++;
   const std::string want = reference( jd2, t2, fmt);
   if( want != buff) { vh_fail( "format", "JD %ld.5+%lld/%lld shows as '%s', should be '%s'", jd - 1, tick, T, buff, want.c_str( )); return; }
   if( readable( fmt, jd2))
      {
      int is_ut = 99;
      const long double init = (fmt & FULL_CTIME_TIME_ONLY) ? (long double)( jd2 - 2451545) + .123L : 1234.56L;
      const long double shown = (long double)( jd2 - 2451545) - .5L + (long double)t2 / (long double)T;
      vh_s( 0, buff);
      const long double got = get_time_from_stringl( init, buff, fmt, &is_ut);
      vh.transitions++;
      if( is_ut < 0 || fabsl( got - shown) > 2e-12L + fabsl( shown) * 4e-19L)
         vh_fail( "readback", "'%s' is read back %.9Lg days off, status %d (format %x)", buff, got - shown, is_ut, fmt);
      else { vh.validated++; vh_outcome( vh_hash( buff, strlen( buff))); }
      }
   else vh.validated++;
}

static void day_formats( long jd, int cal, int level)
{
   static const ll pick[6] = { 0, 1, 5, 9, 10, 59 };
   for( int of = 0; of <= 0x300; of += 0x100)
      for( int p = 0; p <= (of == 0x300 ? 9 : 6); p++)
         {
         if( level < 2 && p != 0 && p != 1 && p != 3 && p != 5) continue;
         const ll T = UNITS[of >> 8] * p10( p);
         ll ticks[20]; int nt = 0;
         for( ll v : pick) if( v < T) ticks[nt++] = v;
         if( T > 100) { ticks[nt++] = T / 3; ticks[nt++] = T / 2 - 1; ticks[nt++] = T / 2; }
         if( T > 3700) { ticks[nt++] = T / 24 * 13 - 1; ticks[nt++] = T / 24 * 10; }
         ticks[nt++] = T - 1;
         if( level == 0) { ticks[0] = 0; if( nt > 1) ticks[1] = T - 1; nt = nt > 1 ? 2 : 1; }
         for( int shape = 0; shape < 32; shape++)
            {
            int f = cal | of | (p << 4);
            if( shape & 1) f |= FULL_CTIME_YEAR_FIRST;
            if( shape & 2) f |= FULL_CTIME_MONTH_DAY;
            if( shape & 4) f |= FULL_CTIME_MONTHS_AS_DIGITS;
            if( shape & 8) f |= FULL_CTIME_LEADING_ZEROES;
            if( shape & 16) f |= FULL_CTIME_ROUNDING;
            for( int i = 0; i < nt; i++)
               {
               if( f & FULL_CTIME_ROUNDING) { for( double o : OFF_R) if( level == 2 || o != .25) one( jd, ticks[i], o, f, o > .5); }
               else for( double o : OFF_T) if( (level == 2 || o != .62) && !(o == 0. && of == 0x300 && p > 6)) one( jd, ticks[i], o, f, false);
               }
            }
         }
}

/* the decorations: every subset of the layout flags, at a few instants */
static void decorations( long jd, int cal)
{
   for( int m = 0; m < (1 << 11); m++)
      for( int of = 0; of <= 0x300; of += 0x100)
         for( int p = 0; p <= 3; p += 3)
            {
            static const int bits[11] = { FULL_CTIME_YEAR_FIRST, FULL_CTIME_MONTH_DAY, FULL_CTIME_MONTHS_AS_DIGITS, FULL_CTIME_TIME_ONLY,
               FULL_CTIME_LEADING_ZEROES, FULL_CTIME_TWO_DIGIT_YEAR, FULL_CTIME_NO_YEAR, FULL_CTIME_DAY_OF_WEEK_FIRST,
               FULL_CTIME_DAY_OF_WEEK_LAST, FULL_CTIME_NO_SPACES, FULL_CTIME_DAY_OF_YEAR };
            int f = cal | of | (p << 4);
            for( int i = 0; i < 11; i++) if( m & (1 << i)) f |= bits[i];
            if( (f & FULL_CTIME_TIME_ONLY) && (f & FULL_CTIME_DAY_OF_YEAR)) continue;
            const ll T = UNITS[of >> 8] * p10( p);
            one( jd, T - 1, .3, f, false);
            one( jd, T / 3, .3, f | FULL_CTIME_NO_COLONS, false);
            one( jd, T - 1, .6, f | FULL_CTIME_ROUNDING, true);
            }
}

static void number_formats( long jd)      /* JD, MJD, decimal year */
{
   for( int i = 0; i < 40; i++)
      for( int p = 0; p <= 10; p++)
         for( int fl = 0; fl < 8; fl++)
            {
            const long double t2k = (long double)( jd - 2451545) + (long double)i * .0251371L;
            static const int of[3] = { FULL_CTIME_FORMAT_JD, FULL_CTIME_FORMAT_MJD, FULL_CTIME_FORMAT_YEAR };
            if( (fl & 3) == 3) continue;
            const int f = of[fl & 3] | (p << 4) | ((fl & 4) ? FULL_CTIME_ROUNDING : 0);
            char buff[200]; memset( buff, '#', sizeof( buff)); buff[199] = 0;
            vh_at( "number", jd, i, f);
            full_ctimel( buff, t2k, f);
            vh.states++; vh.transitions++;
            const long double unit = 1.L / p10( p), eps = 1e-6L * (p ? .1L : 1.L) * unit + 2e-12L;
            if( f & 0x100 || (fl & 3) != 2)
               {
               const bool mjd = (fl & 3) == 1;
               char *e; const char *s = buff + (mjd ? 4 : 3);
               if( strncmp( buff, mjd ? "MJD " : "JD ", mjd ? 4 : 3)) { vh_fail( "number", "'%s'", buff); continue; }
               const long double v = strtold( s, &e), tr = t2k + (mjd ? 51544.5L : 2451545.L);
               const char *dot = strchr( s, '.');
               const int nd = dot ? (int)strlen( dot + 1) : 0;
               if( *e || nd != p || fabsl( v - tr) > .5L * unit + eps)
                  vh_fail( "number", "%s: true value %.12Lf, %d places", buff, tr, p);
               int is_ut = 0;
               vh_s( 0, buff);
               const long double got = get_time_from_stringl( 77.L, buff, 0, &is_ut);
               if( is_ut != 1 || fabsl( got + (mjd ? 51544.5L : 2451545.L) - v) > 1e-11L)
                  vh_fail( "number", "'%s' is read back as J2000 + %.12Lf, status %d", buff, got, is_ut);
               else vh.validated++;
               }
            else
               {
               const long double yr = t2k / 365.25L + 2000.L;
               if( yr < 1000.L || yr > 9998.L) continue;
               char *e; const long double v = strtold( buff, &e);
               const size_t wl = (size_t)( p ? p + 5 : 4);
               /* truncated, after the documented half-unit of a day (rounding) or nothing noticeable */
               if( *e || strlen( buff) != wl || v > yr + (fl & 4 ? .5L * unit / 365.25L : 0.L) + 1e-10L || v < yr - unit - 1e-10L)
                  vh_fail( "number", "year '%s', true %.12Lf", buff, yr);
               int is_ut = 0; char t[210]; snprintf( t, sizeof( t), "y%s", buff);
               vh_s( 0, t);
               const long double got = get_time_from_stringl( 77.L, t, 0, &is_ut);
               if( fabsl( got - ((v - 2000.L) * 365.25L - .5L)) > 1e-9L)      /* 'y' notation counts from 2000 Jan 1.0 */
                  vh_fail( "number", "'%s' is read back as J2000 + %.12Lf", t, got);
               else vh.validated++;
               }
            }
}

static void splits( long jd, int cal)
{
   for( int s = 0; s < 86400; s += 61)
      for( int e = -1; e <= 1; e++)
         {
         const long double t2k = (long double)( jd - 2451545) - .5L + ((long double)s + e * .25L) / 86400.L;
         long y, y2; int mo, d, h, mi, d2, mo2;
         vh_at( "split", jd, s, e, cal);
         const long double sec = split_timel( t2k, &y, &mo, &d, &h, &mi, cal);
         vh.states++; vh.transitions++;
         const long n = dmy_to_day( d, mo, y, cal);
         const long double back = (long double)( n - 2451545) - .5L + ((long double)h * 3600.L + mi * 60.L + sec) / 86400.L;
         if( h < 0 || h > 23 || mi < 0 || mi > 59 || sec < 0.L || sec >= 60.L + 1e-9L || fabsl( back - t2k) > 1e-12L)
            vh_fail( "split", "J2000 + %.12Lf splits to %ld/%d/%d %d:%d:%.9Lf", t2k, y, mo, d, h, mi, sec);
         else vh.validated++;
         if( s % 600 == 1)
            {
            day_to_dmy( n, &d2, &mo2, &y2, cal);
            const double jdd = (double)( t2k + 2451545.L), dd = decimal_day_to_dmy( jdd, &y2, &mo2, cal);
            const double want = (double)d + (h * 3600. + mi * 60. + (double)sec) / 86400.;
            if( e == 1 && (y2 != y || mo2 != mo || fabs( dd - want) > 2e-9))
               vh_fail( "split", "decimal day of %.10f: %ld/%d/%.10f, should be %ld/%d/%.10f", jdd, y2, mo2, dd, y, mo, want);
            double s2 = split_time( jdd, &y2, &mo2, &d2, &h, &mi, cal);
            const double b2 = (double)( dmy_to_day( d2, mo2, y2, cal)) - .5 + (h * 3600. + mi * 60. + s2) / 86400.;
            if( fabs( b2 - jdd) > 2e-9) vh_fail( "split", "split_time(%.10f) gives back %.10f", jdd, b2);
            }
         }
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   for( int m = 1; m <= 13; m++) set_month_name( m, MON[m - 1]);
   uint64_t idx = 0;
   static const int cals[] = { CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_JULIAN_GREGORIAN, CALENDAR_HEBREW, CALENDAR_ISLAMIC,
         CALENDAR_REVOLUTIONARY, CALENDAR_PERSIAN, CALENDAR_MODERN_PERSIAN, CALENDAR_CHINESE };
   /* level 2: all offsets, precisions; level 1 fewer; level 0: two ticks */
   for( int c = 0; c < 9; c++)
      {
      const int cal = cals[c];
      static const long y2[] = { -4713, -1, 0, 1, 31, 33, 99, 366, 999, 1000, 1582, 2000, 2024, 9999, 10000 };
      static const long y2b[] = { 5, 12, 99, 100, 380, 999, 1234, 5770 };
      static const long y2c[] = { 2700, 3000, 4630, 4634, 4668, 4700, 4720 };      /* Chinese years */
      const long *ys = c < 3 ? y2 : c == 8 ? y2c : y2b; const int ny = c < 3 ? 15 : c == 8 ? 7 : 8;
      for( int i = 0; i < ny; i++)
         {
         if( (cal == CALENDAR_PERSIAN || cal == CALENDAR_MODERN_PERSIAN) && ys[i] > 2300) continue;
         if( cal == CALENDAR_HEBREW && ys[i] < 300) continue;
         const long j0 = dmy_to_day( 1, 1, ys[i], cal);
         for( long j = j0 - 2; j < j0 + 400; j += (j < j0 + 3 ? 1 : vh.thorough ? 5 : 29)) if( vh_mine( idx++)) day_formats( j, cal, vh.thorough ? 2 : (j < j0 + 2 && c < 3) ? 2 : 1);
         }
      /* every day of a longer stretch, at its first and last instant */
      if( c < 3)
         for( long j = 2299160 - 400; j < 2299160 + (vh.thorough ? 8000 : 200); j++) if( vh_mine( idx++)) day_formats( j, cal, 0);
      if( c == 0) for( long y = -200; y < 2200; y += vh.thorough ? 1 : 9) if( vh_mine( idx++)) { day_formats( dmy_to_day( 1, 3, y, cal), cal, 0); day_formats( dmy_to_day( 31, 12, y, cal), cal, 0); }
      static const long dj[] = { 2451545, 2451604, 2299161, 1757643, 2460000 };
      for( long j : dj) if( vh_mine( idx++)) decorations( j, cal);
      if( c < 3) for( long j = 2451545 - 1000000; j < 2451545 + 1000000; j += vh.thorough ? 997 : 9973) if( vh_mine( idx++)) { number_formats( j); splits( j, cal); }
      }
   /* twelve to fifteen decimals: only the layout and memory safety are checked */
   if( vh.shard == 0)
      for( int p = 10; p <= 15; p++)
         for( int of = 0; of <= 0x300; of += 0x100)
            for( int sh = 0; sh < 4; sh++)
               {
               char *b = (char *)malloc( 80), r[100];
               const int f = of | (p << 4) | (sh & 1 ? FULL_CTIME_YEAR_FIRST : 0) | (sh & 2 ? FULL_CTIME_MONTH_DAY : 0);
               vh_at( "many decimals", p, of, sh);
               full_ctimel( b, 1234.375L, f);
               vh.states++; vh.transitions++;
               const std::string want = reference( 2451545 + 1234, (ll)( .875 * UNITS[of >> 8]), f & ~0xf0);
               snprintf( r, sizeof( r), "%s", b);
               char *dot = strchr( r, '.'); size_t nd = 0;
               if( dot) { nd = strspn( dot + 1, "0123456789"); memmove( dot, dot + 1 + nd, strlen( dot + 1 + nd) + 1); }
               if( nd != (size_t)p || want != r) vh_fail( "many-decimals", "'%s' (format %x), should be '%s' with %d decimals", b, f, want.c_str( ), p);
               else vh.validated++;
               free( b);
               }
   vh_sample( "%s", reference( 2451545, 86399, FULL_CTIME_YMD).c_str( ));
   return vh_done( );
}
