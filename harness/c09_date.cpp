/* C09: the date field of an 80-column MPC observation.  Every field is generated from its parts; the
   expected instant is computed from the parts with an independent day-number rule.                  */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "mpc_func.h"

static long jdn( long y, int m, int d)         /* mixed Julian / Gregorian, noon-based */
{
   const bool g = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d > 5)));
   const long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   long r = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4;
   return g ? r - yy / 100 + yy / 400 - 32045 : r - 32083;
}
static int mlen( long y, int m)
{
   static const int n[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   const bool leap = y > 1582 ? (y % 4 == 0 && (y % 100 || y % 400 == 0)) : y % 4 == 0;
   return n[m - 1] + (m == 2 && leap);
}
static char line[100];
static void blank( ) { memset( line, ' ', 80); line[80] = 0; memcpy( line + 5, "K08T03C", 7); memcpy( line + 77, "568", 3); memcpy( line + 32, "12 34 56.78 -12 34 56.7", 23); line[14] = 'C'; }
static void chk( const char *field, double want, int fmt, const char *key)
{
   char f[24];
   memset( f, ' ', 17); f[17] = 0; memcpy( f, field, strlen( field));
   memcpy( line + 15, f, 17);
   unsigned got_fmt = 999;
   vh_ats( key, field);
   const double got = extract_date_from_mpc_report( line, &got_fmt);
   vh.states++; vh.transitions++;
   if( !(fabs( got - want) < 1.2e-9)) vh_fail( key, "'%s' gives JD %.9f, should be %.9f", f, got, want);
   else if( got_fmt != (unsigned)fmt) vh_fail( "format", "'%s': format %u, should be %d", f, got_fmt, fmt);
   else vh.validated++;
   if( !(vh.states & 7))
      { const double g2 = extract_date_from_mpc_report( line, NULL); if( g2 != got) vh_fail( "no-format", "'%s': JD %.9f without a format pointer, %.9f with", f, g2, got); }
   if( !(vh.states & 511)) vh_outcome( field);
   if( !(vh.states & 3) || fmt >= 20)
      {                              /* radar times: the nearest whole UTC second */
      line[14] = vh.states & 4 ? 'R' : 'r';
      const double r = extract_date_from_mpc_report( line, NULL);
      line[14] = 'C';
      const double day = floor( want + .5) - .5, s = floor( (want - day) * 86400. + .5), w2 = day + s / 86400.;
      const double frac = fabs( (want - day) * 86400. - floor( (want - day) * 86400.) - .5);
      vh.transitions++;
      if( fabs( r - w2) > 1.2e-9 && frac > 2e-4) vh_fail( "radar", "'%s' as radar: JD %.9f, the nearest second is %.9f", f, r, w2);
      }
}
static const char *DEC[] = { "000000000", "000000001", "141592653", "250000000", "499994999", "500000000", "654321098", "864197531", "999994999", "999999999" };
static double dec( const char *d, int n) { double r = 0., p = .1; for( int i = 0; i < n; i++, p *= .1) r += (d[i] - '0') * p; return r; }

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   uint64_t idx = 0;
   char b[60];
   blank( );
   /* (1) YYYY MM DD.dddddd, every day, every precision, with and without leading zeroes */
   const long step = vh.thorough ? 1 : 3;
   for( long y = 1; y <= 9999; y += (y >= 1560 && y < 2110) ? 1 : (y % 100 >= 96 || y % 100 <= 4 ? 1 : 5 * step))
      for( int m = 1; m <= 12; m++)
         {
         if( !vh_mine( idx++)) continue;
         for( int d = 1; d <= mlen( y, m); d++)
            {
            if( y == 1582 && m == 10 && d > 4 && d < 15) continue;
            const double j = (double)jdn( y, m, d) - .5;
            for( int p = 0; p <= 6; p++)
               for( int k = 0; k < 10; k++)
                  {
                  if( (y < 1800 || y > 2060) && (k + d + p) % 5) continue;
                  if( !p && k) continue;
                  char ds[12]; memcpy( ds, DEC[k], (size_t)p); ds[p] = 0;
                  snprintf( b, sizeof( b), "%04ld %02d %02d.%s", y, m, d, ds);
                  chk( b, j + dec( DEC[k], p), p, "ymd");
                  if( (m < 10 || d < 10) && k < 3)
                     { snprintf( b, sizeof( b), "%04ld %2d %2d.%s", y, m, d, ds); chk( b, j + dec( DEC[k], p), p, "ymd-blanks");
                       snprintf( b, sizeof( b), "%04ld %02d %2d.%s", y, m, d, ds); chk( b, j + dec( DEC[k], p), p, "ymd-blanks");
                       snprintf( b, sizeof( b), "%04ld %2d %02d.%s", y, m, d, ds); chk( b, j + dec( DEC[k], p), p, "ymd-blanks"); }
                  }
            /* (2) CYYMMDD.dddd and CYYMMDD:HHMMSS, 18th to 21st centuries */
            if( y >= 1700 && y < 2100)
               {
               const char c = (char)( 'A' + y / 100 - 10);
               for( int p = 2; p <= 9; p++)
                  for( int k = 0; k < 10; k += 1 + (d % 3))
                     {
                     char ds[12]; memcpy( ds, DEC[k], (size_t)p); ds[p] = 0;
                     snprintf( b, sizeof( b), "%c%02ld%02d%02d.%s", c, y % 100, m, d, ds);
                     chk( b, j + dec( DEC[k], p), 30 + p, "packed-day");
                     }
               for( int h = 0; h < 24; h += 1 + (d & 1) * 22)
                  for( int mi = 0; mi < 60; mi += d == 7 ? 1 : 59)
                     {
                     snprintf( b, sizeof( b), "%c%02ld%02d%02d:%02d%02d", c, y % 100, m, d, h, mi);
                     chk( b, j + (h * 60 + mi) / 1440., 50, "packed-hm");
                     for( int s = 0; s < 60; s += (d == 8 && m == 6) ? 1 : (y & 1) ? 59 : 23)
                        for( int p = 0; p <= 3; p++)
                           {
                           char ds[12]; const char *q = DEC[(s + d + h) % 10]; memcpy( ds, q, (size_t)p); ds[p] = 0;
                           snprintf( b, sizeof( b), "%c%02ld%02d%02d:%02d%02d%02d%s", c, y % 100, m, d, h, mi, s, ds);
                           chk( b, j + (h * 3600 + mi * 60 + s + dec( q, p)) / 86400., 20 + p, "packed-hms");
                           }
                     }
               }
            }
         }
   /* (3) Julian Day and modified Julian Day */
   for( long j = 1000000; j < 3000000; j += vh.thorough ? 7 : 97)
      if( vh_mine( idx++)) for( int p = 3; p <= 9; p++) for( int k = (int)( j % 3); k < 10; k += 3)
         {
         char ds[12]; memcpy( ds, DEC[k], (size_t)p); ds[p] = 0;
         snprintf( b, sizeof( b), "%07ld.%s", j, ds); chk( b, (double)j + dec( DEC[k], p), 10 + p, "jd");
         }
   for( long j = 0; j < 200000; j += vh.thorough ? 1 : 7)
      if( vh_mine( idx++)) for( int p = 2; p <= 9; p++) for( int k = (int)( j % 3); k < 10; k += 3)
         {
         char ds[12]; memcpy( ds, DEC[k], (size_t)p); ds[p] = 0;
         snprintf( b, sizeof( b), "M%06ld.%s", j, ds); chk( b, 2400000.5 + (double)j + dec( DEC[k], p), 40 + p, "mjd");
         }
   /* (4) which lines are observations at all: length, note column, observatory code */
   if( vh.shard == 1 % vh.nshards)
      {
      memcpy( line + 15, "2013 02 13.141593", 17);
      for( int len = 0; len < 90; len++)
         {
         char l[100]; memset( l, 'x', sizeof( l)); memcpy( l, line, 80); l[80] = l[81] = l[82] = '\r'; l[len] = 0;
         vh_at( "length", len); vh.states++; vh.transitions++;
         const double r = extract_date_from_mpc_report( l, NULL);
         if( (r != 0.) != (len >= 80 && len <= 82)) vh_fail( "length", "line of %d bytes: JD %.6f", len, r); else vh.validated++;
         }
      for( int c = 1; c < 256; c++)
         {
         char l[100]; strcpy( l, line); l[12] = (char)c;
         vh_at( "note", c); vh.states++; vh.transitions++;
         const double r = extract_date_from_mpc_report( l, NULL);
         if( (r != 0.) != (c == ' ' || c == '*' || c == '-')) vh_fail( "note", "byte %d in the discovery column: JD %.6f", c, r); else vh.validated++;
         }
      for( int a = 1; a < 256; a++) for( int bb = 1; bb < 256; bb++) for( int p = 0; p < 3; p++)
         {
         char l[100]; strcpy( l, line); l[77 + p] = (char)a; l[77 + (p + 1) % 3] = (char)bb;
         const bool ok = a > ' ' && a <= 'z' && bb > ' ' && bb <= 'z';
         vh_at( "code", a, bb, p); vh.states++; vh.transitions++;
         if( is_valid_mpc_code( l + 77) != ok || (extract_date_from_mpc_report( l, NULL) != 0.) != ok) vh_fail( "code", "observatory code bytes %d %d at %d", a, bb, p); else vh.validated++;
         }
      }
   /* (5) something other than a digit, or other punctuation, in the year, month or day */
   static const struct { const char *text, *shape; } shapes[] = { { "2013 02 13.141593", "9999 b9 b9." }, { "2013 12 31.141593", "9999 b9 b9." }, { "K130213.141592653", "x999999.99" }, { "K130213:032353605", "x999999:99" }, { "2456336.641592653", "x999999.99" }, { "M056336.641592653", "x999999.99" } };
   uint64_t n5 = 0;
   for( auto &sh : shapes) for( int at = 0; sh.shape[at]; at++) for( int c = 1; c < 256; c++) for( int at2 = at; sh.shape[at2]; at2++) for( int c2 : { 65, 32, 46, 0xb2, 47 })
      {
      if( at2 == at && c2 != 'A') continue;
      if( !vh_mine( n5++)) continue;
      char l[100]; strcpy( l, line); memcpy( l + 15, sh.text, 17);
      l[15 + at] = (char)c; if( at2 != at) l[15 + at2] = (char)c2;
      bool bad = false, unsure = false;
      for( int k = 0; sh.shape[k]; k++)
         {
         const char ch = l[15 + k];
         const bool digit = ch >= '0' && ch <= '9';
         if( sh.shape[k] == '9') bad |= !digit;
         else if( sh.shape[k] == 'b') bad |= !digit && ch != ' ';
         else if( sh.shape[k] == 'x') unsure |= digit || (ch >= 9 && ch <= 13) || (ch >= 'H' && ch <= 'K') || ch == 'M' || ch == ' ' || ch == '+' || ch == '-' || ch == '.';
         else bad |= (ch != sh.shape[k] && !(sh.shape[k] == '.' && ch == ':') && !(sh.shape[k] == ':' && ch == '.'));
         }
      if( unsure && !bad) continue;
      if( sh.shape[0] == 'x' && !unsure) bad = true;
      if( sh.shape[4] == ' ' && l[19] >= '0' && l[19] <= '9' && l[22] == '.') continue;   /* starts as a JD would */
      if( !bad) continue;
      vh_ats( "bad-field", std::string( l + 15, 17).c_str( )); vh.states++; vh.transitions++;
      const double r = extract_date_from_mpc_report( l, NULL);
      if( r != 0.) vh_fail( "bad-field", "'%.17s' is read as JD %.6f", l + 15, r); else vh.validated++;
      }
   /* (6) no such month */
   for( int mon = 0; mon < 100; mon++) for( int day : { 1, 9, 15, 28, 31 }) for( int form = 0; form < 5; form++)
      {
      if( mon >= 1 && mon <= 12) continue;
      if( form > 2 && mon > 9) continue;
      if( !vh_mine( n5++)) continue;
      char l[100], t[24]; strcpy( l, line);
      if( form == 0) snprintf( t, sizeof t, "2013 %02d %02d.141593 ", mon, day);
      else if( form == 1) snprintf( t, sizeof t, "K13%02d%02d.141592653", mon, day);
      else if( form == 2) snprintf( t, sizeof t, "K13%02d%02d:032353605", mon, day);
      else if( form == 3) snprintf( t, sizeof t, "2013 %2d %02d.141593 ", mon, day);
      else snprintf( t, sizeof t, "2013 %2d %2d.141593 ", mon, day);
      if( form > 2 && mon) continue;
      memcpy( l + 15, t, 17);
      vh_ats( "no-such-month", t); vh.states++; vh.transitions++;
      const double r = extract_date_from_mpc_report( l, NULL);
      if( r != 0.) vh_fail( "no-such-month", "'%.17s' is read as JD %.6f", l + 15, r); else vh.validated++;
      }
   vh_sample( "'K130213:032353605' -> 23"); vh_sample( "'2013 02 13.141593' -> 6");
   return vh_done( );
}
