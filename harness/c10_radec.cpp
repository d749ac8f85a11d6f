/* C10: RA/dec fields of 80-column observations, written and read in every format, and free-form angles. */
#include "vh.h"
#include "watdefs.h"
#include "mpc_func.h"
extern "C" int text_search_and_replace( char *, const char *, const char *);
double quick_strtod( const char *ibuff, const char **endptr);
static const double PI = 3.14159265358979323846;
static char line[100];
static uint64_t p10( int n) { uint64_t r = 1; while( n--) r *= 10; return r; }

/* text of tick n in the given format; value in the field's own unit (hours or degrees); false if not representable */
static bool text( int fmt, uint64_t n, char *o, double *val, double *prec)
{
   if( fmt >= 100 && fmt < 117)
      { const int k = fmt - 100; if( n / p10( k) > 99) return false; sprintf( o, "%02u.", (unsigned)( n / p10( k))); if( k) sprintf( o + 3, "%0*llu", k, (unsigned long long)( n % p10( k))); *val = (double)n / (double)p10( k); *prec = 3600. / (double)p10( k); }
   else if( fmt >= 200 && fmt < 216)
      { const int k = fmt - 200; sprintf( o, "%03u.", (unsigned)( n / p10( k))); if( k) sprintf( o + 4, "%0*llu", k, (unsigned long long)( n % p10( k))); *val = (double)n / (double)p10( k) / 15.; *prec = 240. / (double)p10( k); }
   else if( fmt <= -1)
      { const int k = -1 - fmt; const uint64_t m = n / p10( k); sprintf( o, "%02u %02u", (unsigned)( m / 60), (unsigned)( m % 60)); if( k) sprintf( o + 5, ".%0*llu", k, (unsigned long long)( n % p10( k))); *val = (double)n / (double)p10( k) / 60.; *prec = 60. / (double)p10( k); }
   else
      {
      const int k = fmt >= 400 ? fmt - 400 : fmt >= 300 ? fmt - 306 : fmt;
      const uint64_t s = n / p10( k);
      sprintf( o, fmt >= 400 ? "%03u %02u %02u" : fmt >= 300 ? "%02u%02u%02u" : "%02u %02u %02u", (unsigned)( s / 3600), (unsigned)( s / 60 % 60), (unsigned)( s % 60));
      if( k) sprintf( o + strlen( o), fmt >= 300 && fmt < 400 ? "%0*llu" : ".%0*llu", k, (unsigned long long)( n % p10( k)));
      *val = (double)n / (double)p10( k) / 3600.; *prec = 1. / (double)p10( k);
      if( fmt >= 400) { *val /= 15.; *prec /= 15.; }
      }
   return true;
}
static uint64_t ticks_per_unit( int fmt)
{ return fmt >= 400 ? 3600 * p10( fmt - 400) : fmt >= 300 ? 3600 * p10( fmt - 306) : fmt >= 200 ? p10( fmt - 200) : fmt >= 100 ? p10( fmt - 100) : fmt < 0 ? 60 * p10( -1 - fmt) : 3600 * p10( fmt); }

static void one( bool is_dec, bool neg, int fmt, uint64_t n, bool readable)
{
   char o[60], f[60], w[60];
   double v, pr;
   if( !text( fmt, n, o, &v, &pr)) return;
   snprintf( f, sizeof( f), "%-12s", o);
   vh_ats( is_dec ? "dec" : "RA", o); vh_i( fmt); vh_i( neg);
   vh.states++;
   bool ok = true;
   if( readable)
      {
      memset( line, ' ', 80); line[80] = 0;
      double ra, dec, rp, dp; int rf = 0, df = 0;
      if( is_dec) { memcpy( line + 32, "12 34 56.78 ", 12); line[44] = neg ? '-' : '+'; memcpy( line + 45, f, 11); }
      else { memcpy( line + 32, f, 12); memcpy( line + 44, "-12 34 56.7 ", 12); }
      const int rc = get_ra_dec_from_mpc_report( line, &rf, &ra, &rp, &df, &dec, &dp);
      vh.transitions++;
      const double got = is_dec ? dec * 180. / PI : ra * 12. / PI, want = is_dec && neg ? -v : v;
      const double gp = is_dec ? dp : rp / 15.;
      const double other = is_dec ? ra - (12. + 34. / 60. + 56.78 / 3600.) * PI / 12. : dec + (12. + 34. / 60. + 56.7 / 3600.) * PI / 180.;
      if( rc || fabs( got - want) > 3e-14 * (24. + fabs( want))) { vh_fail( "read", "'%s' (format %d) reads as %.12f (return %d), should be %.12f", line + 32, fmt, got, rc, want); ok = false; }
      else if( (is_dec ? df : rf) != fmt) { vh_fail( "format", "'%s': format %d, should be %d", o, is_dec ? df : rf, fmt); ok = false; }
      else if( fabs( gp / pr - 1.) > 1e-9) { vh_fail( "precision", "'%s' (format %d): precision %g, should be %g", o, fmt, gp, pr); ok = false; }
      else if( fabs( other) > 1e-13 || (is_dec ? rf : df) != (is_dec ? 2 : 1)) { vh_fail( "other-field", "'%.24s': the other coordinate is misread", line + 32); ok = false; }
      if( !(n & 63))
         {
         double r2, d2; const int rc2 = get_ra_dec_from_mpc_report( line, NULL, &r2, NULL, NULL, &d2, NULL);
         if( rc2 != rc || r2 != ra || d2 != dec) { vh_fail( "null", "'%s': different without format pointers", o); ok = false; }
         }
      }
   /* written back, from the exact value and from just inside the rounding interval on both sides */
   static const double off[3] = { 0., -.49, .49 };
   const double tick = 1. / (double)ticks_per_unit( fmt) / (fmt >= 200 && fmt < 300 ? 15. : fmt >= 400 ? 15. : 1.);
   for( int k = 0; k < 3; k++)
      {
      const double a = v + off[k] * tick;
      if( a < 0. || (v + 1.) / tick > (k ? 2e12 : 1e14)) continue;          /* beyond double precision */
      memset( w, 'x', sizeof( w));
      if( is_dec) output_signed_angle_to_buff( w, neg ? -a : a, fmt); else output_angle_to_buff( w, a, fmt);
      vh.transitions++;
      char e[60]; snprintf( e, sizeof( e), "%s%-12s", is_dec ? (neg && a ? "-" : "+") : "", o);
      if( strcmp( w, e)) { vh_fail( "write", "%.12f in format %d is written '%s', should be '%s'", a, fmt, w, e); ok = false; break; }
      }
   if( ok) vh.validated++;
   if( !(n % 997)) vh_outcome( o);
}
static void range( bool is_dec, int fmt, bool readable, uint64_t idx)
{
   const uint64_t per = ticks_per_unit( fmt), units = is_dec ? 90 : (fmt >= 200 && fmt < 300) || fmt >= 400 ? 360 : 24;
   const uint64_t total = per * units, lim = (vh.thorough ? 90000000ull : 900000ull) / (readable ? 1 : 4);
   uint64_t step = total / lim + 1;
   if( step > 1) while( step % 2 == 0 || step % 3 == 0 || step % 5 == 0) step++;
   for( uint64_t n = 0, i = 0; n < total; n += step, i++)
      if( vh_mine( i / 256 + idx)) { one( is_dec, false, fmt, n, readable); if( is_dec) one( is_dec, true, fmt, n, readable); }
   /* every carry: the ticks around each whole unit and each minute and second boundary of some units */
   for( uint64_t u = 0; u <= units; u++)
      if( vh_mine( u + idx)) for( int k = -3; k <= 3; k++)
         {
         if( (int64_t)( u * per) + k < 0) continue;
         if( u == units && k >= 0) continue;
         one( is_dec, false, fmt, u * per + (uint64_t)k, readable); if( is_dec) one( is_dec, true, fmt, u * per + (uint64_t)k, readable);
         for( int q = 1; q < 60; q++) if( per % 60 == 0 && u < units)
            { one( is_dec, u & 1, fmt, u * per + per / 60 * (uint64_t)q + (uint64_t)k, readable); if( per % 3600 == 0) one( is_dec, u & 1, fmt, u * per + per / 3600 * (uint64_t)q + (uint64_t)( k < 0 ? 0 : k), readable); }
         }
}
static void free_form( const char *t, bool is_dec, double want_deg, int want_bytes)
{
   int n = -1;
   vh_ats( is_dec ? "dec-text" : "ra-text", t);
   vh.states++; vh.transitions++;
   const double got = (is_dec ? get_dec_from_string : get_ra_from_string)( t, &n) * 180. / PI;
   if( n != want_bytes) vh_fail( "text-bytes", "'%s' as %s: %d bytes used, should be %d", t, is_dec ? "dec" : "RA", n, want_bytes);
   else if( want_bytes && !(fabs( got - want_deg) < 1e-11 * (1. + fabs( want_deg)))) vh_fail( "text", "'%s' as %s: %.12f degrees, should be %.12f", t, is_dec ? "dec" : "RA", got, want_deg);
   else vh.validated++;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   uint64_t idx = 0;
   for( int f = -7; f <= 3; f++) { range( false, f, true, idx++); if( f < 3) range( true, f, f > -7, idx++); }
   for( int f = 100; f <= 109; f++) { range( false, f, true, idx++); if( f < 109) range( true, f, true, idx++); }
   for( int f = 200; f <= 208; f++) range( false, f, true, idx++);
   for( int f = 307; f <= 312; f++) { range( false, f, true, idx++); if( f < 312) range( true, f, true, idx++); }
   for( int f = 400; f <= 402; f++) range( false, f, true, idx++);
   /* longer fields, written for ephemerides only */
   for( int f = 4; f <= 9; f++) { range( false, f, false, idx++); range( true, f, false, idx++); }
   for( int f = 110; f <= 112; f++) { range( false, f, false, idx++); range( true, f, false, idx++); }
   for( int f = 209; f <= 211; f++) range( false, f, false, idx++);
   /* more decimals than a double holds : the width, and the value to the precision of a double */
   for( int f : { 110, 111, 112, 113, 114, 115, 116, 209, 210, 211, 212, 213, 214, 215, 7, 8, 9 })
      for( int i = 0; i < (vh.thorough ? 3600000 : 36000); i++)
         {
         if( !vh_mine( idx++)) continue;
         const bool wide = f >= 200; const int k = f >= 200 ? f - 200 : f >= 100 ? f - 100 : f;
         const double a = 24. * ((double)i + .61803398874989484) / (vh.thorough ? 3600000. : 36000.);
         char w[60]; memset( w, 'x', sizeof( w));
         vh_at( "long", f, i); vh.states++; vh.transitions++;
         output_angle_to_buff( w, a, f);
         char *e; double v = strtod( w, &e);
         size_t dot = wide ? 3 : 2, len = dot + 1 + (size_t)k;
         if( f < 100) { int h, m; double s; if( sscanf( w, "%2d %2d %lf", &h, &m, &s) != 3) v = -1.; else v = h + m / 60. + s / 3600.; dot = 8; len = 9 + (size_t)k; }
         if( wide) v /= 15.;
         if( strlen( w) != len || w[dot] != '.' || strspn( w + dot + 1, "0123456789") != (size_t)k || !(fabs( v - a) < 1e-14 * 24. + .51 * pow( 10., -k) / (f < 100 ? 3600. : wide ? 15. : 1.)))
            vh_fail( "write-long", "%.17g in format %d is written '%s'", a, f, w);
         else vh.validated++;
         }
   /* fields nothing can be read from */
   if( vh.shard == 0)
      {
      static const char *bad[] = { "            ", "x2 34 56.7  ", "1 2 3       ", "12:34:56.7  ", "1234        ", ".5          ", "- 1 2       " };
      for( const char *r : bad) for( const char *d : bad)
         {
         memset( line, ' ', 80); line[80] = 0; double ra, dec; int rf, df;
         memcpy( line + 32, r, 12); line[44] = '+'; memcpy( line + 45, d, 11);
         vh_ats( "bad", r, d); vh.states++; vh.transitions++;
         if( get_ra_dec_from_mpc_report( line, &rf, &ra, NULL, &df, &dec, NULL) != -3 || rf != -99 || df != -99) vh_fail( "bad", "'%s' accepted", line + 32); else vh.validated++;
         memcpy( line + 32, "12 34 56.7  ", 12);
         if( get_ra_dec_from_mpc_report( line, &rf, &ra, NULL, &df, &dec, NULL) != -2 || df != -99) vh_fail( "bad", "'%s' accepted", line + 32);
         memcpy( line + 32, r, 12); memcpy( line + 45, "12 34 56.7 ", 11);
         if( get_ra_dec_from_mpc_report( line, &rf, &ra, NULL, &df, &dec, NULL) != -1 || rf != -99) vh_fail( "bad", "'%s' accepted", line + 32);
         }
      }
   /* free-form text: decimal degrees, degrees/minutes, sexagesimal; any number of decimals, spaces before and after */
   char t[80];
   static const char *decs[] = { "", ".", ".0", ".5", ".25", ".123456", ".123456789", ".1234567891", ".12345678912", ".999999999999", ".000000000001", ".33333333333333333333" };
   for( int u = 0; u <= 360; u++)
      for( const char *ds : decs)
         {
         if( !vh_mine( idx++)) continue;
         const double fr = *ds && ds[1] ? atof( ds) : 0.;
         for( int lead = 0; lead < 3; lead++) for( int trail = 0; trail < 3; trail++)
            {
            const char *L = lead == 0 ? "" : lead == 1 ? " " : "   ", *T = trail == 0 ? "" : trail == 1 ? " " : "  x";
            const int nb = (int)strlen( L), tb = trail == 0 ? 0 : trail;
            snprintf( t, sizeof( t), "%s%d%s%s", L, u, ds, T); int len = (int)strlen( t) - (trail == 2 ? 1 : 0);
            const double v = u + fr;
            if( !(*ds == 0 && trail == 2 && false)) free_form( t, false, v, v > 360. ? 0 : len);
            if( u <= 91)
               { char t2[90]; snprintf( t2, sizeof( t2), "%c%s", u & 1 ? '-' : '+', t); free_form( t2, true, u & 1 ? -v : v, v > 90. ? 0 : len + 1);
                 free_form( t, true, 0., 0); }
            if( u < 24) for( int m = 0; m < 60; m += 7) for( int s = 0; s < 60; s += 13)
               {
               const double sv = s + fr; if( sv > 60.) continue;
               snprintf( t, sizeof( t), "%s%d %02d %02d%s%s", L, u, m, s, ds, T); len = (int)strlen( t) - (trail == 2 ? 1 : 0);
               free_form( t, false, (u + m / 60. + sv / 3600.) * 15., len);
               char t2[90]; snprintf( t2, sizeof( t2), "-%s", t); free_form( t2, true, -(u + m / 60. + sv / 3600.), len + 1);
               snprintf( t2, sizeof( t2), "+%s%d %02d%s%s", L, u, m, ds, T); if( m + fr <= 60.) free_form( t2, true, u + (m + fr) / 60., (int)strlen( t2) - (trail == 2 ? 1 : 0));
               (void)nb; (void)tb;
               }
            }
         }
   if( vh.shard == 0)
      {
      free_form( "12 61 00", false, 0., 0); free_form( "12 10 61", false, 0., 0); free_form( "+12 61", true, 0., 0); free_form( "-91", true, 0., 0); free_form( "+90.00001", true, 0., 0);
      free_form( "", false, 0., 0); free_form( "", true, 0., 0); free_form( "abc", false, 0., 0); free_form( "+", true, 0., 0); free_form( "361", false, 0., 0); free_form( "25 00 00", false, 0., 0);
      }
   vh_sample( "'12 34 56.78' -> format 2"); vh_sample( "'123456789012' -> format 312");
   return vh_done( );
}
