/* C30: elements_in_mpc_format( ) - the displayed orbit.  Every number shown is
   read back and must be the element to the digits asked for; buffers of every
   size end at an unmapped page.                                              */
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "watdefs.h"
#include "comets.h"
#include "date.h"
#include "afuncs.h"
#include "showelem.h"
typedef long double ld; typedef std::string S;
static const ld PIL = 3.14159265358979323846264338327950288L;
static const char *MON[12] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static ld jd_of( long y, int m, ld d)                 /* mixed Julian / Gregorian */
{
   const long a = ( 14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   auto fd = []( long p, long q) { return p >= 0 ? p / q : -( ( q - 1 - p) / q); };
   ld base = ( 153 * mm + 2) / 5 + 365. * yy + fd( yy, 4); const bool greg = y > 1582 || ( y == 1582 && ( m > 10 || ( m == 10 && d >= 15)));
   return d - .5L + base + ( greg ? -fd( yy, 100) + fd( yy, 400) - 32045 : -32083);
}
struct Num { bool ok; ld v; int decimals; S text; size_t at, len; };
static Num num( const S &s, size_t at)                 /* number at or after position 'at', blanks skipped */
{
   Num r = { false, 0, 0, "", at, 0 };
   while( at < s.size( ) && s[at] == ' ') at++;
   size_t e = at; if( e < s.size( ) && ( s[e] == '-' || s[e] == '+')) e++;
   bool dot = false; while( e < s.size( ) && ( isdigit( (unsigned char)s[e]) || ( s[e] == '.' && !dot))) { if( dot) r.decimals++; if( s[e] == '.') dot = true; e++; }
   r.text = s.substr( at, e - at); r.ok = r.text.find_first_of( "0123456789") != S::npos; if( r.ok) r.v = strtold( r.text.c_str( ), NULL); r.at = at; r.len = e - at; return r;
}
static const char *what; static S shown_as; static bool good;
static void bad( const char *fmt, ...) { char b[400]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof b, fmt, ap); va_end( ap); good = false; vh_fail( what, "%s  (%s)", b, shown_as.c_str( )); }
/* a number is right if within one unit of its last digit (they are cut or rounded) */
static void expect( const char *name, const Num &n, ld want, int decimals, ld period = 0)
{
   vh.transitions++;
   if( !n.ok) { bad( "%s: no number", name); return; }
   if( decimals >= 0 && n.decimals != decimals) { bad( "%s: '%s' has %d decimals, not %d", name, n.text.c_str( ), n.decimals, decimals); return; }
   ld d = fabsl( n.v - want); if( period > 0) d = std::min( d, fabsl( d - period));
   const ld unit = powl( 10.L, -n.decimals);
   if( !( d <= unit * 1.0001L + 4e-15L * fabsl( want) + 4e-15L * period)) bad( "%s: shown as %s, is %.15Lg", name, n.text.c_str( ), want);
}
static void dist( const char *name, const S &line, size_t at, ld au, int precision)
{
   vh.transitions++;
   size_t k = at; while( k < line.size( ) && line[k] == ' ') k++;
   if( line.compare( k, 6, "<HUGE>") == 0) { if( !( au > 999990.)) bad( "%s: <HUGE> shown for %.12Lg AU", name, au); return; }
   const Num n = num( line, at);
   const bool km = line.compare( n.at + n.len, 2, "km") == 0;
   if( au > 1000001.) { bad( "%s: %.12Lg AU shown as %s", name, au, n.text.c_str( )); return; }
   const ld v = km ? au * (ld)AU_IN_KM : au;
   if( km != ( au <= 999999. / AU_IN_KM)) bad( "%s: %.15Lg AU shown %s km", name, au, km ? "in" : "not in");
   int lead = 1; for( ld x = 10.L; v >= x; x *= 10.L) lead++;
   int want = precision + 4 - lead; if( want < 0) want = 0;
   const int most = km ? 16 : v > 9999. ? 15 : 18; if( want > most) want = most;
   if( fabsl( v - powl( 10.L, lead)) < 1e-6L || fabsl( v - powl( 10.L, lead - 1)) < 1e-6L) want = -1;
   expect( name, n, v, want);
}
struct Cfg { ELEMENTS e; bool cometary; int format; };
static void fill( ELEMENTS &e, double q, double ecc, double incl, double argp, double node, double epoch, double tp, double gm)
{
   memset( &e, 0, sizeof e);
   e.q = q; e.ecc = ecc; e.incl = incl; e.arg_per = argp; e.asc_node = node; e.epoch = epoch; e.perih_time = tp; e.gm = gm;
   derive_quantities( &e, gm);
   if( ecc > 1.) e.major_axis = -e.major_axis;
   if( ecc < 1.) { e.mean_anomaly = ( epoch - tp) / e.t0; }
}
static void check( const Cfg &c, const char *buf, int n, const char *id)
{
   const ELEMENTS &e = c.e; const int prec = c.format & 15; const bool nopq = c.format & SHOWELEM_OMIT_PQ_MASK, openq = c.cometary || e.ecc >= 1.;
   std::vector<S> L; const char *p = buf; for( int i = 0; i < n; i++) { L.push_back( p); p += L.back( ).size( ) + 1; }
   good = true; shown_as = ""; { char b[300]; snprintf( b, sizeof b, "q %.10g e %.12g i %.4f w %.6f node %.6f epoch %.6f tp %.6f gm %.3g H %.2f central %d format 0x%x", e.q, e.ecc, e.incl, e.arg_per, e.asc_node, e.epoch, e.perih_time, e.gm, e.abs_mag, e.central_obj, c.format); shown_as = b; }
   const bool has_tp = e.perih_time > 2. && e.perih_time < 3000000.;
   const int want_n = 1 + has_tp + 1 + 4 + ( openq ? 0 : 1);
   if( n != want_n) { bad( "%d lines, should be %d", n, want_n); return; }
   for( auto &l : L) for( char ch : l) if( (unsigned char)ch < ' ' || (unsigned char)ch > 126) { bad( "character %d in '%s'", ch, l.c_str( )); return; }
   what = "name"; if( L[0] != id) bad( "name shown as '%s'", L[0].c_str( ));
   size_t k = 1;
   auto date_is = [&]( const S &l, size_t at, ld jd, int decimals, size_t &end) { long y; char mo[4] = ""; int nn = 0; if( sscanf( l.c_str( ) + at, "%ld %3s %n", &y, mo, &nn) != 2) { bad( "no date in '%s'", l.c_str( )); end = S::npos; return; } int m = 0; while( m < 12 && strcmp( MON[m], mo)) m++; if( m == 12) { bad( "month '%s'", mo); end = S::npos; return; } const Num d = num( l, at + nn); end = d.at + d.len; if( decimals >= 0 && d.decimals != decimals) bad( "day '%s' has %d decimals, not %d", d.text.c_str( ), d.decimals, decimals); const ld got = jd_of( y, m + 1, d.v); vh.transitions++; if( !d.ok || fabsl( got - jd) > .5001L * powl( 10.L, -d.decimals) + 1e-9L + ( decimals < 0 ? 2.1e-7L : 0)) bad( "date '%s' is JD %.9Lf, should be %.9Lf", l.substr( at).c_str( ), got, jd); };
   if( has_tp)
      {
      what = "perihelion-time"; const S &l = L[k++];
      static const char *nm[12] = { "barion", "helion", "mercury", "venus", "gee", "mars", "jove", "saturn", "uranus", "neptune", "pluto", "lune" };
      S head = S( "   Peri") + ( e.central_obj >= -1 && e.central_obj <= 10 ? nm[e.central_obj + 1] : "----") + " ";
      if( l.compare( 0, head.size( ), head)) bad( "'%s' doesn't begin '%s'", l.c_str( ), head.c_str( ));
      else
         {
         size_t end; date_is( l, head.size( ), e.perih_time, prec, end);
         if( end != S::npos)
            {
            S rest = l.substr( end);
            if( !( c.format & SHOWELEM_PERIH_TIME_MASK)) { if( rest != " TT") bad( "after the date: '%s'", rest.c_str( )); }
            else
               {
               int h, m; double s; int nn = 0;
               if( sscanf( rest.c_str( ), " TT = %d:%d:%lf (JD %n", &h, &m, &s, &nn) != 3 || !nn) bad( "after the date: '%s'", rest.c_str( ));
               else
                  {
                  const size_t dot = rest.find( '.'); int dec = 0; for( size_t q = dot; q != S::npos && q + 1 < rest.size( ) && isdigit( (unsigned char)rest[q + 1]); q++) dec++;
                  if( rest.find( '.') > rest.find( '(')) dec = 0;
                  if( dec != ( prec > 5 ? prec - 5 : 0)) bad( "time of day in '%s' has %d decimals", rest.c_str( ), dec);
                  const ld tod = ( h * 3600.L + m * 60.L + s) / 86400.L; ld w = (ld)e.perih_time + .5L; w -= floorl( w); ld d = fabsl( tod - w); d = std::min( d, fabsl( d - 1.L));
                  vh.transitions++; if( d > 1.001L * powl( 10.L, -dec) / 86400.L + 5e-10L) bad( "time of day '%s' for JD %.9f", rest.c_str( ), e.perih_time);
                  const Num j = num( rest, nn); expect( "JD", j, e.perih_time, prec);
                  if( rest.substr( j.at + j.len) != ")") bad( "ends '%s'", rest.c_str( ));
                  }
               }
            }
         }
      }
   {
   what = "epoch"; const S &l = L[k++]; size_t end;
   if( l.compare( 0, 6, "Epoch ")) bad( "'%s'", l.c_str( ));
   else { date_is( l, 6, e.epoch, -1, end); const size_t j = l.find( " TT = JDT "); if( j == S::npos || j != end) bad( "'%s'", l.c_str( )); else { const Num x = num( l, j + 10); vh.transitions++; if( !x.ok || fabsl( x.v - e.epoch) > 7e-7L || x.at + x.len != l.size( )) bad( "JDT %s, should be %.7f", x.text.c_str( ), e.epoch); } }
   }
   const ld deg = 180.L / PIL; const ld full = 360.L;
   auto wrap = [&]( ld a) { a = fmodl( a * deg, full); return a < 0 ? a + full : a; };
   what = "M or q"; const S &l1 = L[k++];
   if( openq) { if( l1.compare( 0, 1, "q")) bad( "'%s'", l1.c_str( )); else dist( "q", l1, 1, e.q, prec); }
   else { if( l1.compare( 0, 1, "M")) bad( "'%s'", l1.c_str( )); else expect( "M", num( l1, 1), wrap( e.mean_anomaly), std::min( prec + 3, 15), full); }
   if( ( l1.find( "(2000.0)            P               Q") == S::npos) != nopq) bad( "'%s' %s the P, Q heading", l1.c_str( ), nopq ? "has" : "lacks");
   /* P and Q in the equatorial frame, from the angles */
   const ld se = .397777155931913701597179975942380896684L, ce = .917482062069181825744000384639406458043L;
   ld P[3], Q[3]; { const ld cn = cosl( e.asc_node), sn = sinl( e.asc_node), cw = cosl( e.arg_per), sw = sinl( e.arg_per), ci = cosl( e.incl), si = sinl( e.incl); ld a[3] = { cn * cw - sn * sw * ci, sn * cw + cn * sw * ci, sw * si }, b[3] = { -cn * sw - sn * cw * ci, -sn * sw + cn * cw * ci, cw * si }; for( int i = 0; i < 2; i++) { ld *v = i ? b : a, *o = i ? Q : P; o[0] = v[0]; o[1] = v[1] * ce - v[2] * se; o[2] = v[2] * ce + v[1] * se; } }
   static const char *nm[3] = { "Peri.", "Node ", "Incl." }; const ld ang[3] = { wrap( e.arg_per), wrap( e.asc_node), e.incl * deg };
   for( int i = 0; i < 3; i++)
      {
      what = nm[i]; const S &l = L[k++]; const size_t at = l.find( nm[i]); if( at == S::npos) { bad( "no '%s' in '%s'", nm[i], l.c_str( )); continue; }
      const S left = l.substr( 0, at);
      const Num a = num( l, at + 5); expect( nm[i], a, ang[i], prec, i < 2 ? full : 0);
      if( nopq) { if( a.at + a.len != l.size( )) bad( "'%s' after the angle", l.substr( a.at + a.len).c_str( )); }
      else { const Num p = num( l, a.at + a.len), q = num( l, p.at + p.len); char nn[4]; snprintf( nn, sizeof nn, "P%c", "xyz"[i]); if( p.decimals < prec || q.decimals < prec) bad( "P, Q: only %d, %d decimals", p.decimals, q.decimals); expect( nn, p, P[i], -1); nn[0] = 'Q'; expect( nn, q, Q[i], -1); if( l.find_first_not_of( ' ', q.at + q.len) != S::npos) bad( "'%s' after Q", l.c_str( )); }
      if( i == 0)
         {
         if( !openq) { what = "n"; if( left.compare( 0, 1, "n")) bad( "'%s'", l.c_str( )); else expect( "n", num( left, 1), deg * sqrtl( e.gm) / powl( e.q / ( 1.L - e.ecc), 1.5L), -1); }
         else
            {
            what = "mags"; S tag = e.is_asteroid ? "H" : c.format & SHOWELEM_COMET_MAGS_NUCLEAR ? "M(N)" : "M(T)", tag2 = e.is_asteroid ? "G" : "K";
            if( e.abs_mag == 0.) { if( left.find_first_not_of( ' ') != S::npos) bad( "'%s' where there is no magnitude", left.c_str( )); }
            else if( left.compare( 0, tag.size( ), tag)) bad( "'%s' should begin '%s'", left.c_str( ), tag.c_str( ));
            else { const Num h = num( left, tag.size( )); expect( "H", h, e.abs_mag, e.is_asteroid ? 2 : 1); const size_t g = left.find( tag2, h.at + h.len); if( g == S::npos) bad( "'%s' lacks %s", left.c_str( ), tag2.c_str( )); else expect( "G", num( left, g + 1), e.slope_param, e.is_asteroid ? 2 : 1); }
            }
         }
      else if( i == 1)
         {
         what = "a or z";
         if( !openq) { if( left.compare( 0, 1, "a")) bad( "'%s'", l.c_str( )); else dist( "a", left, 1, e.q / ( 1.L - e.ecc), prec); }
         else if( e.major_axis <= -.0011 && e.major_axis >= -100000.) { if( left.compare( 0, 1, "z")) bad( "'%s'", l.c_str( )); else expect( "z", num( left, 1), 1.L / e.major_axis, -1); }
         else if( left.find_first_not_of( ' ') != S::npos) bad( "'%s' should be blank", left.c_str( ));
         }
      else
         {
         what = "e"; if( left.compare( 0, 1, "e")) bad( "'%s'", l.c_str( )); else expect( "e", num( left, 1), c.cometary ? 1.L : (ld)e.ecc, c.cometary ? 1 : std::min( prec + 2, ( prec > 10 ? prec : 10) + 3));
         }
      }
   if( !openq)
      {
      what = "P"; const S &l = L[k];
      const ld a = e.q / ( 1.L - e.ecc), gk = .01720209895L, t0 = a * sqrtl( a * gk * gk / e.gm), d = t0 * 365.25L;
      if( l.compare( 0, 1, "P")) bad( "'%s'", l.c_str( ));
      else if( l.compare( 0, 9, "P!!!!!!! ") == 0) { if( t0 < 1e8L - 2.) bad( "period %.6Lg years shown as '%s'", t0, l.c_str( )); }
      else
         {
         const Num n1 = num( l, 1); char unit = n1.at + n1.len < l.size( ) ? l[n1.at + n1.len] : ' ';
         if( unit == 'd') expect( "P in days", n1, d, -1);
         else if( unit == 'm' || unit == '/') { expect( "P", n1, unit == 'm' ? d * 1440.L : t0, -1); const Num n2 = num( l, n1.at + n1.len + ( unit == 'm' ? 2 : 1)); expect( "P in days", n2, d, -1); if( l[n2.at + n2.len] != 'd') bad( "'%s'", l.c_str( )); }
         else expect( "P in years", n1, t0, -1);
         if( n1.text.find_first_of( "123456789") == S::npos && n1.decimals < 2) bad( "period '%s'", l.c_str( ));
         }
      const size_t iq = l.find( "   q "), iQ = l.find( "  Q ");
      if( iq == S::npos || iQ == S::npos || iQ < iq) bad( "no q, Q in '%s'", l.c_str( ));
      else { what = "q"; dist( "q", l, iq + 5, e.q, prec); what = "Q"; dist( "Q", l, iQ + 4, e.q * ( 1.L + e.ecc) / ( 1.L - e.ecc), prec); }
      what = "mags"; const S tag = e.is_asteroid ? " H" : c.format & SHOWELEM_COMET_MAGS_NUCLEAR ? " M(N)" : " M(T)", tag2 = e.is_asteroid ? " G " : " K ";
      const size_t ih = l.find( tag), ig = l.find( tag2);
      if( e.abs_mag == 0.) { if( ih != S::npos && ih < iq) bad( "a magnitude in '%s'", l.c_str( )); }
      else if( ih == S::npos || ig == S::npos || ig < ih || ig > iq) bad( "no magnitude in '%s'", l.c_str( ));
      else { expect( "H", num( l, ih + tag.size( )), e.abs_mag, e.is_asteroid ? 2 : 1); expect( "G", num( l, ig + 3), e.slope_param, e.is_asteroid ? 2 : 1); }
      }
   if( good) vh.validated++;
}
static char *page_end; static size_t page_len = 1 << 14;
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   char *m = (char *)mmap( NULL, page_len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect( m + page_len, 4096, PROT_NONE); page_end = m + page_len;
   const double GM = .01720209895 * .01720209895, D = M_PI / 180.; uint64_t n = 0;
   static const double qs[] = { 2e-7, 4.2635e-5, .0066, .00668, .0669, .99999999999, 1., 9.87654321, 10., 123.456, 9998.5, 12345.678, 999998., 2e6 };
   static const double es[] = { 0., .0167086171234, .3, .9, .99999, .999999999, 1., 1.0000001, 1.2, 3.3567, 27.5 };
   static const double ang[] = { 0., 1e-12, 1e-6, .5 * D, 44.99999999996 * D, 90 * D, 123.456789012345 * D, 180 * D, 359.99999 * D, 359.999999999999 * D, -30 * D, -1e-9, 725 * D, -1085.5 * D };
   static const double incls[] = { 0., 1e-9, .7 * D, 23.4392911 * D, 89.999999999 * D, 90 * D, 162.2626 * D, 180 * D };
   static const double dates[] = { 2451545., 2451544.5, 2457754.499999, 2457754.4999999996, 2299160.5, 2299159.6, 2461233.123456789, 1.5, 3.25, 2999999.9, 3000001., 2086302.75, 2460000.000001, 2415020.31352, -800.25 };
   static const double gms[3] = { 0, 8.8876925e-10, 2.8253e-7 };      /* Sun, Earth, Jupiter */
   auto run = [&]( Cfg &c, const char *id) { if( c.e.ecc < 1. && 57.3 / c.e.t0 > 9999.) return;   /* faster than any orbit */ std::vector<char> b( 4096, '#'); what = "layout"; vh.states++; const int r = elements_in_mpc_format( b.data( ), b.size( ), &c.e, id, c.cometary, c.format); vh_outcome( r * 100 + ( c.format & 127)); check( c, b.data( ), r, id); };
   /* (1) shapes and sizes of orbit, in every precision and style */
   for( double q : qs) for( double ec : es) for( int cen = 0; cen < 3; cen++) for( int f = 0; f < 128; f++)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; const double gm = cen ? gms[cen] : GM; vh_at( "orbit", (long)( &q - qs), f);
      fill( c.e, q, ec, incls[( n / 7) % 8], ang[( n / 3) % 14], ang[( n / 5) % 14], dates[( n / 11) % 9], dates[( n / 13) % 15], gm);
      if( ec < 1.) c.e.mean_anomaly = ang[( n / 17) % 14];
      c.cometary = ec == 1. && ( f & 1); c.format = f; c.e.central_obj = cen == 0 ? 0 : cen == 1 ? 3 : 5; c.e.is_asteroid = ( n / 2) & 1; c.e.abs_mag = ( n % 3) ? 17.256 - (double)( n % 41) : 0.; c.e.slope_param = c.e.is_asteroid ? .15 : 10.;
      run( c, "2003 AB123");
      }
   /* (2) angles and dates, pairwise, every precision */
   for( double w : ang) for( double nd : ang) for( double inc : incls) for( int pr = 0; pr < 16; pr++) for( int k = 0; k < 3; k++)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; vh_at( "angles", pr, k);
      fill( c.e, 1.234567890123, k == 0 ? .4 : k == 1 ? 1. : 1.5, inc, w, nd, 2455000.5, 2455123.456789, GM); if( k == 0) c.e.mean_anomaly = nd - w;
      c.cometary = k == 1; c.format = pr | ( n & 0x70); c.e.abs_mag = 20.5; c.e.is_asteroid = 1; c.e.slope_param = -.12; run( c, "");
      }
   for( double ep : dates) for( double tp : dates) for( int f = 0; f < 32; f++) for( int cen = -3; cen < 14; cen++)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; vh_at( "dates", f, cen);
      fill( c.e, .9, cen & 1 ? 1.3 : .3, 1., 2., 3., ep, tp, GM); if( !( cen & 1)) c.e.mean_anomaly = 1.; c.cometary = false; c.format = f; c.e.central_obj = cen; run( c, "C/2012 S1");
      }
   for( long d = vh.thorough ? -300000 : 1700000; d < 2999999; d += vh.thorough ? 3 : 101)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; vh_at( "days", d, 0);
      fill( c.e, .9, .3, 1., 2., 3., d + .5 * ( d & 1) + ( d % 7) * .015625, d > 3 ? d + ( d % 10) * .1 : 5., GM); c.e.mean_anomaly = 1.; c.cometary = false; c.format = 0x10 | ( d % 11); run( c, "x");
      }
   /* (3) orbital periods across every change of unit */
   for( double t = 1e-6; t < 1e10; t *= vh.thorough ? 1.0003 : 1.003) for( int cen = 0; cen < 2; cen++)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; vh_at( "period", (long)( t * 1e6), cen); const double gm = cen ? gms[1] : GM; const double a = pow( t * t * gm / GM, 1. / 3.);
      fill( c.e, a * .9, .1, 1., 2., 3., 2455000.5, 2455123.456789, gm); c.e.mean_anomaly = 1.; c.cometary = false; c.format = n & 127; c.e.central_obj = cen * 3; run( c, "x");
      }
   /* (4) buffers of every size: the same text, or the program ends; never a byte outside */
   for( int cfg = 0; cfg < ( vh.thorough ? 48 : 12); cfg++) for( size_t size = 1; size < 700; size++)
      {
      if( !vh_mine( n++)) continue;
      Cfg c; vh_at( "buffer", cfg, (long)size); vh.states++; vh.transitions++;
      fill( c.e, qs[( cfg * 5 + 3) % 14], cfg % 3 == 0 ? .3 : cfg % 3 == 1 ? 1. : 1.7, 1., 2., 3., 2455000.5, 2455123.456789, GM); if( cfg % 3 == 0) c.e.mean_anomaly = 1.; c.cometary = cfg % 3 == 1; c.format = ( cfg * 37) & 127; c.e.abs_mag = cfg & 1 ? 12.3 : 0.; c.e.is_asteroid = ( cfg >> 1) & 1;
      std::vector<char> full( 4096, 0); const int want = elements_in_mpc_format( full.data( ), full.size( ), &c.e, "C/2023 A3", c.cometary, c.format);
      fflush( NULL); const pid_t pid = fork( );
      if( !pid)
         {
         for( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE }) signal( s, SIG_DFL);
         const int fd = open( "/dev/null", O_WRONLY); dup2( fd, 2); dup2( fd, 1);
         char *b = page_end - size; memset( m, '#', page_len);
         const int r = elements_in_mpc_format( b, size, &c.e, "C/2023 A3", c.cometary, c.format);
         size_t used = 0; for( int i = 0; i < r && used < size; i++) used += strnlen( b + used, size - used) + 1;
         bool ok = r == want && used <= size && !memcmp( b, full.data( ), used); for( char *p = m; p < b; p++) ok &= *p == '#';
         _exit( ok ? 0 : 3);
         }
      int st = 0; waitpid( pid, &st, 0);
      const bool ok = ( WIFEXITED( st) && WEXITSTATUS( st) != 3) || ( WIFSIGNALED( st) && WTERMSIG( st) == SIGABRT);
      if( !ok) vh_fail( "buffer", "configuration %d, buffer of %zu bytes: %s", cfg, size, WIFSIGNALED( st) ? "written past its end" : "wrong text"); else vh.validated++;
      vh_outcome( 100000 + cfg * 2 + ( WIFEXITED( st) && !WEXITSTATUS( st)));
      }
   vh_sample( "q 1.2345 e 1.5 precision 7");
   return vh_done( );
}
