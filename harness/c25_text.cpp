/* C25: no text makes a reader crash, hang, read outside it, or answer differently the second time. */
#include "vh.h"
#include <stddef.h>
#include <functional>
#include <sys/resource.h>
#include <setjmp.h>
#include "watdefs.h"
#include "afuncs.h"
#include "date.h"
#include "comets.h"
#include "mpc_func.h"
typedef std::string S;
typedef uint64_t U;
static U H( U h, const void *p, size_t n) { return vh_hash( p, n, h); }
static U HD( U h, double d) { return vh_hash( &d, sizeof( d), h); }
static U HI( U h, long i) { return vh_hash( &i, sizeof( i), h); }
/* text whose terminator is the last byte of its allocation, so that reading on is caught */
struct Exact { char *p; size_t n; explicit Exact( const S &s) : n( s.size( ) + 1) { p = (char *)malloc( n); memcpy( p, s.data( ), s.size( )); p[s.size( )] = 0; } ~Exact( ) { free( p); } };
struct Buf { char *p; explicit Buf( size_t n) { p = (char *)malloc( n); memset( p, 0x5a, n); } ~Buf( ) { free( p); } };

static U f_time( const char *t) { int ut = 0; U h = 1; for( int fmt = 0; fmt < 4; fmt++) { static const int fm[4] = { 0, CALENDAR_JULIAN_GREGORIAN | FULL_CTIME_YMD, FULL_CTIME_DMY, FULL_CTIME_MDY }; const double d = get_time_from_string( 2451545.25, t, fm[fmt], &ut); h = HD( HI( h, ut), d); } return h; }
static U f_timel( const char *t) { int ut = 0; const long double d = get_time_from_stringl( 123.25L, t, FULL_CTIME_YMD, &ut); return HD( HI( 1, ut), (double)d); }
static U f_mpcdate( const char *t) { unsigned f = 77; const double d = extract_date_from_mpc_report( t, &f); const double e = extract_date_from_mpc_report( t, NULL); if( d != e && (d == d || e == e)) vh_fail( "null", "asking for the format changes the date"); return HD( HI( 1, d ? (long)f : 0), d); }
static U f_radec( const char *t)
{ int a = 0, b = 0; double r = 0, d = 0, p = 0, q = 0; const int rv = get_ra_dec_from_mpc_report( t, &a, &r, &p, &b, &d, &q); return HD( HD( HD( HD( HI( HI( HI( 1, rv), a), b), r), d), p), q); }
static U f_net( const char *t) { return HI( 1, net_name_to_byte_code( t)); }
static U hcode( int rv, const mpc_code_t &c)
{ U h = HI( 2, rv); h = HD( HD( HD( HD( HD( h, c.lat), c.lon), c.alt), c.rho_cos_phi), c.rho_sin_phi); h = HI( HI( h, c.planet), c.format); if( c.name) h = H( h, c.name, strlen( c.name)); return H( h, c.code, strlen( c.code)); }
static U f_code( const char *t) { mpc_code_t c; memset( &c, 0, sizeof( c)); const int r = get_mpc_code_info( &c, t); return hcode( r, c); }
static U f_xxx( const char *t) { mpc_code_t c; memset( &c, 0, sizeof( c)); c.name = ""; const int r = get_xxx_location_info( &c, t); return hcode( r, c); }
static U f_latlon( const char *t) { mpc_code_t c; memset( &c, 0, sizeof( c)); c.name = ""; const int r = get_lat_lon_info( &c, t); return hcode( r, c); }
static U f_ra( const char *t) { int n = -1; const double d = get_ra_from_string( t, &n); if( n > (int)strlen( t)) vh_fail( "ra-bytes", "says it read %d bytes of %zu", n, strlen( t)); return HD( HI( 1, n), d); }
static U f_dec( const char *t) { int n = -1; const double d = get_dec_from_string( t, &n); if( n > (int)strlen( t)) vh_fail( "dec-bytes", "says it read %d bytes of %zu", n, strlen( t)); return HD( HI( 1, n), d); }
static U f_pack( const char *t) { Buf b( 13); const int r = create_mpc_packed_desig( b.p, t); if( !memchr( b.p, 0, 13) || strlen( b.p) != 12) vh_fail( "pack-length", "the packed form isn't of 12 characters"); return H( HI( 1, r), b.p, 12); }
static U f_unpack( const char *t) { Buf b( 80); const int r = unpack_mpc_desig( b.p, t); const int r2 = unpack_mpc_desig( NULL, t); if( r != r2) vh_fail( "unpack-null", "%d with a buffer, %d without", r, r2); return H( HI( 1, r), b.p, strnlen( b.p, 80)); }
static U f_unpackun( const char *t) { Buf b( 80); const int r = unpack_unaligned_mpc_desig( b.p, t); return H( HI( 1, r), b.p, strnlen( b.p, 80)); }
static U f_ymd( const char *t) { return HD( 1, extract_yyyymmdd_to_jd( t)); }
static U f_var( const char *t) { return HI( 1, decipher_var_desig( t)); }
static U f_dt( const char *t)
{ U h = 1; reset_td_minus_dt_string( t); static const double y[] = { -3000, -500, 500, 947.9, 948, 1500, 1700, 1955, 2000, 2010, 2050, 3000, 12000 }; for( double x : y) h = HD( h, td_minus_ut( 2451545. + (x - 2000.) * 365.25)); reset_td_minus_dt_string( NULL); return h; }
static U f_mutant( const char *t) { U h = 1; const size_t n = strlen( t); for( size_t k = 0; k <= n && k < 12; k++) h = HI( h, get_mutant_hex_value( t, k)); for( const char *p = t; *p; p++) h = HI( h, mutant_hex_char_to_int( *p)); return h; }
static U f_netbyte( const char *t) { const char *r = byte_code_to_net_name( *t); return r ? H( 1, r, strlen( r)) : 0; }
static U f_replace( const char *t) { Buf b( strlen( t) * 3 + 20); strcpy( b.p, t); const int n = text_search_and_replace( b.p, "00", "<a>"); const int m = text_search_and_replace( b.p, " ", ""); if( strchr( b.p, ' ')) vh_fail( "replace", "still has a blank"); return H( HI( HI( 1, n), m), b.p, strlen( b.p)); }
static S sof_header, sof_line, mpcorb_text, astorb_text;
static U sof( const char *line, const char *hdr)
{ ELEMENTS e; double x[40]; memset( &e, 0, sizeof( e)); memset( x, 0, sizeof( x)); const int r = extract_sof_data_ex( &e, line, hdr, x); U h = HI( 1, r); h = HD( HD( HD( HD( HD( HD( h, e.perih_time), e.q), e.ecc), e.incl), e.arg_per), e.asc_node); return HD( HD( h, e.abs_mag), e.epoch); }
long extract_mpcorb_dat( ELEMENTS *elem, const char *buff);
long extract_astorb_dat( ELEMENTS *elem, const char *buff);
static U catalogue( const char *t, long (*f)( ELEMENTS *, const char *))
{
   ELEMENTS e; memset( &e, 0, sizeof( e)); const long r = f( &e, t), r0 = f( NULL, t);
   if( r != r0) vh_fail( "catalogue-null", "%ld with a record, %ld without", r, r0);
   U h = HI( 1, r); h = HD( HD( HD( HD( HD( HD( h, e.perih_time), e.q), e.ecc), e.incl), e.arg_per), e.asc_node); return HD( HD( HD( h, e.abs_mag), e.slope_param), e.epoch);
}
static U f_mpcorb( const char *t) { return catalogue( t, extract_mpcorb_dat); }
static U f_astorb( const char *t) { return catalogue( t, extract_astorb_dat); }
static U f_sofline( const char *t) { Exact hd( sof_header); return sof( t, hd.p); }
static U f_sofhead( const char *t) { Exact ln( sof_line); return sof( ln.p, t); }
/* a whole stream of lines through the ADES reader */
/* The ADES reader stops the program, by an assertion or the library's own overflow check, on a field that no ADES
   schema allows.  That is its deliberate answer; here it is recorded as one.  Anywhere else it is a failure. */
static jmp_buf refusal; static bool may_refuse = false;
extern "C" void __real_exit( int);
extern "C" void __wrap_exit( int v) { if( may_refuse) longjmp( refusal, 2); __real_exit( v); __builtin_unreachable( ); }
extern "C" void __assert_fail( const char *e, const char *file, unsigned line, const char *fn) noexcept( true)
{
   if( may_refuse) longjmp( refusal, 1);
   fprintf( stdout, "assertion %s at %s:%u in %s\n", e, file, line, fn); fflush( stdout);
   abort( );
}
static U f_ades( const char *t)
{
   FILE *f = fopen( "ades.in", "wb"); fwrite( t, 1, strlen( t), f); fclose( f);
   f = fopen( "ades.in", "rb");
   void *c = init_ades2mpc( ); static U h; h = 1; static long n; n = 0; static Buf b( 300);
   may_refuse = true;
   if( setjmp( refusal)) { h = HI( h, 99); vh.counters["ADES texts refused by an assertion"]++; }
   else { while( fgets_with_ades_xlation( b.p, 300, c, f) > 0 && n < 100000) { h = H( h, b.p, strlen( b.p)); n++; } }
   may_refuse = false;
   if( n >= 100000) vh_fail( "ades-endless", "more than 100000 lines came out");
   free_ades2mpc_context( c); fclose( f);
   return HI( h, n);
}
static U f_eop( const char *t)
{
   FILE *f = fopen( "eop.in", "wb"); fwrite( t, 1, strlen( t), f); fclose( f);
   const int r = load_earth_orientation_params( "eop.in", NULL); U h = HI( 1, r);
   static const double j[] = { 2441000., 2441684.5, 2450000.25, 2458849.5, 2458850.7, 2458852.5, 2470000. };
   for( double x : j) { earth_orientation_params p; memset( &p, 0, sizeof( p)); const int q = get_earth_orientation_params( x, &p, 31); h = HD( HD( HD( HD( HD( HI( h, q), p.dX), p.dY), p.tdt_minus_ut1), p.dPsi), p.dEps); }
   load_earth_orientation_params( NULL, NULL);
   return h;
}

struct T { const char *name; U (*f)( const char *); const char *alpha; int len, tlen; bool fixed; size_t maxrep; std::vector<S> seeds; };
static const S L80 = "     K19S03H  C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12";
static S ades_psv, ades_xml, eop_text;
static std::vector<T> targets( )
{
   return {
   { "get_time_from_string", f_time, "1 :.-+Jmd/n", 4, 5, false, 400, { "2000 Jan 1.5", "1999-12-31T23:59:59.75", "JD 2451545.5", "12:34:56.7", "now+3d", "mjd 51544.5 TD", "3/4/05 6:7:8", "2019 Oct W3 7h8m", "J2000.5", "0.5y", "y2004.25", "Tue", "noon", "-1000 feb 29", "20191231.75", "A2020 K156E5", "2020 15 NOV 3.25 UT", "1:2:3:4", "new moon +2w", "unix 86400", "GPS 1000 3.5" } },
   { "get_time_from_stringl", f_timel, "2:.-J ", 3, 4, false, 400, { "2019-09-26T13:37:48.72", "JD 2458753.06792500", "+1h", "2019 sep 26.567925 TT" } },
   { "extract_date_from_mpc_report", f_mpcdate, "", 0, 0, false, 0, { L80, "     K19S03H  C2019 09 26.56792  00 00 13.041-05 25 38.05         18.6 G      T12", "     K19S03H  CK190926:1334567890 00 13.041-05 25 38.05         18.6 G      T12", "     K19S03H  C2458753.067925    00 00 13.041-05 25 38.05         18.6 G      T12", "     K19S03H  CM58752.567925     00 00 13.041-05 25 38.05         18.6 G      T12" } },
   { "get_ra_dec_from_mpc_report", f_radec, "", 0, 0, true, 0, { L80, "     K19S03H  C2019 09 26.567925 00.0036225  -05.4272361          18.6 G      T12", "     K19S03H  C2019 09 26.567925 003.6225    -05 25.63            18.6 G      T12", "     K19S03H  C2019 09 26.567925 0000130411234-052538051          18.6 G      T12" } },
   { "net_name_to_byte_code", f_net, "Ga1-DR. ", 5, 6, false, 5000, { "Gaia-DR2", "USNO-B1.0", "Gaia DR1.0", "UCAC-4" } },
   { "byte_code_to_net_name", f_netbyte, "", 0, 0, false, 3, { "V" } },
   { "get_mpc_code_info", f_code, "0 -.@x", 4, 5, false, 3000, { "T12 204.530440.941706+0.337237University of Hawaii 88\" telescope, Maunakea", "247                           Roving Observer", "Abc !-110.789   +32.4165  2510  Mt. Lemmon", "500   0.000000.000000 0.000000Geocentric", "XYZ !12 34 56.7 -12 34 56  1234 x @4" } },
   { "get_xxx_location_info", f_xxx, "COM 1-.", 4, 5, false, 3000, { "COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth", "COM Long. 239.3 W, Lat. 33.9 S, Alt. 1000 ft", "COM Long. 1 2 3 E Lat. -3 Alt. 5" } },
   { "get_lat_lon_info", f_latlon, "N1d W,.m", 4, 5, false, 3000, { "n44.01 w69.9", "N 44 1 2, W 69 53 57, 100m", "E144d1'13.5\" S31 16 24 3000ft", "44.01N69.9W", "s 31, e149, 1165 m Siding Spring @3" } },
   { "get_ra_from_string", f_ra, "1hms: .d", 5, 6, false, 3000, { "12h34m56.7s", "12 34 56.78", "123.456d", "12:34.5", "0.5", "23h59.99" } },
   { "get_dec_from_string", f_dec, "1+-: .", 5, 6, false, 3000, { "-12 34 56.7", "+12.5", "-0:30", "S 12 34", "89 59 59.99" } },
   { "create_mpc_packed_desig", f_pack, "20 A/P-V", 5, 6, false, 3000, { "2003 YL1234", "(433)", "1995 O1", "C/1995 O1", "P/1994 N2-A", "12P", "133P", "4142 T-3", "C/2017 U1-B", "Jupiter XLVIII", "S/2003 J 22", "2019-092A", "A/2017 U1", "1P", "620001", "2021 SA12345678", "NEOCP12", "D/1993 F2-AB", "73P-BB", "Uranus IV", "(15396300)" } },
   { "unpack_mpc_desig", f_unpack, "", 0, 0, true, 0, { "     K03Y12D3", "00433       ", "     J95O01A", "    CJ95O010", "0012P       ", "0073P     bb", "     T3S4142", "    DJ93F02b", "J048S       ", "    SK03J220", "    PJ94N02a", "~0000       ", "     _OA00aB", "0433K03Y12D3", " 19092A     ", "     P0xY7Zq" } },
   { "unpack_unaligned", f_unpackun, "K0A3P S", 4, 5, false, 0, { "K03Y12D", "00433", "CJ95O010", "0012P", "0073Pbb", "~0000", "_OA00aB", "J048S" } },
   { "extract_yyyymmdd_to_jd", f_ymd, "1.9- ", 6, 8, false, 2000, { "20200131.123", "19991231", "99999999.9", "-1231" } },
   { "decipher_var_desig", f_var, "RZVa1 ", 5, 6, false, 2000, { "RR", "V1234", "QZ", "Z", "V335" } },
   { "delta-T text", f_dt, "1,:;-.", 4, 5, false, 500, { "-10000,948:2715.6,573.36,46.5;948,1620:50.6,67.5,22.5", "1900,2100:60;2100,3000:70,1", "0,9999:1,2,3,4,5,6,7,8" } },
   { "mutant hex", f_mutant, "0Az~_", 5, 6, false, 1000, { "0123", "zzzz", "A~9z" } },
   { "text_search_and_replace", f_replace, "0 a", 7, 9, false, 2000, { "00 00 000 0", "a00" } },
   { "MPCORB line", f_mpcorb, "", 0, 0, false, 0, { mpcorb_text, mpcorb_text.substr( 0, 160) + "\n" } },
   { "astorb line", f_astorb, "", 0, 0, false, 0, { astorb_text, astorb_text + "\n" } },
   { "SOF line", f_sofline, "", 0, 0, false, 0, { sof_line } },
   { "SOF header", f_sofhead, "", 0, 0, false, 0, { sof_header } },
   { "Earth orientation file", f_eop, "", 0, 0, false, 0, { eop_text } },
   { "ADES stream", f_ades, "", 0, 0, false, 600, { ades_psv, ades_xml, L80 + " 0.050 0.049\n", L80 + "\n" + L80 + "\n" } },
   };
}
static U case_no;
static S prev_text; static U prev_h; static bool have_prev;
static void run( const T &t, const S &s)
{
   Exact e( s);
   vh_ats( t.name, s.substr( 0, 650).c_str( ));
   const U h = t.f( e.p);
   vh.states++; vh.transitions++;
   if( !(vh.states % 7))                    /* again, after another text: the answer is the text's alone */
      {
      if( have_prev)
         {
         Exact p( prev_text);
         vh_ats( t.name, prev_text.substr( 0, 650).c_str( ), "(again)");
         if( t.f( p.p) != prev_h) vh_fail( "again", "%s: the same text gives another answer the second time", t.name);
         vh.transitions++; vh.validated++;
         }
      prev_text = s; prev_h = h; have_prev = true;
      }
   vh_outcome( h);
}
static void all_short( const T &t)
{
   const int n = (int)strlen( t.alpha), L = vh.thorough ? t.tlen + 1 : t.len;
   if( !n) return;
   for( int len = 0; len <= L; len++)
      {
      U tot = 1; for( int i = 0; i < len; i++) tot *= n;
      S s( len, ' ');
      for( U k = 0; k < tot; k++)
         {
         if( !vh_mine( case_no++)) continue;
         U v = k; for( int i = 0; i < len; i++) { s[i] = t.alpha[v % n]; v /= n; }
         run( t, s);
         }
      }
}
static void mutate( const T &t)
{
   static const char some[] = "0 9Aaz.-+:/,;'\"<>|=@#%~_(!*\t\n\r\x01\x7f\x80\xe9\xff" "1EWNTdhm";
   const int ns = (int)sizeof( some) - 1;
   for( auto &sd : t.seeds)
      {
      if( sd.empty( )) { vh_fail( "seed", "%s has an empty example", t.name); continue; }
      if( vh_mine( case_no++)) run( t, sd);
      for( size_t i = 0; i <= sd.size( ); i++)
         {
         if( !t.fixed && vh_mine( case_no++)) run( t, sd.substr( 0, i));
         if( !t.fixed && vh_mine( case_no++)) run( t, sd.substr( i));
         if( i < sd.size( ))
            {
            const int all = (sd.size( ) < 200 || vh.thorough) ? 255 : ns;
            for( int c = 1; c <= all; c++) if( vh_mine( case_no++)) { S s = sd; s[i] = all == 255 ? (char)c : some[c - 1]; if( s[i]) run( t, s); }
            if( !t.fixed && vh_mine( case_no++)) { S s = sd; s.erase( i, 1); run( t, s); }
            for( size_t j = i + 1; j < sd.size( ) && sd.size( ) < 100; j++)
               {
               if( !t.fixed && vh_mine( case_no++)) run( t, sd.substr( i, j - i));
               if( !t.fixed && vh_mine( case_no++)) { S s = sd; s.erase( i, j - i); run( t, s); }
               static const char two[] = " 9z.-"; 
               for( int a = 0; a < (vh.thorough ? 5 : 2); a++) for( int b = 0; b < (vh.thorough ? 5 : 2); b++) if( vh_mine( case_no++)) { S s = sd; s[i] = two[a]; s[j] = two[b]; run( t, s); }
               }
            }
         if( !t.fixed) for( int c = 0; c < ns; c++) if( vh_mine( case_no++)) { S s = sd; s.insert( i, 1, some[c]); run( t, s); }
         for( const char *c = "9.A-"; *c && i < sd.size( ); c++)      /* no blanks from here on;  nothing but one character from here on */
            {
            if( vh_mine( case_no++)) { S s = sd; for( size_t j = i; j < s.size( ); j++) if( s[j] == ' ') s[j] = *c; run( t, s); }
            if( vh_mine( case_no++)) { S s = sd; for( size_t j = i; j < s.size( ); j++) if( s[j] != '\n') s[j] = *c; run( t, s); }
            }
         if( t.maxrep && !t.fixed)
            {
            for( size_t r : { (size_t)20, (size_t)79, (size_t)100, (size_t)300, t.maxrep }) for( int c : { '9', ' ', 'A', '.', '-' }) if( vh_mine( case_no++)) { S s = sd; s.insert( i, r, (char)c); run( t, s); }
            if( vh_mine( case_no++)) if( i < sd.size( )) { S s; while( s.size( ) < t.maxrep) s += sd.substr( i); run( t, s); }
            }
         }
      for( auto &o : t.seeds) if( &o != &sd && o.size( ) < 200 && sd.size( ) < 200)
         for( size_t i = 0; i <= sd.size( ); i++) if( vh_mine( case_no++))
            { S s = sd.substr( 0, i); if( t.fixed) { if( i < o.size( )) s += o.substr( i); else s = o; if( s.size( ) != sd.size( )) continue; } else s += o; run( t, s); }
      }
}
static void examples( )
{
   mpcorb_text = "00001    3.34  0.12 K194R 120.00000   73.59764   80.30553   10.59407  0.0775571  0.21406009   2.7676569  0 MPO492748  6751 115 1801-2019 0.60 M-v 30h Williams   0000              (1) Ceres              20190915";
   astorb_text = S( 270, ' ');
   static const struct { int at; const char *s; } cols[] = { { 0, "     1 Ceres              L.H. Wasserman" }, { 42, " 3.34" }, { 49, " 0.12" }, { 106, "20140523" }, { 115, " 10.557500" }, { 126, " 72.292215" }, { 137, " 80.327634" }, { 147, " 10.593977" }, { 158, "0.07582200" }, { 169, "  2.76750591" }, { 182, "20140416 2.7E-02  1.4E-04 20140518 3.2E-02 20141230 3.0E-02 20201203 2.3E-02 20221201" } };
   for( auto &c : cols) astorb_text.replace( c.at, strlen( c.s), c.s);
   sof_header = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tlast   .  |H .  |G . ";
   sof_line   = "    1I      20170909.48890  20171014  0.25528974 122.69127  24.59903 241.69429 1.19951335  0.47   207 20180102.4 22.4  0.15";
   eop_text = "73 1 2 41684.00 I  0.120733 0.009786  0.136966 0.015902  I 0.8084178 0.0002710  0.0000 0.1916  P    -0.766    0.199    -0.720    0.300   .143000   .137000   .8075000   -18.637    -3.667  \n"
              "191231 58848.00 I  0.077191 0.000091  0.281781 0.000091  I-0.1768281 0.0000080  0.3957 0.0060  I     0.144    0.064     0.035    0.160   .077300   .281600  -.1768900      .200     -.100  \n"
              "20 1 1 58849.00 I  0.076577 0.000091  0.282336 0.000091  I-0.1771554 0.0000080  0.2661 0.0060  I     0.129    0.064     0.018    0.160   .076700   .282400  -.1772200      .200     -.100  \n"
              "20 1 2 58850.00 I  0.075874 0.000091  0.283117 0.000091  I-0.1773600 0.0000080  0.1600 0.0060  I     0.113    0.064     0.001    0.160   .075900   .283100  -.1774200      .200     -.100  \n";
   ades_psv = "# version=2017\n# observatory\n! mpcCode T12\n# telescope\n! design reflector\n! aperture 2.2\npermID |provID     |trkSub  |mode|stn |obsTime                 |ra         |dec        |rmsRA|rmsDec|astCat|mag  |band|remarks\n"
              "       |2019 SH3   |        |CCD |T12 |2019-09-26T13:37:48.72Z |  0.0543375| -5.4272361|0.05 |0.049 |Gaia2 |18.6 |G   |x y\n433    |           |abc12   |CCD |247 |2019-09-26T13:37:48Z    |  1.5      | -5.4      |0.05 |0.049 |Gaia2 |18.6 |G   |\n";
   ades_xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ades version=\"2017\">\n<obsBlock><obsData>\n<optical>\n<permID>433</permID><mode>CCD</mode>\n<stn>T12</stn><obsTime>2019-09-26T13:37:48.72Z</obsTime>\n<ra>1.5</ra><dec>-5.25</dec>\n<rmsRA>0.1</rmsRA><rmsCorr>-0.25</rmsCorr><astCat>Gaia2</astCat><mag>18.6</mag><band>G</band>\n</optical>\n"
              "<optical><provID>2019 SH3</provID><mode>CCD</mode><stn>C51</stn><sys>ICRF_KM</sys><ctr>399</ctr><pos1>1234.5</pos1><pos2>-345.25</pos2><pos3>12.</pos3><obsTime>2019-09-26T13:37:49Z</obsTime><ra>1.5</ra><dec>-5.25</dec><astCat>Gaia2</astCat></optical>\n</obsData></obsBlock>\n</ades>\n";
}
/* every ADES field with every shape and length of value, in both of ADES's forms and in both kinds of observation */
static void ades_fields( const T &t)
{
   static const char *tags[] = { "mpcCode", "name", "line", "institution", "stn", "obsTime", "band", "mode", "deprecated", "disc", "ref", "prog", "sys", "ctr", "vel1",
      "vel3", "pos1", "pos2", "pos3", "ra", "dec", "astCat", "rmsRA", "notes", "rmsDec", "rmsCorr", "rmsTime", "rmsMag", "provID", "permID", "artSat", "trkSub", "trkID",
      "obsID", "mag", "trkMPC", "remarks", "raStar", "deltaRA", "com", "frq", "optical", "radar", "obsContext", "nosuchtag", "x" };
   static const char *fill[] = { "9", "A", ".", "-", "1.", "1e9", "<", "\xe9", "9 ", "z-", "0.0", "+1" };
   static const char *start[] = { "", "-", "+", "2019-09-26T", "12.", "MPS ", "MPEC 2021-", "MPC ", "20 ", "P" };
   static const char *before[] = { "", "<sys>ICRF_KM</sys>", "<sys>ICRF_AU</sys>", "<sys>WGS84</sys>" };
   const int lens[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 24, 25, 26, 27, 28, 36, 37, 38, 39, 40, 41, 60, 200, 210, 221, 240, 296, 298, 299, 300, 600 };
   for( auto tag : tags) for( auto f : fill) for( auto st : start) for( int n : lens)
      {
      if( !vh.thorough && n && (n & 1) && (n + f[0] + tag[0]) % 3) continue;       /* quick: a third of the odd lengths */
      if( !vh.thorough && st[0] == 'M' && strlen( st) > 4) continue;
      S v = st; while( (int)v.size( ) < n) v += f;
      for( auto b : before) if( (vh.thorough || !*b || strstr( "sys pos1 pos2 pos3 vel1 vel3 ctr stn mode", tag)) && vh_mine( case_no++))
         run( t, S( "<ades version=\"2017\">\n<obsData>\n<optical>\n<permID>433</permID>\n") + b + "\n<" + tag + ">" + v + "</" + tag + ">\n<rmsRA>0.1</rmsRA></optical>\n</obsData></ades>\n");
      if( vh_mine( case_no++)) run( t, S( "permID|mode|stn|obsTime|ra|dec|") + tag + "\n433|CCD|T12|2019-09-26T13:37:48Z|12.5|-3.5|" + v + "\n433|CCD|T12|2019-09-26T13:37:48Z|12.5|-3.5|1\n");
      if( vh_mine( case_no++)) run( t, S( "# version=2017\n# ") + tag + "\n! name " + v + "\n# " + tag + "\n! " + tag + " " + v + "\n! " + v + "\n");
      }
}
int main( int argc, char **argv)
{
   examples( );
   vh_init( argc, argv);
   struct rlimit rl; rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit( RLIMIT_FSIZE, &rl);
   stderr = fopen( "/dev/null", "w");
   std::vector<T> ts = targets( );
   for( auto &t : ts)
      {
      if( vh.only && strcmp( vh.only, t.name)) continue;
      have_prev = false;
      const U s0 = vh.states;
      all_short( t);
      mutate( t);
      if( t.f == f_ades) ades_fields( t);
      vh.counters[S( "texts given to ") + t.name] += vh.states - s0;
      }
   vh_sample( "%zu readers of text", ts.size( ));
   return vh_done( );
}
