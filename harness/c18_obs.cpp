/* C18: observatory code records, rovers, XXX comment lines, typed places and regions. */
#include "vh.h"
#include "watdefs.h"
#include "lunar.h"
#include "mpc_func.h"
int extract_region_data_for_lat_lon( FILE *ifile, char *buff, const double lat_in_degrees, const double lon_in_degrees);
static const double PI = 3.14159265358979323846;
static const double D2R = PI / 180.;

/* Text placed so that its terminator is the last byte of its own allocation. */
struct Exact
{
   char *p = nullptr;
   Exact( const std::string &s) { p = (char *)malloc( s.size( ) + 1); memcpy( p, s.c_str( ), s.size( ) + 1); }
   ~Exact( ) { free( p); }
};
static bool near( double a, double b, double tol) { return fabs( a - b) <= tol; }
static void parallax( int body, double lat, double alt, double *rc, double *rs)
{
   const double a = planet_radius_in_meters( body), b = a * planet_axis_ratio( body);
   if( !a) { *rc = *rs = 0.; return; }
   const long double e2 = 1. - ((long double)b / a) * ((long double)b / a), sl = sinl( lat), cl = cosl( lat);
   const long double n = 1. / sqrtl( 1. - e2 * sl * sl);
   *rc = (double)((n + alt / a) * cl); *rs = (double)((n * (1. - e2) + alt / a) * sl);
}
static std::string padto( std::string s, size_t n) { while( s.size( ) < n) s += ' '; return s; }
static std::string fmt( const char *f, ...) { char b[300]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return b; }

static mpc_code_t c;
static int info( const std::string &s, Exact &e)
{
   vh_ats( "get_mpc_code_info", s.c_str( ));
   memset( &c, 0xa5, sizeof( c));
   vh.states++; vh.transitions++;
   return get_mpc_code_info( &c, e.p);
}
static void failed_defaults( const std::string &s, const char *key)
{
   Exact e( s);
   const int rc = info( s, e);
   std::string code = s.substr( 0, 4);
   if( code.size( ) == 4 && code[3] == ' ') code.erase( 3);
   if( rc != -1 || c.planet != 3 || strcmp( c.name, "Unkn") || strcmp( c.code, code.c_str( )))
      vh_fail( key, "'%s' isn't a valid record: returns %d, planet %d, name '%s', code '%s'", s.c_str( ), rc, c.planet, c.name, c.code);
   else vh.validated++;
}
static std::string dec_field( double v, int ndig, int width, int point, char sign)
{  /* v with its decimal point in column 'point' of a field of 'width' */
   std::string d = fmt( "%.*f", ndig, fabs( v));
   if( !ndig) d += '.';
   if( d[0] == '0' && point == 1 && sign) ;
   size_t dot = d.find( '.');
   std::string r( width, ' ');
   for( size_t i = 0; i < d.size( ); i++)
      { const int pos = point - (int)dot + (int)i; if( pos >= 0 && pos < width) r[pos] = d[i]; }
   if( sign) r[0] = sign;
   return r;
}
static void obscodes( )
{
   static const char *codes[] = { "568", "Z99", "000", "A#~", "z'*" };
   static const char *names[] = { "", "Mauna Kea", "  indented", "Pic du Midi (T\xe9lescope)", "name, with 'odd' bits ! and @4", "x\n", "y\r\n" };
   std::vector<double> lons, rhos;
   for( int i = 0; i < (vh.thorough ? 72 : 24); i++) lons.push_back( 360. * i / (vh.thorough ? 72 : 24) + (i % 5 ? .12345 * i / 24 : 0.));
   lons.push_back( 359.99999); lons.push_back( 179.99999); lons.push_back( 180.00001); lons.push_back( .00001); lons.push_back( 99.99999);
   static const double lat[] = { 0., 1e-6, .3, -.3, 44., -44., 60., 89.9999, 90., -90., -89., -1e-3 };
   static const double alts[] = { 0., -50., 4200., 100000. };
   for( double la : lat) for( double al : alts) { double rc, rs; parallax( 3, la * D2R, al, &rc, &rs); rhos.push_back( rc); rhos.push_back( rs); }
   rhos.push_back( 0.); rhos.push_back( 0.);
   uint64_t idx = 0;
   for( size_t li = 0; li < lons.size( ); li++) for( int p1 = 0; p1 <= 5; p1++)
      for( size_t ri = 0; ri < rhos.size( ); ri += 2) for( int p2 = 0; p2 <= 6; p2++)
         {
         if( !vh_mine( idx++)) continue;
         const size_t k = li + ri + p1 + p2;
         const char *nm = names[k % 7], *code = codes[k % 5];
         const char sign = rhos[ri + 1] < 0 ? '-' : (k & 8) ? '+' : ' ';
         std::string s = std::string( code) + " " + dec_field( lons[li], p1, 9, 3, 0) + dec_field( rhos[ri], p2, 8, 1, 0) + dec_field( rhos[ri + 1], p2 > 6 ? 6 : p2, 9, 2, sign) + nm;
         Exact e( s);
         const int rc = info( s, e);
         const double wl = atof( s.substr( 4, 9).c_str( )), wc = atof( s.substr( 13, 8).c_str( )), ws = (sign == '-' ? -1. : 1.) * atof( s.substr( 22, 8).c_str( ));
         if( rc != 3 || c.planet != 3 || c.format != MPC_CODE_PARALLAXES) { vh_fail( "standard", "'%s' returns %d, planet %d, format %d", s.c_str( ), rc, c.planet, c.format); continue; }
         bool ok = true;
         if( strcmp( c.code, code) || c.name != e.p + 30) { ok = false; vh_fail( "standard-text", "'%s': code '%s' or name wrong", s.c_str( ), c.code); }
         if( !near( c.lon, wl * D2R, 1e-14 + 1e-15 * wl) || !near( c.rho_cos_phi, wc, 1e-15) || !near( c.rho_sin_phi, ws, 1e-15))
            { ok = false; vh_fail( "standard-values", "'%s': %.9f %.9f %.9f", s.c_str( ), c.lon / D2R, c.rho_cos_phi, c.rho_sin_phi); }
         if( c.prec1 != p1 || c.prec2 != p2) { ok = false; vh_fail( "standard-precision", "'%s': %d and %d digits, should be %d and %d", s.c_str( ), c.prec1, c.prec2, p1, p2); }
         double bc = 0., bs = 0.;
         if( wc || ws) parallax( 3, c.lat, c.alt, &bc, &bs);
         else if( c.lat || c.alt) { ok = false; vh_fail( "standard-geocentre", "'%s': latitude %g, height %g", s.c_str( ), c.lat, c.alt); }
         if( !near( bc, wc, 1e-9) || !near( bs, ws, 1e-9)) { ok = false; vh_fail( "standard-latitude", "'%s': latitude %.8f, height %.2f m amount to %.9f %.9f", s.c_str( ), c.lat / D2R, c.alt, bc, bs); }
         if( ok) vh.validated++;
         vh_outcome( vh_hash( &c.lat, 8) ^ vh_hash( &c.lon, 8));
         }
   /* damage, every column that has a fixed meaning, every byte */
   const std::string good = "568 204.527800.941701+0.337237Mauna Kea";
   static const int cols[] = { 3, 7, 14, 21, 23 };
   for( int cc : cols) for( int ch = 1; ch < 256; ch++)
      {
      if( !vh_mine( idx++)) continue;
      std::string s = good; s[cc] = (char)ch;
      const bool fine = cc == 3 ? ch == ' ' : cc == 21 ? (ch == '+' || ch == '-' || ch == ' ') : ch == '.';
      if( !fine) failed_defaults( s, "standard-damaged");
      }
   for( size_t n = 0; n <= good.size( ); n++)
      if( vh_mine( idx++))
         {
         if( n < 30) failed_defaults( good.substr( 0, n), "standard-short");
         else { std::string s = good.substr( 0, n); Exact e( s); if( info( s, e) != 3 || c.name != e.p + 30) vh_fail( "standard-cut", "'%s' isn't accepted", s.c_str( )); else vh.validated++; }
         }
   /* every byte in every column: nothing worse than a rejection; and satellites */
   for( size_t col = 0; col < good.size( ); col++) for( int ch = 1; ch < 256; ch++)
      if( vh_mine( idx++))
         { std::string s = good; s[col] = (char)ch; Exact e( s); const int rc = info( s, e); if( rc == -1 ? c.planet != 3 : (rc != 3 || strncmp( c.code, s.c_str( ), 3) || !(c.lon >= 0.))) vh_fail( "standard-any", "'%s' returns %d", s.c_str( ), rc); else vh.validated++; }
   for( const char *code : codes) for( const char *nm : names)
      if( vh_mine( idx++))
         {
         if( !*nm || *nm == ' ') continue;
         std::string s = padto( code, 30) + nm;
         Exact e( s);
         const int rc = info( s, e);
         if( rc != -2 || c.format != MPC_CODE_SATELLITE || c.name != e.p + 30 || strcmp( c.code, code) || c.lat || c.lon || c.alt || c.rho_cos_phi || c.rho_sin_phi)
            vh_fail( "satellite", "'%s' returns %d, format %d", s.c_str( ), rc, c.format);
         else vh.validated++;
         }
   for( int n = 0; n < 7; n++) if( n != 3 && n != 4 && vh_mine( idx++))
      failed_defaults( std::string( "ABCDEFG").substr( 0, n) + " 204.527800.941701+0.337237Mauna Kea", "code-length");
}
/* ddmmss.s text of an angle */
static void rovers( )
{
   static const char *codes[] = { "568 ", "Rov ", "zCdE", "0123" };
   static const double lats[] = { 0., 1. / 3600., .5, 19. + 49. / 60. + 34.25 / 3600., 45., 59. + 59. / 60. + 59.5 / 3600., 89.5, 90. };
   static const double lons[] = { 0., 1. / 3600., 9. / 60., 12.5, 90., 155.25 + 7.5 / 3600., 180., 204.5278, 270., 359. + 59. / 60. + 59.5 / 3600. };
   static const double alts[] = { 0., -430.25, .5, 100., 4205., 9e+5 };
   static const int bodies[] = { -99, 0, 1, 3, 4, 5, 9, 10, 14, 15, 100, 8999, 9000, 9001, 9999 };
   uint64_t idx = 0;
   for( double la0 : lats) for( int ls = 0; ls < 2; ls++) for( double lo0 : lons) for( int os = 0; os < 2; os++) for( double al : alts)
      for( int body : bodies) for( int form = 0; form < 4; form++)
         {
         if( !vh_mine( idx++)) continue;
         if( (ls && !la0) || (os && (!lo0 || lo0 > 181.))) continue;
         const double la = ls ? -la0 : la0, lo = os ? -lo0 : lo0;
         const char *code = codes[(idx / 7) % 4];
         std::string tlo, tla;
         bool sexa = form >= 2;
         if( sexa)
            {
            auto dms = []( double a) { const double f = fabs( a) * 3600.; const long s = (long)floor( f + 1e-6); return fmt( "%s%ld%02ld%05.2f", a < 0 ? "-" : "", s / 3600, s / 60 % 60, (double)(s % 60) + (f - (double)s < 1e-5 ? 0. : f - (double)s)); };
            tlo = dms( lo); tla = dms( la);
            if( fabs( atof( tlo.c_str( ))) <= 361. && fabs( atof( tla.c_str( ))) <= 91.) continue;     /* read as decimal */
            }
         else { tlo = fmt( "%.7f", lo); tla = fmt( "%.7f", la); }
         std::string s = std::string( code) + "!" + (form & 1 ? "  " : "") + tlo + ((form & 1) ? "   " : " ") + tla + " " + fmt( "%.2f", al);
         s = padto( s, 47) + ((idx & 16) ? "" : "Somewhere");
         if( body != -99) s += fmt( " @%d", body);
         Exact e( s);
         const int rc = info( s, e), wb = body == -99 ? 3 : body;
         bool ok = true;
         if( rc != wb || c.planet != wb || c.format != MPC_CODE_LAT_LON_ALT) { vh_fail( "rover", "'%s' returns %d, planet %d, format %d", s.c_str( ), rc, c.planet, c.format); continue; }
         std::string wcode = code; if( wcode[3] == ' ') wcode.erase( 3);
         if( strcmp( c.code, wcode.c_str( )) || strcmp( c.name, e.p + 47)) { ok = false; vh_fail( "rover-text", "'%s': code '%s' name '%s'", s.c_str( ), c.code, c.name); }
         double wla = (sexa ? la : atof( tla.c_str( ))) * D2R, wlo = (sexa ? lo : atof( tlo.c_str( ))) * D2R, wal = atof( fmt( "%.2f", al).c_str( ));
         if( wb > 9000) wla = wlo = wal = 0.;
         if( wlo < 0) wlo += PI + PI;
         const double tol = sexa ? 1e-10 : 2e-15;
         if( !near( c.lat, wla, tol) || !near( c.lon, wlo, tol) || !near( c.alt, wal, 1e-9)) { ok = false; vh_fail( sexa ? "rover-base60" : "rover-place", "'%s': %.9f %.9f %.3f", s.c_str( ), c.lon / D2R, c.lat / D2R, c.alt); }
         double rcp = 0., rsp = 0.;
         if( wla || wlo || wal) parallax( wb, wla, wal, &rcp, &rsp);
         if( !near( c.rho_cos_phi, rcp, tol * 4. + 2e-15 * (1 + fabs( rcp))) || !near( c.rho_sin_phi, rsp, tol * 4. + 2e-15 * (1 + fabs( rsp))))
            { ok = false; vh_fail( !planet_radius_in_meters( wb) ? "rover-unknown-size" : (wla && wlo) ? "rover-parallax" : "rover-parallax-axis", "'%s': parallax constants %.9f %.9f, should be %.9f %.9f", s.c_str( ), c.rho_cos_phi, c.rho_sin_phi, rcp, rsp); }
         if( ok) vh.validated++;
         vh_outcome( vh_hash( &c.rho_sin_phi, 8) ^ vh_hash( &c.lon, 8));
         }
   /* cut short or unreadable */
   const std::string good = "Rov ! 204.5278   19.8261    4205.0            Somewhere @4";
   for( size_t n = 0; n <= good.size( ); n++)
      if( vh_mine( idx++))
         {
         std::string s = good.substr( 0, n);
         if( n < 30) { failed_defaults( s, "rover-short"); continue; }
         Exact e( s);
         const int rc = info( s, e), want = n == good.size( ) ? 4 : n == good.size( ) - 1 ? 0 : 3;
         if( rc != want) vh_fail( "rover-cut", "'%s' returns %d", s.c_str( ), rc);
         else if( strcmp( c.name, n > 47 ? e.p + 47 : "")) vh_fail( "rover-cut-name", "'%s': name '%s'", s.c_str( ), c.name);
         else vh.validated++;
         }
   for( size_t col = 5; col < 35; col++)
      if( vh_mine( idx++) && good[col] == ' ' && good[col + 1] != ' ')
         { std::string s = good; s[col + 1] = 'x'; failed_defaults( s, "rover-damaged"); }
}

/* free-form places.  Each angle in one of several forms, giving back its value */
struct Ang { std::string t; double v; bool is_int; int fields; };
static std::vector<Ang> angles( bool lon)
{
   std::vector<Ang> r;
   static const int degs[] = { 0, 7, 44, 89 }, ldegs[] = { 0, 9, 69, 179, 223, 359 };
   const int *d = lon ? ldegs : degs, nd = lon ? 6 : 4;
   for( int i = 0; i < nd; i++)
      {
      r.push_back( { fmt( "%d", d[i]), (double)d[i], true, 1 });
      r.push_back( { fmt( "%d.", d[i]), (double)d[i], false, 1 });
      r.push_back( { fmt( "%02d.4375", d[i]), d[i] + .4375, false, 1 });
      r.push_back( { fmt( "%d 1", d[i]), d[i] + 1. / 60., true, 2 });
      r.push_back( { fmt( "%d 59.99", d[i]), d[i] + 59.99 / 60., false, 2 });
      r.push_back( { fmt( "%d  07 0", d[i]), d[i] + 7. / 60., true, 3 });
      r.push_back( { fmt( "%d 54 01.75", d[i]), d[i] + 54. / 60. + 1.75 / 3600., false, 3 });
      r.push_back( { fmt( "%d 00 59", d[i]), d[i] + 59. / 3600., true, 3 });
      }
   r.push_back( { lon ? "180" : "90", lon ? 180. : 90., true, 1 });
   r.push_back( { lon ? "360" : "90.000", lon ? 360. : 90., lon, 1 });
   r.push_back( { lon ? "360 0 0.001" : "90 0 0.001", (lon ? 360. : 90.) + .001 / 3600., false, 3 });
   r.push_back( { lon ? "400.5" : "91", lon ? 400.5 : 91., !lon, 1 });
   r.push_back( { "7 61", -1., true, 2 });       /* no such angle */
   r.push_back( { "7 3 75.5", -1., false, 3 });
   return r;
}
static void places( )
{
   const std::vector<Ang> A[2] = { angles( false), angles( true) };
   struct Alt { const char *t; double v; };
   static const Alt alts[] = { { "", 100. }, { " 1700m", 1700. }, { " 1700.5 m", 1700.5 }, { " 1000ft", 304.8 }, { " 12.5 ft", 3.81 }, { " Alt. 1700m", 1700. }, { " alt 0m", 0. }, { " ALT.33 ft", 33 * .3048 }, { " 1700", 100. }, { " 17 30m", 100. } };
   uint64_t idx = 0;
   for( int order = 0; order < 2; order++)
      for( size_t i = 0; i < A[order].size( ); i++) for( size_t j = 0; j < A[!order].size( ); j++)
         for( int hemi = 0; hemi < 4; hemi++) for( int st = 0; st < 16; st++) for( int sep = 0; sep < 3; sep++)
            {
            if( !vh_mine( idx++)) continue;
            const Ang &a = A[order][i], &b = A[!order][j];
            const bool lon_first = order;
            auto letter = [&]( bool lon, bool lower) { char ch = lon ? (hemi & 1 ? 'W' : 'E') : (hemi & 2 ? 'S' : 'N'); return std::string( 1, lower ? (char)tolower( ch) : ch); };
            const bool pre1 = st & 1, pre2 = st & 2, gap = st & 4, lower = st & 8;
            static const char *seps[3] = { ",", ", ", " " };
            if( sep == 2 && !pre2 && pre1 && a.is_int && a.fields < 3) continue;    /* the two run together */
            auto put = [&]( const Ang &x, bool lon, bool pre) { return pre ? letter( lon, lower) + (gap ? " " : "") + x.t : x.t + (gap ? " " : "") + letter( lon, lower); };
            const std::string base = put( a, lon_first, pre1) + seps[sep] + put( b, !lon_first, pre2);
            for( int k = 0; k < 10; k++)
               {
               if( (i + j) % 5 && k > 1 && !vh.thorough) break;
               const bool comma = (idx + k) & 1;
               if( *alts[k].t && !comma && pre2 && b.is_int && b.fields < 3 && tolower( alts[k].t[1]) != 'a') continue;
               const std::string s = base + (*alts[k].t && comma ? "," : "") + alts[k].t;
               Exact e( s);
               vh_ats( "get_lat_lon_info", s.c_str( ));
               memset( &c, 0xa5, sizeof( c));
               const int rc = get_lat_lon_info( &c, e.p);
               vh.states++; vh.transitions++;
               double lon = lon_first ? a.v : b.v, lat = lon_first ? b.v : a.v;
               bool good = lat >= 0. && lon >= 0.;
               if( hemi & 1) lon = -lon;
               if( hemi & 2) lat = -lat;
               if( lon < 0.) lon += 360.;
               if( lat < -90. || lat > 90. || lon < 0. || lon > 360.) good = false;
               if( !good) { if( rc != -1) vh_fail( "place-range", "'%s' is accepted", s.c_str( )); else vh.validated++; continue; }
               if( rc) { vh_fail( "place", "'%s' isn't accepted", s.c_str( )); continue; }
               double rcp, rsp; parallax( 3, lat * D2R, alts[k].v, &rcp, &rsp);
               if( !near( c.lat, lat * D2R, 2e-15) || !near( c.lon, lon * D2R, 4e-15)) vh_fail( "place-angles", "'%s' is read as longitude %.9f, latitude %.9f", s.c_str( ), c.lon / D2R, c.lat / D2R);
               else if( !near( c.alt, alts[k].v, 1e-9)) vh_fail( "place-height", "'%s' is read with height %.3f m", s.c_str( ), c.alt);
               else if( !near( c.rho_cos_phi, rcp, 2e-14) || !near( c.rho_sin_phi, rsp, 2e-14) || c.planet != 3 || c.format != MPC_CODE_LAT_LON_ALT || strcmp( c.code, "Rov") || c.name != e.p)
                  vh_fail( "place-record", "'%s': parallax constants %.9f %.9f planet %d code '%s'", s.c_str( ), c.rho_cos_phi, c.rho_sin_phi, c.planet, c.code);
               else vh.validated++;
               vh_outcome( vh_hash( &c.rho_sin_phi, 8) ^ vh_hash( &c.lon, 8));
               }
            }
   /* XXX comment lines */
   for( size_t i = 0; i < A[1].size( ); i++) for( size_t j = 0; j < A[0].size( ); j++) for( int hemi = 0; hemi < 4; hemi++) for( int st = 0; st < 8; st++)
      {
      if( !vh_mine( idx++)) continue;
      const Ang &a = A[1][i], &b = A[0][j];
      const char lo = hemi & 1 ? 'W' : 'E', la = hemi & 2 ? 'S' : 'N';
      const std::string tlo = st & 1 ? lo + a.t : a.t + " " + lo, tla = st & 2 ? la + b.t : b.t + " " + la;
      static const double hts[] = { 100., 0., -28.5, 4205. };
      const double ht = hts[(i + j + st) % 4];
      const std::string s = "COM Long. " + tlo + ", Lat. " + tla + fmt( ", Alt. %g", ht) + (st & 4 ? "m, Google Earth" : " m");
      Exact e( s);
      vh_ats( "get_xxx_location_info", s.c_str( ));
      memset( &c, 0xa5, sizeof( c));
      const int rc = get_xxx_location_info( &c, e.p);
      vh.states++; vh.transitions++;
      if( a.v < 0. || b.v < 0.) { if( !rc) vh_fail( "xxx-range", "'%s' is accepted", s.c_str( )); else vh.validated++; continue; }
      if( a.v > 360. || b.v > 90.) continue;
      double lon = hemi & 1 ? -a.v : a.v, lat = hemi & 2 ? -b.v : b.v, rcp, rsp;
      if( lon < 0.) lon += 360.;
      parallax( 3, lat * D2R, ht, &rcp, &rsp);
      if( rc) vh_fail( "xxx", "'%s' returns %d", s.c_str( ), rc);
      else if( !near( c.lat, lat * D2R, 2e-15) || !near( c.lon, lon * D2R, 4e-15) || !near( c.alt, ht, 1e-9) || !near( c.rho_cos_phi, rcp, 2e-14) || !near( c.rho_sin_phi, rsp, 2e-14)
            || c.planet != 3 || c.format != MPC_CODE_LAT_LON_ALT || strcmp( c.code, "XXX"))
         vh_fail( "xxx-record", "'%s': longitude %.9f latitude %.9f height %.3f constants %.9f %.9f", s.c_str( ), c.lon / D2R, c.lat / D2R, c.alt, c.rho_cos_phi, c.rho_sin_phi);
      else vh.validated++;
      }
   const std::string good = "COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth";
   for( size_t n = 0; n <= good.size( ); n++) if( vh_mine( idx++))
      {
      const std::string s = good.substr( 0, n);
      Exact e( s); vh_ats( "get_xxx_location_info", s.c_str( ));
      const int rc = get_xxx_location_info( &c, e.p), want = n < 9 ? -1 : n < good.find( "Alt.") + 4 ? -2 : 0;
      vh.states++;
      if( rc != want) vh_fail( "xxx-cut", "'%s' returns %d, not %d", s.c_str( ), rc, want); else vh.validated++;
      }
   for( size_t col = 0; col < 9; col++) for( int ch = 1; ch < 256; ch++) if( vh_mine( idx++) && (char)ch != good[col])
      { std::string s = good; s[col] = (char)ch; Exact e( s); vh.states++; if( get_xxx_location_info( &c, e.p) != -1) vh_fail( "xxx-keyword", "'%s' is accepted", s.c_str( )); else vh.validated++; }
}
/* all short token sequences: whatever is accepted is a place */
static const char *toks[] = { "44", "9.5", "75", " ", ",", "N", "w", "S", "m", "ft", "alt", ".", "-", "E" };
static void tokens( )
{
   const int nt = 14, depth = vh.thorough ? 6 : 5;
   uint64_t total = 1;
   for( int d = 1; d <= depth; d++)
      {
      total *= nt;
      for( uint64_t n = 0; n < total; n++)
         {
         if( !vh_mine( n)) continue;
         std::string s; uint64_t m = n; int nlat = 0, nlon = 0;
         for( int i = 0; i < d; i++) { const int t = m % nt; m /= nt; s += toks[t]; if( t == 5 || t == 7) nlat++; if( t == 6 || t == 13) nlon++; }
         Exact e( s);
         vh_ats( "tokens", s.c_str( )); vh.states++; vh.transitions += 3;
         const int rc = get_lat_lon_info( &c, e.p);
         if( rc != 0 && rc != -1) vh_fail( "tokens-result", "'%s' returns %d", s.c_str( ), rc);
         else if( !rc)
            {
            double rcp, rsp; parallax( 3, c.lat, c.alt, &rcp, &rsp);
            if( !nlat || !nlon) vh_fail( "tokens-accepted", "'%s' is accepted", s.c_str( ));
            else if( !(fabs( c.lat) <= PI / 2.) || !(c.lon >= 0. && c.lon <= PI + PI) || !near( rcp, c.rho_cos_phi, 1e-14) || !near( rsp, c.rho_sin_phi, 1e-14)) vh_fail( "tokens-place", "'%s' gives longitude %g latitude %g", s.c_str( ), c.lon, c.lat);
            else vh.validated++;
            }
         else vh.validated++;
         int nb = 99; double v = get_ra_from_string( e.p, &nb);
         if( nb < 0 || (size_t)nb > s.size( ) || (nb && !(v >= 0.))) vh_fail( "tokens-ra", "'%s' is read over %d bytes", s.c_str( ), nb);
         nb = 99; v = get_dec_from_string( e.p, &nb);
         if( nb < 0 || (size_t)nb > s.size( ) || (nb && !(fabs( v) <= PI / 2.))) vh_fail( "tokens-dec", "'%s' is read over %d bytes", s.c_str( ), nb);
         }
      }
}
/* regions */
struct Line { const char *t; bool rect; double lon1, lat1, lon2, lat2; const char *name; };
static const Line lines[] = {
   { "# comment            10.0      20.0      No!\n", false },
   { "\n", false }, { "\r\n", false }, { "  -70.0     40.0\n", false }, { "      20.0       0.0      40.0      40.0\n", false },
   { "     -70.0      40.0     -60.0      50.0" " Maine\n", true, -70, 40, -60, 50, " Maine" },
   { "      20.0      -5.0       5.0      45.0" "Italy, say\r\n", true, 20, -5, 5, 45, "Italy, say" },
   { "     170.0     -50.0     190.0     -30.0" "New Zealand\n", true, 170, -50, 190, -30, "New Zealand" },
   { "    -175.0      50.0     170.0      40.0" "Aleutians\n", true, -175, 50, 170, 40, "Aleutians" },
   { "       0.0     -90.0     179.0      90.0" "Half\n", true, 0, -90, 179, 90, "Half" },
   { "     350.0     -25.0      10.0     -15.0" "R\xc3\xa9union\n", true, 350, -25, 10, -15, "R\xc3\xa9union" },
   { "     280.0      30.0     310.0      60.0" "Overlaps\n", true, 280, 30, 310, 60, "Overlaps" },
   { "-123.2500 -47.12500 -100.2500 -20.00000 " "Full columns\n", true, -123.25, -47.125, -100.25, -20, "Full columns" },
   { "12.5      -20.5     98.25     -11.      " "Left\n", true, 12.5, -20.5, 98.25, -11., "Left" },
   { "      55.0     -22.0      56.0     -21.0" "last, no newline", true, 55, -22, 56, -21, "last, no newline" } };
static double wrap( double d) { d = fmod( d, 360.); return d > 180. ? d - 360. : d <= -180. ? d + 360. : d; }
static void regions( )
{
   const int nl = sizeof( lines) / sizeof( lines[0]);
   uint64_t idx = 0;
   for( int a = -1; a < nl; a++) for( int b = -1; b < nl; b++) for( int d = -1; d < nl; d++)
      {
      if( !vh_mine( idx++)) continue;
      std::string text; std::vector<int> seq;
      for( int k : { a, b, d }) if( k >= 0) { if( seq.size( ) && seq.back( ) == nl - 1) text += "\n"; text += lines[k].t; seq.push_back( k); }
      const int step = vh.thorough ? 3 : 1;
      static const double lat[] = { -91., -90., -50., -49.9, -45., -30., -22., -21.5, -20., -5., 0., 20., 40., 41., 45., 47., 49.99, 50., 59., 90. };
      FILE *f = fmemopen( nullptr, text.size( ) + 1, "w+b");
      fwrite( text.data( ), 1, text.size( ), f); fflush( f);
      fclose( f);
      f = text.empty( ) ? fopen( "/dev/null", "rb") : fmemopen( (void *)text.data( ), text.size( ), "rb");
      for( double la : lat) for( int lo10 = -3600; lo10 <= 3600; lo10 += 45 / step * (vh.thorough ? 1 : 3))
         {
         const double lo = lo10 / 10. + ((idx + lo10) & 1 ? 0. : .05);
         char out[200]; memset( out, 'x', sizeof( out));
         rewind( f);
         vh_at( "region", a, b, d, lo10); vh_d( la); vh.states++; vh.transitions++;
         const int rc = extract_region_data_for_lat_lon( f, out, la, lo);
         const char *want = "";
         for( int k : seq)
            {
            const Line &L = lines[k];
            if( !L.rect) continue;
            const double w = wrap( L.lon2 - L.lon1), x = wrap( lo - L.lon1);
            const bool in_lon = w > 0 ? (x > 0 && x < w) : (x < 0 && x > w);
            const bool in_lat = la > std::min( L.lat1, L.lat2) && la < std::max( L.lat1, L.lat2);
            if( in_lon && in_lat) { want = L.name; break; }
            }
         if( rc != (*want ? 0 : -2) || strcmp( out, want)) vh_fail( *want ? "region" : "region-none", "lines %d %d %d: (%.2f, %.2f) is in '%s' (return %d), should be '%s'", a, b, d, lo, la, out, rc, want);
         else { vh.validated++; if( *want) vh_outcome( vh_hash( want, strlen( want)) ^ (uint64_t)(a * 200 + b * 15 + d)); }
         }
      fclose( f);
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   obscodes( ); rovers( ); places( ); tokens( ); regions( );
   vh_sample( "'Rov ! 204.5278 19.8261 4205.0 ... @4' -> planet 4, its parallax constants");
   vh_done( );
   return 0;
}
