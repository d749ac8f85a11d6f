/* C11 : ADES (PSV and XML) -> 80-column translation.

   Explores a grammar of observations x encodings x documents.  The expected
   output of an observation is a function of its field values only; it must not
   depend on the encoding (PSV in any column order, XML in any white-space
   layout), line terminator, calling protocol, or what was translated before. */
#include "vh.h"
#include "watdefs.h"
#include "mpc_func.h"
#include "date.h"

enum { PERM, PROV, ART, TRKSUB, OBSID, TRKID, MODE, STN, SYS, CTR, POS1, POS2, POS3, VEL1, VEL2, VEL3, PROG, TIME, RMST, RA, DEC,
       RMSRA, RMSDEC, RMSCORR, CAT, MAG, RMSMAG, BAND, REF, DISC, NOTES, DEPR, REM, NF };
static const char *names[NF] = { "permID", "provID", "artSat", "trkSub", "obsID", "trkID", "mode", "stn", "sys", "ctr", "pos1", "pos2", "pos3",
       "vel1", "vel2", "vel3", "prog", "obsTime", "rmsTime", "ra", "dec", "rmsRA", "rmsDec", "rmsCorr", "astCat", "mag", "rmsMag",
       "band", "ref", "disc", "notes", "deprecated", "remarks" };
struct Obs { std::string f[NF]; };

static std::string strf( const char *fmt, ...) __attribute__(( format( printf, 1, 2)));
static std::string strf( const char *fmt, ...)
{ char b[800]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof( b), fmt, ap); va_end( ap); return b; }

static void put( std::string &s, size_t at, const std::string &t, size_t maxlen = 80)
{ for( size_t i = 0; i < t.size( ) && i < maxlen && at + i < 80; i++) s[at + i] = t[i]; }
static std::string rtrim( std::string s) { while( s.size( ) && s.back( ) == ' ') s.pop_back( ); return s; }

struct Code { const char *ades, *mpc; };
static const Code packed[] = { { "433", "00433       " }, { "123456", "C3456       " }, { "2P", "0002P       " },
   { "2017 AB12", "     K17A12B" }, { "1999 TC36", "     J99T36C" }, { "C/2015 ER61", "    CK15E61R" }, { "620001", "~0001       " } };
static const Code modes[] = { { "CCD", "C" }, { "CMO", "B" }, { "VID", "n" }, { "PHO", "P" }, { "ENC", "e" }, { "PMT", "p" }, { "MIC", "M" },
   { "MER", "T" }, { "TDI", "C" }, { "OCC", "E" }, { "UNK", "?" } };
static const Code cats[] = { { "Gaia2", "V" }, { "UCAC4", "q" }, { "USNOB1", "o" }, { "Gaia1", "U" }, { "2MASS", "L" } };
static const Code bands[] = { { "V", "V" }, { "R", "R" }, { "G", "G" }, { "Pg", "g" }, { "Pw", "w" }, { "Sr", "r" }, { "Ao", "o" }, { "Ac", "c" }, { "Gb", "b" }, { "Vj", "V" }, { "Rc", "R" } };
template <size_t N> static std::string look( const Code (&t)[N], const std::string &s)
{ for( const Code &c : t) if( s == c.ades) return c.mpc; fprintf( stderr, "unknown %s\n", s.c_str( )); abort( ); }

static std::string b62( unsigned v, int n)
{
   std::string r( n, '0');
   const char *d = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
   while( n--) { r[n] = d[v % 62]; v /= 62; }
   return r;
}
static std::string ref_model( const std::string &r)
{
   if( r.compare( 0, 5, "MPEC ") == 0) return "E" + r.substr( 10, 1) + strf( "%03d", atoi( r.c_str( ) + 11));
   if( r.compare( 0, 4, "MPS ") == 0) { unsigned n = atoi( r.c_str( ) + 4);
      return n < 260000 ? strf( "%c%04u", 'a' + n / 10000, n % 10000) : "~" + b62( n - 260000, 4); }
   if( r.compare( 0, 4, "MPC ") == 0) { unsigned n = atoi( r.c_str( ) + 4);
      return n < 100000 ? strf( "%05u", n) : n < 110000 ? strf( "@%04u", n - 100000) : "#" + b62( n - 110000, 4); }
   return r.substr( 0, 5);
}
static int n_decimals( const std::string &s) { size_t p = s.find( '.'); return p == std::string::npos ? 0 : (int)( s.size( ) - p - 1); }
static std::string angle( const std::string &s, int places)     /* s has no sign */
{
   if( n_decimals( s) > 7) return strf( "%*.8f", places + 9, atof( s.c_str( )));
   size_t p = s.find( '.'); if( p == std::string::npos) p = s.size( );
   return std::string( places - p, '0') + s;
}
static double mjd_of( const std::string &t)      /* days from 2000 Jan 1.5, exact to ~1e-12 */
{
   int y = atoi( t.c_str( )), m = atoi( t.c_str( ) + 5), d = atoi( t.c_str( ) + 8), hh = atoi( t.c_str( ) + 11), mm = atoi( t.c_str( ) + 14);
   long double ss = strtold( t.c_str( ) + 17, nullptr);
   static const int cum[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   long days = 0;
   for( int i = y; i < 2000; i++) days -= ( i % 4 == 0 && ( i % 100 || i % 400 == 0)) ? 366 : 365;
   for( int i = 2000; i < y; i++) days += ( i % 4 == 0 && ( i % 100 || i % 400 == 0)) ? 366 : 365;
   days += cum[m - 1] + d - 1 + ( m > 2 && y % 4 == 0 && ( y % 100 || y % 400 == 0));
   return (double)( (long double)days - 0.5L + ((long double)( hh * 3600 + mm * 60) + ss) / 86400.L);
}
static std::string pack_time( const std::string &t)
{
   int y = atoi( t.c_str( ));
   std::string r;
   r += (char)( y > 2099 ? 'K' : 'A' + y / 100 - 10);
   r += t.substr( 2, 2) + t.substr( 5, 2) + t.substr( 8, 2) + ":" + t.substr( 11, 2) + t.substr( 14, 2);
   for( size_t i = 17; i < t.size( ) && t[i] != 'Z'; i++) if( isdigit( t[i])) r += t[i];
   return r;
}
/* expected lines; a line beginning "T?" means the last field is a number to be compared with a tolerance */
static std::vector<std::string> expect( const Obs &o)
{
   std::vector<std::string> r;
   const std::string *f = o.f;
   if( !f[RMSRA].empty( ))
      {
      std::string s = "COM Sigmas " + f[RMSRA];
      const double corr = atof( f[RMSCORR].c_str( ));
      if( f[RMSRA] != f[RMSDEC] || corr) s += "x" + f[RMSDEC];
      if( corr) s += "," + f[RMSCORR];
      if( !f[RMSMAG].empty( )) s += " m:" + f[RMSMAG];
      if( !f[RMST].empty( )) s += " t:" + f[RMST];
      r.push_back( s);
      }
   if( !f[TRKSUB].empty( ) || !f[OBSID].empty( ) || !f[TRKID].empty( ))
      {
      std::string s = "COM IDs";
      if( !f[TRKSUB].empty( )) s += " trkSub:" + f[TRKSUB];
      if( !f[OBSID].empty( )) s += " obsID:" + f[OBSID];
      if( !f[TRKID].empty( )) s += " trkID:" + f[TRKID];
      r.push_back( s);
      }
   std::string ra = f[RA], dec = f[DEC];
   if( ra[0] == '+') ra.erase( 0, 1);
   char dsign = '+';
   if( dec[0] == '+' || dec[0] == '-') { dsign = dec[0]; dec.erase( 0, 1); }
   const bool long_ra = n_decimals( ra) > 7, long_dec = n_decimals( dec) > 7;
   const std::string pt = pack_time( f[TIME]);
   const bool long_t = pt.size( ) > 17 || atoi( f[TIME].c_str( )) > 2099;
   if( long_ra || long_dec || long_t)
      {
      std::string s = "COM RA/dec " + ( long_ra ? ra : "-") + " " + ( long_dec ? std::string( 1, dsign) + dec : "-");
      if( long_t) s = "T?" + s + strf( " %.15f", mjd_of( f[TIME]));
      r.push_back( s);
      }
   if( f[MAG].size( ) > 5) r.push_back( "COM full mag " + f[MAG]);
   if( f[BAND].size( ) > 1 || !f[NOTES].empty( ) || !f[PROG].empty( ))
      {
      std::string s = "COM ADES tags";
      if( f[BAND].size( ) > 1) s += " band:" + f[BAND];
      if( !f[NOTES].empty( )) s += " notes:" + f[NOTES];
      if( !f[PROG].empty( )) s += " progcode:" + f[PROG];
      r.push_back( s);
      }
   std::string line( 80, ' '), line2( 80, ' ');
   if( !f[PERM].empty( )) put( line, 0, look( packed, f[PERM]));
   else if( !f[PROV].empty( )) put( line, 0, look( packed, f[PROV]));
   else if( !f[ART].empty( )) put( line, 0, f[ART], 12);
   else if( !f[TRKSUB].empty( )) put( line, f[TRKSUB].size( ) < 8 ? 5 : 12 - f[TRKSUB].size( ), f[TRKSUB]);
   if( f[DISC] == "*") line[12] = '*';
   if( !f[PROG].empty( )) line[13] = "0123456789!\"#$%&'()*+,-./[\\]^_`{|}~"[atoi( f[PROG].c_str( ))];
   if( !f[NOTES].empty( )) line[13] = f[NOTES][0];
   if( !f[MODE].empty( )) line[14] = look( modes, f[MODE])[0];
   if( !f[SYS].empty( )) line[14] = f[SYS] == "WGS84" ? 'V' : 'S';
   if( !f[DEPR].empty( )) line[14] = 'X';
   put( line, 15, pt, 17);
   put( line, 32, angle( ra, 3), 12);
   line[44] = dsign;
   put( line, 45, angle( dec, 2), 11);
   put( line, 65, f[MAG], 5);
   if( !f[BAND].empty( )) line[70] = look( bands, f[BAND])[0];
   if( !f[CAT].empty( )) line[71] = look( cats, f[CAT])[0];
   if( !f[REF].empty( )) put( line, 72, ref_model( f[REF]), 5);
   put( line, 77, f[STN], 3);
   if( !f[VEL1].empty( ))
      {
      const double k = f[SYS] == "ICRF_AU" ? 149597870.7 / 86400. : 1.;
      r.push_back( rtrim( "COM vel (km/s) " + line.substr( 15, 14) + strf( "  %+13.7f%13.7f%13.7f ", atof( f[VEL1].c_str( )) * k, atof( f[VEL2].c_str( )) * k, atof( f[VEL3].c_str( )) * k) + f[STN]));
      }
   r.push_back( line);
   if( !f[SYS].empty( ))
      r.push_back( "2?");        /* second line: judged by reading it back */
   return r;
}

/* ---- reading the output back ---- */
static bool line2_ok( const Obs &o, const std::string &got, const std::string &line, char *why)
{
   const std::string *f = o.f;
   auto bad = [&]( const char *w) { strcpy( why, w); return false; };
   if( got.size( ) != 80) return bad( "not 80 columns");
   if( got.substr( 0, 12) != line.substr( 0, 12)) return bad( "designation");
   if( got.substr( 15, 17) != line.substr( 15, 17)) return bad( "time");
   if( got.substr( 77) != f[STN]) return bad( "station");
   if( f[SYS] == "WGS84")
      {
      if( got[14] != 'v' || got[32] != '1') return bad( "flags");
      const double lon = atof( got.substr( 34, 11).c_str( )), lat = atof( got.substr( 46, 9).c_str( )), alt = atof( got.substr( 55, 6).c_str( ));
      if( fabs( lon - atof( f[POS1].c_str( ))) > 2e-6) return bad( "longitude");
      if( got[45] != '+' && got[45] != '-') return bad( "no latitude sign");
      if( fabs( ( got[45] == '-' ? -lat : lat) - atof( f[POS2].c_str( ))) > 2e-6) return bad( "latitude");
      if( fabs( alt - atof( f[POS3].c_str( ))) > .11) return bad( "altitude");
      return true;
      }
   const bool au = f[SYS] == "ICRF_AU";
   if( got[14] != 's' || got[32] != ( au ? '2' : '1')) return bad( "flags");
   for( int i = 0; i < 3; i++)
      {
      std::string s = got.substr( 34 + 12 * i, 12);
      if( s[0] != '+' && s[0] != '-') return bad( "no sign on a coordinate");
      char *end;
      double v = strtod( s.c_str( ) + 1, &end);
      while( *end == ' ') end++;
      if( *end) return bad( "junk in a coordinate");
      if( s[0] == '-') v = -v;
      const double want = atof( f[POS1 + i].c_str( ));
      const double tol = au ? 2e-8 : fabs( want) >= 1e+6 ? 2e-3 : 2e-4;
      if( fabs( v - want) > tol) return bad( "coordinate");
      }
   const int ctr = f[CTR].empty( ) ? 399 : atoi( f[CTR].c_str( ));
   if( ctr != 399 && atoi( got.substr( 69, 8).c_str( )) != ctr) return bad( "centre");
   if( ctr == 399 && got.substr( 70, 7) != "       ") return bad( "junk after the coordinates");
   return true;
}

static void compare( const char *key, const std::vector<const Obs *> &obs, const std::vector<std::string> &want, const std::vector<std::string> &got, const std::string &doc)
{
   size_t oi = 0;
   std::string last;
   vh.states++;
   bool ok = want.size( ) == got.size( );
   char why[80] = "";
   size_t i = 0;
   for( ; ok && i < want.size( ); i++)
      {
      const std::string &w = want[i], &g = got[i];
      if( w == "2?") { while( oi < obs.size( ) && obs[oi]->f[SYS].empty( )) oi++;
         ok = oi < obs.size( ) && line2_ok( *obs[oi++], g, last, why); }
      else if( w.compare( 0, 2, "T?") == 0)
         {
         size_t a = w.rfind( ' '), b = g.rfind( ' ');
         ok = b != std::string::npos && w.substr( 2, a - 2) == g.substr( 0, b) && fabs( atof( w.c_str( ) + a) - atof( g.c_str( ) + b)) < 3e-11;
         if( !ok) strcpy( why, "overlong value");
         }
      else ok = rtrim( w) == rtrim( g);
      last = g;
      }
   if( ok) { vh.validated++; vh_outcome( vh_hash( got.empty( ) ? "" : got.back( ))); return; }
   std::string a, b;
   for( auto &s : want) a += s + "\n"; for( auto &s : got) b += s + "\n";
   if( i) i--;
   vh_fail( key, "differs at output line %d (%s): want '%s' got '%s' ; %d lines wanted, %d given; document:\n%.700s", (int)i, why, i < want.size( ) ? want[i].c_str( ) : "", i < got.size( ) ? got[i].c_str( ) : "", (int)want.size( ), (int)got.size( ), doc.c_str( ));
}

/* ---- encodings ---- */
static std::string psv( const std::vector<const Obs *> &obs, const std::vector<int> &cols, int style, const char *eol)
{
   std::string s;
   for( size_t i = 0; i < cols.size( ); i++)
      s += std::string( i ? "|" : "") + names[cols[i]] + ( style & 1 ? "  " : "");
   s += eol;
   for( const Obs *o : obs)
      {
      for( size_t i = 0; i < cols.size( ); i++)
         {
         s += i ? "|" : "";
         if( style & 1) s += " ";
         s += o->f[cols[i]];
         if( style & 2) s += "   ";
         }
      s += eol;
      }
   return s;
}
static std::string xml_obs( const Obs &o, int style, const char *eol)
{
   std::string s;
   size_t col = 0;
   auto br = [&]( ) { if( style != 1) { s += eol; col = 0; } };
   if( style == 3) s += "  ";
   s += "<optical>"; br( );
   for( int i = 0; i < NF; i++)
      if( !o.f[i].empty( ))
         {
         std::string t;
         if( style == 2) t = std::string( "<") + names[i] + ">" + eol + "   " + o.f[i] + "  " + eol + "</" + names[i] + ">";
         else if( style == 3) t = std::string( "    <") + names[i] + "> " + o.f[i] + " </" + names[i] + ">  ";
         else t = std::string( "<") + names[i] + ">" + o.f[i] + "</" + names[i] + ">";
         if( style == 1 && ( col += t.size( )) > 250) { s += eol; col = t.size( ); }
         s += t;
         br( );
         }
   if( style == 3) s += "  ";
   s += "</optical>"; s += eol;
   return s;
}
static std::string xml_doc( const std::vector<const Obs *> &obs, int style, const char *eol)
{
   std::string s = std::string( "<ades version=\"2017\">") + eol + "<obsBlock>" + eol + "<obsData>" + eol;
   for( const Obs *o : obs) s += xml_obs( *o, style, eol);
   return s + "</obsData>" + eol + "</obsBlock>" + eol + "</ades>" + eol;
}

static std::vector<std::string> translate( const std::string &doc, int *end_rval = nullptr)
{
   std::vector<std::string> r;
   char buff[400];
   FILE *f = fmemopen( (void *)doc.data( ), doc.size( ), "rb");
   void *ctx = init_ades2mpc( );
   memset( buff, 0, sizeof( buff));
   while( fgets_with_ades_xlation( buff, sizeof( buff), ctx, f))
      { r.push_back( buff); vh.transitions++; if( r.size( ) > 500) { r.push_back( "ENDLESS"); break; } }
   fclose( f);
   const int e = free_ades2mpc_context( ctx);
   if( end_rval) *end_rval = e;
   return r;
}
/* the other two entry points, one input line at a time */
static std::vector<std::string> translate_lines( const std::string &doc, bool in_place)
{
   std::vector<std::string> r;
   void *ctx = init_ades2mpc( );
   size_t p = 0;
   while( p < doc.size( ))
      {
      size_t e = doc.find( '\n', p); if( e == std::string::npos) e = doc.size( ) - 1;
      std::string ln = doc.substr( p, e - p + 1); p = e + 1;
      char ib[400], ob[400];
      strcpy( ib, ln.c_str( )); memset( ob, 0, sizeof( ob));
      int n = 0;
      while( ( in_place ? xlate_ades2mpc_in_place( ctx, ib) : xlate_ades2mpc( ctx, ob, ib)) > 0 && n++ < 30)
         {
         std::string g = in_place ? ib : ob;
         if( g.empty( ) || g.back( ) != '\n') { vh_fail( "no-newline", "output line '%s' isn't terminated", g.c_str( )); }
         else g.pop_back( );
         r.push_back( g); vh.transitions++;
         }
      if( n >= 30) { r.push_back( "ENDLESS"); break; }
      }
   free_ades2mpc_context( ctx);
   return r;
}

static std::vector<int> cols_of( const Obs &o, const Obs *o2 = nullptr)
{
   std::vector<int> c;
   for( int i = 0; i < NF; i++) if( !o.f[i].empty( ) || ( o2 && !o2->f[i].empty( ))) c.push_back( i);
   return c;
}
/* column orders: fields that say the same thing (mode/sys/positions, prog/notes, artSat/trkSub) keep the order of the ADES schema */
static void keep_groups( std::vector<int> &c)
{
   static const std::vector<int> groups[3] = { { MODE, SYS, CTR, POS1, POS2, POS3, VEL1, VEL2, VEL3, DEPR }, { PROG, NOTES }, { ART, TRKSUB } };
   for( auto &g : groups)
      {
      std::vector<size_t> where; std::vector<int> vals;
      for( size_t i = 0; i < c.size( ); i++) if( std::find( g.begin( ), g.end( ), c[i]) != g.end( )) { where.push_back( i); vals.push_back( c[i]); }
      std::sort( vals.begin( ), vals.end( ));
      for( size_t i = 0; i < where.size( ); i++) c[where[i]] = vals[i];
      }
}
static std::vector<std::string> cat( std::vector<std::string> a, const std::vector<std::string> &b) { a.insert( a.end( ), b.begin( ), b.end( )); return a; }

static void all_encodings( const Obs &o, bool deep)
{
   static const char *eols[3] = { "\n", "\r\n", "\r" };
   std::vector<const Obs *> one( 1, &o);
   std::vector<std::string> want = expect( o);
   std::vector<int> c = cols_of( o);
   std::string d = psv( one, c, 0, "\n");
   vh_ats( "psv", d.c_str( ));
   std::vector<std::string> got = translate( d);
   compare( "psv", one, want, got, d);
   if( !got.empty( ))                           /* bind the model to the library's own readers */
      for( auto &g : got) if( g.compare( 0, 4, "COM ") && g.size( ) == 80 && g[14] != 's' && g[14] != 'v' && !vh.fails.size( ))
         {
         double ra, dec, jd = extract_date_from_mpc_report( g.c_str( ), nullptr);
         int rv = get_ra_dec_from_mpc_report( g.c_str( ), nullptr, &ra, nullptr, nullptr, &dec, nullptr);
         const double wra = atof( o.f[RA].c_str( )), wdec = atof( o.f[DEC].c_str( ));
         if( o.f[DEPR].empty( ) && atoi( o.f[TIME].c_str( )) < 2100 && fabs( jd - 2451545. - mjd_of( o.f[TIME])) > 1.2e-8)
            vh_fail( "time-readback", "'%s' read as %.9f for %s", g.c_str( ), jd, o.f[TIME].c_str( ));
         if( rv || fabs( ra * 180. / M_PI - wra) > 6e-9 || fabs( dec * 180. / M_PI - wdec) > 6e-9)
            vh_fail( "position-readback", "'%s' read as %d %.9f %.9f", g.c_str( ), rv, ra * 180. / M_PI, dec * 180. / M_PI);
         }
   d = psv( one, c, 3, "\n"); vh_ats( "psv spaces", d.c_str( )); compare( "psv-spaces", one, want, translate( d), d);
   int dep = 1;
   for( int style = 0; style < 4; style++)
      {
      d = xml_doc( one, style, "\n"); vh_ats( "xml", d.c_str( ));
      compare( style == 2 ? "xml-split" : "xml", one, want, translate( d, &dep), d);
      if( dep) vh_fail( "depth", "depth %d left after a complete document\n%.300s", dep, d.c_str( ));
      }
   if( !deep) return;
   for( int e = 1; e < 3; e++)
      {
      d = psv( one, c, 0, eols[e]); vh_ats( "psv eol", d.c_str( )); compare( "psv-eol", one, want, translate( d), d);
      d = xml_doc( one, 0, eols[e]); vh_ats( "xml eol", d.c_str( )); compare( "xml-eol", one, want, translate( d), d);
      }
   for( int p = 0; p < 2; p++)
      {
      d = psv( one, c, 0, "\n"); vh_ats( "line by line", d.c_str( )); compare( "protocol", one, want, translate_lines( d, p), d);
      d = xml_doc( one, 3, "\n"); vh_ats( "line by line xml", d.c_str( )); compare( "protocol", one, want, translate_lines( d, p), d);
      d = xml_obs( o, 0, "\n"); vh_ats( "bare optical", d.c_str( )); compare( "bare", one, want, translate_lines( d, p), d);
      }
   const size_t n = c.size( );
   for( int rev = 0; rev < 2; rev++)
      for( size_t rot = 0; rot < n; rot++)
         {
         std::vector<int> c2;
         for( size_t i = 0; i < n; i++) c2.push_back( c[rev ? ( n - 1 - i + rot) % n : ( i + rot) % n]);
         keep_groups( c2);
         d = psv( one, c2, 0, "\n"); vh_ats( "psv order", d.c_str( )); compare( "psv-order", one, want, translate( d), d);
         }
   for( size_t i = 0; i < n; i++)
      for( size_t j = i + 1; j < n; j++)
         {
         std::vector<int> c2 = c; std::swap( c2[i], c2[j]); keep_groups( c2);
         d = psv( one, c2, 0, "\n"); vh_ats( "psv order", d.c_str( )); compare( "psv-order", one, want, translate( d), d);
         }
}

static Obs base( )
{
   Obs o;
   o.f[PROV] = "2017 AB12"; o.f[STN] = "703"; o.f[MODE] = "CCD"; o.f[TIME] = "2017-03-04T05:06:07.12Z"; o.f[RA] = "123.45678"; o.f[DEC] = "-12.34567";
   return o;
}
typedef std::vector<std::vector<std::pair<int, std::string>>> Alts;
static std::vector<Alts> factors( )
{
   std::vector<Alts> r;
   auto single = [&]( int fld, std::vector<std::string> v) { Alts a; for( auto &s : v) a.push_back( { { fld, s } }); r.push_back( a); };
   {
   Alts a = { { { PROV, "" }, { PERM, "433" } }, { { PERM, "123456" } }, { { PROV, "" }, { PERM, "2P" } }, { { PROV, "1999 TC36" } }, { { PROV, "C/2015 ER61" } },
      { { PROV, "" }, { TRKSUB, "ABC1234" } }, { { PROV, "" }, { TRKSUB, "LongTrkSub12" } }, { { TRKSUB, "P10xyz" } }, { { PROV, "" }, { PERM, "620001" }, { TRKSUB, "x" } },
      { { PROV, "" }, { ART, "2015-007B" } }, { { PROV, "" }, { ART, "2015-007B" }, { TRKSUB, "Zq1" } }, { { PROV, "" }, { TRKSUB, "Sub12345" } } };
   r.push_back( a);
   }
   single( OBSID, { "LABCDEFGH0000010000000001", "L1" });
   single( TRKID, { "00000abcdef", "t" });
   single( MODE, { "", "CMO", "VID", "PHO", "ENC", "PMT", "MIC", "MER", "TDI", "OCC", "UNK" });
   single( STN, { "568", "C51", "Z23" });
   single( TIME, { "2017-03-04T05:06:07Z", "2017-03-04T05:06:07.123Z", "2017-03-04T05:06:07.1234Z", "1999-12-31T23:59:59.999Z", "2099-12-31T00:00:00.5Z", "2100-01-01T00:00:00.5Z", "2031-07-09T12:34:56.123456Z", "1895-02-28T01:02:03.4Z", "2017-03-04T05:06:07.123456789Z" });
   single( RMST, { "0.5", "1.25" });
   single( RA, { "0.1", "5.", "12", "359.9999999", "359.99999994", "+12.5", "123.123456789012", "9.87654321", "99.1234567" });
   single( DEC, { "0.5", "-0.5", "+89.123456789", "12", "-5.1234567", "7.12345678", "-89.99999999", "+1.123456789012345" });
   { Alts a = { { { RMSRA, "0.5" }, { RMSDEC, "0.4" } }, { { RMSRA, "0.5" }, { RMSDEC, "0.5" } }, { { RMSRA, "0.51" }, { RMSDEC, "0.4" }, { RMSCORR, "-0.93" } }, { { RMSRA, "0.5" }, { RMSDEC, "0.5" }, { RMSCORR, "0.2" } }, { { RMSRA, "0.123456789" }, { RMSDEC, "0.4" }, { RMSCORR, "0.0" } } }; r.push_back( a); }
   single( CAT, { "Gaia2", "UCAC4", "USNOB1", "2MASS" });
   { Alts a = { { { MAG, "18.5" } }, { { MAG, "18.53" }, { RMSMAG, "0.02" } }, { { MAG, "18.534" } }, { { MAG, "9.1" }, { RMSMAG, "1" } }, { { MAG, "21" } }, { { MAG, "-12.3456" } } }; r.push_back( a); }
   single( BAND, { "V", "R", "Pg", "Pw", "Sr", "Ao", "Ac", "Gb", "Vj", "G", "Rc" });
   single( REF, { "MPEC 2021-D85", "MPEC 2021-D5", "MPEC 2021-D123", "MPS 12345", "MPS 912345", "MPC 98765", "MPC 104321", "MPC 234567" });
   single( DISC, { "*" });
   { Alts a = { { { NOTES, "s" } }, { { NOTES, "fK" } }, { { PROG, "7" } }, { { PROG, "11" } }, { { PROG, "34" } }, { { PROG, "0" }, { NOTES, "i" } } }; r.push_back( a); }
   single( DEPR, { "X", "yes" });
   single( REM, { "short", "a remark that is rather longer than forty characters: 0123456789" });
   {
   Alts a = { { { SYS, "ICRF_KM" }, { POS1, "-1234.5678" }, { POS2, "+98765.4321" }, { POS3, "0.5" } },
              { { SYS, "ICRF_KM" }, { POS1, "1.23456789" }, { POS2, "-123.456789" }, { POS3, "12.3456789012" } },
              { { SYS, "ICRF_KM" }, { POS1, "123456.78901" }, { POS2, "-1234567.8901" }, { POS3, "-654321.123456" } },
              { { SYS, "ICRF_KM" }, { POS1, "6378" }, { POS2, "-12" }, { POS3, "6.5e3" } },
              { { SYS, "ICRF_KM" }, { POS1, "1.5E+3" }, { POS2, "-1.25e-2" }, { POS3, "7.0" } },
              { { SYS, "ICRF_AU" }, { POS1, "0.123456789012" }, { POS2, "-1.5" }, { POS3, "+12.3456789" } },
              { { SYS, "ICRF_AU" }, { CTR, "10" }, { POS1, "-0.00012345678" }, { POS2, "1.0" }, { POS3, "-30.25" } },
              { { SYS, "ICRF_KM" }, { CTR, "499" }, { POS1, "-1234.5678" }, { POS2, "+98765.4321" }, { POS3, "-50000.0" } },
              { { SYS, "ICRF_KM" }, { POS1, "-1234.5678" }, { POS2, "+98765.4321" }, { POS3, "4000.5" }, { VEL1, "-1.2345678" }, { VEL2, "7.5" }, { VEL3, "0.001" } },
              { { SYS, "ICRF_AU" }, { POS1, "-0.5" }, { POS2, "+0.25" }, { POS3, "0.1" }, { VEL1, "0.0012345" }, { VEL2, "-0.01" }, { VEL3, "0.0" } },
              { { SYS, "WGS84" }, { POS1, "254.4412" }, { POS2, "-35.1234" }, { POS3, "2000" } },
              { { SYS, "WGS84" }, { POS1, "4.4412345" }, { POS2, "+35.123456" }, { POS3, "12.5" } },
              { { SYS, "WGS84" }, { POS1, "254" }, { POS2, "35" }, { POS3, "200.1" } },
              { { SYS, "WGS84" }, { POS1, "254.44123456789" }, { POS2, "5.1234567890123" }, { POS3, "2000.123" } } };
   r.push_back( a);
   }
   return r;
}
static Obs with( Obs o, const std::vector<std::pair<int, std::string>> &v) { for( auto &p : v) o.f[p.first] = p.second; return o; }
static bool legal( const Obs &o)
{ return ( o.f[DEPR].empty( ) || o.f[SYS].empty( )) && !( o.f[PERM].empty( ) && o.f[PROV].empty( ) && o.f[ART].empty( ) && o.f[TRKSUB].empty( )); }

struct Piece { std::string doc; std::vector<std::string> want; Obs o; bool has_o = false; };
static std::vector<Piece> pieces( )
{
   std::vector<Piece> r;
   auto F = factors( );
   auto add = [&]( const std::string &d, std::vector<std::string> w) { Piece p; p.doc = d; p.want = w; r.push_back( p); };
   auto addo = [&]( const Obs &o, int how)
      {
      Piece p; p.o = o; p.has_o = true; p.want = expect( o);
      std::vector<const Obs *> one( 1, &o);
      p.doc = how == 0 ? psv( one, cols_of( o), 0, "\n") : xml_doc( one, how - 1, "\n");
      r.push_back( p);
      };
   std::vector<Obs> os;
   os.push_back( base( ));
   Obs full = base( );
   full.f[OBSID] = "Lq"; full.f[TRKID] = "tt"; full.f[TRKSUB] = "Sub1"; full.f[RMST] = "0.7"; full.f[RMSRA] = "0.3"; full.f[RMSDEC] = "0.2"; full.f[RMSCORR] = "0.11";
   full.f[CAT] = "Gaia2"; full.f[MAG] = "17.123"; full.f[RMSMAG] = "0.03"; full.f[BAND] = "Vj"; full.f[REF] = "MPC 12345"; full.f[DISC] = "*"; full.f[NOTES] = "K"; full.f[PROG] = "3";
   full.f[RA] = "1.123456789"; full.f[DEC] = "-1.123456789"; full.f[TIME] = "2017-03-04T05:06:07.12345Z"; full.f[SYS] = "ICRF_KM"; full.f[CTR] = "10";
   full.f[POS1] = "-5000.1"; full.f[POS2] = "5.1"; full.f[POS3] = "-123.4"; full.f[VEL1] = "1.5"; full.f[VEL2] = "2.5"; full.f[VEL3] = "-3.5";
   os.push_back( full);
   Obs a = base( ); a.f[RMSMAG] = "0.9"; a.f[RMST] = "0.8"; a.f[MAG] = "12.1"; os.push_back( a);          /* uncertainties that aren't shown */
   a = base( ); a.f[RMSRA] = "0.6"; a.f[RMSDEC] = "0.7"; os.push_back( a);
   a = base( ); a.f[RMSDEC] = "0.9"; a.f[RMSCORR] = "0.5"; os.push_back( a);
   a = base( ); a.f[BAND] = "Pg"; a.f[MAG] = "20.1"; a.f[RMSRA] = "1"; a.f[RMSDEC] = "1"; a.f[RMSCORR] = "0"; os.push_back( a);
   a = base( ); a.f[PROV] = ""; a.f[TRKSUB] = "Tr1"; a.f[BAND] = "R"; os.push_back( a);
   a = base( ); a.f[PROV] = ""; a.f[PERM] = "433"; a.f[SYS] = "WGS84"; a.f[POS1] = "12.5"; a.f[POS2] = "-1.5"; a.f[POS3] = "100"; os.push_back( a);
   for( size_t i = 0; i < os.size( ); i++) addo( os[i], i % 2 ? 0 : 1 + (int)( i / 2) % 4);
   addo( full, 1);
   addo( os[3], 3);
   add( "     K19S03H  C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12\n", { "     K19S03H  C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12" });
   add( "2019 SH3      C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12 0.050 0.049\n",
      { "COM Sigmas 0.050x0.049", "     K19S03H  C2019 09 26.56792500 00 13.041-05 25 38.05         18.6 G      T12" });
   add( "COM Some text\n", { "COM Some text" });
   add( "\n", { "" });
   add( "what | ever | this | may be\n", { "what | ever | this | may be" });
   add( "# version=2017\n# observatory\n! mpcCode 703\n# observers\n! name J. Doe\n# measurers\n! name A. B. C\n# submitter\n! name Q. R\n# comment\n! line Some comment\n",
      { "# version=2017", "COD 703", "OBS J. Doe", "MEA A. B. C", "CON Q. R", "COM Some comment" });
   add( "<ades version=\"2017\">\n<obsBlock>\n<obsContext>\n<observatory>\n<mpcCode>703</mpcCode>\n</observatory>\n<observers>\n<name>J. Doe</name>\n</observers>\n<measurers>\n  <name> A. B. C </name>\n</measurers>\n<submitter><name>Q. R</name></submitter>\n<comment>\n<line>Some comment</line>\n</comment>\n</obsContext>\n</obsBlock>\n</ades>\n",
      { "COD 703", "OBS J. Doe", "MEA A. B. C", "CON Q. R", "COM Some comment" });
   add( "<ades version=\"2017\">\n<obsBlock>\n<obsContext>\n<observatory>\n<mpcCode>\n703\n</mpcCode>\n</observatory>\n<observers>\n<name>J. Doe\n</name>\n<name>\nK. Roe</name>\n</observers>\n</obsContext>\n</obsBlock>\n</ades>\n",
      { "COD 703", "OBS J. Doe", "OBS K. Roe" });
   add( "<ades version=\"2017\">\n<!-- a comment -->\n<obsBlock>\n<obsData>\n</obsData></obsBlock></ades>\n", { });
   return r;
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   auto F = factors( );
   uint64_t idx = 0;
   auto mine = [&]( ) { return idx++ % vh.nshards == (uint64_t)vh.shard; };
   std::vector<Obs> singles;
   singles.push_back( base( ));
   for( auto &f : F) for( auto &v : f) singles.push_back( with( base( ), v));
   for( auto &o : singles) if( legal( o) && mine( )) all_encodings( o, true);
   for( size_t i = 0; i < F.size( ); i++) for( size_t j = i + 1; j < F.size( ); j++)
      for( auto &a : F[i]) for( auto &b : F[j])
         {
         Obs o = with( with( base( ), a), b);
         if( legal( o) && mine( )) all_encodings( o, ( idx / vh.nshards) % 4 == 0 || vh.thorough);
         if( !vh.thorough && ( i * 7 + j) % 1) continue;
         for( size_t k = j + 1; k < F.size( ); k++) for( auto &c : F[k])
            {
            Obs o3 = with( o, c);
            if( legal( o3) && mine( )) all_encodings( o3, false);
            }
         }
   vh.counters["field combinations"] = idx;
   /* every subset of the factors, first non-default value of each */
   for( unsigned m = 0; m < ( 1u << F.size( )); m++)
      {
      if( !vh.thorough && __builtin_popcount( m) > 4 && __builtin_popcount( m) < (int)F.size( ) - 3) continue;
      Obs o = base( );
      for( size_t i = 0; i < F.size( ); i++) if( m >> i & 1) o = with( o, F[i][( m / 7 + i) % F[i].size( )]);
      if( legal( o) && mine( )) all_encodings( o, false);
      }
   /* references */
   Obs o = base( );
   for( unsigned n = 0; n < 1000000; n += vh.thorough ? 1 : 7) if( mine( ))
      for( int k = 0; k < 2; k++)
         {
         o.f[REF] = strf( k ? "MPS %u" : "MPC %u", n);
         std::vector<const Obs *> one( 1, &o);
         std::string d = psv( one, cols_of( o), 0, "\n"); vh_ats( "ref", o.f[REF].c_str( )); compare( "ref", one, expect( o), translate( d), d);
         }
   /* two rows in one table: nothing of the first may show up in the second */
   for( auto &a : singles) for( auto &b : singles) if( legal( a) && legal( b) && mine( ))
      {
      std::vector<const Obs *> two; two.push_back( &a); two.push_back( &b);
      std::vector<std::string> want = cat( expect( a), expect( b));
      std::string d = psv( two, cols_of( a, &b), 0, "\n"); vh_ats( "two rows", d.c_str( )); compare( "history", two, want, translate( d), d);
      d = xml_doc( two, 0, "\n"); vh_ats( "two xml", d.c_str( )); compare( "history", two, want, translate( d), d);
      }
   /* documents: every sequence of up to three (four) pieces */
   auto P = pieces( );
   const size_t n = P.size( );
   for( int len = 1; len <= ( vh.thorough ? 4 : 3); len++)
      {
      size_t total = 1; for( int i = 0; i < len; i++) total *= n;
      for( size_t s = 0; s < total; s++) if( mine( ))
         {
         std::string d; std::vector<std::string> want; std::vector<const Obs *> obs;
         for( size_t i = 0, t = s; i < (size_t)len; i++, t /= n) { const Piece &p = P[t % n]; d += p.doc; want = cat( want, p.want); if( p.has_o) obs.push_back( &p.o); }
         vh_ats( "document", d.c_str( ));
         compare( "document", obs, want, translate( d), d);
         if( len < 3) for( int k = 0; k < 2; k++) compare( "document-lines", obs, want, translate_lines( d, k), d);
         }
      }
   /* damaged documents must end */
   {
   const char *bad[] = { "<ades version=\"2017\">\n<!-- a comment\n over two lines -->\n<obsBlock>\n</obsBlock>\n</ades>\nCOM after\n",
      "<ades version=\"2017\">\n</optical>\n</obsBlock>\n</ades>\nCOM after\n", "<ades version=\"2017\">\n<optical>\n</optical></optical></optical></ades></ades>\nCOM after\nCOM x\n" };
   for( const char *b : bad) if( mine( )) { vh_ats( "damaged", b); auto g = translate( b); vh.states++; if( g.size( ) > 20) vh_fail( "endless", "%s", b); else vh.validated++; }
   std::string deep = "<ades version=\"2017\">\n"; for( int i = 0; i < 60; i++) deep += "<optical><obsData>\n"; for( int i = 0; i < 80; i++) deep += "</obsData></optical>\n";
   if( mine( )) { vh_at( "deep"); auto g = translate( deep); vh.states++; if( g.size( ) > 300) vh_fail( "endless", "deep"); else vh.validated++; }
   }
   vh_sample( "PSV and XML encodings of %d field combinations; %d document pieces", (int)singles.size( ), (int)n);
   return vh_done( );
}
