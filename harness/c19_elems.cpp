/* C19: orbit catalogue lines (SOF, MPCORB, astorb) and their conversion. */
#include "vh.h"
#define main mpc2sof_main
#include "mpc2sof.cpp"
#undef main
long extract_astorb_dat( ELEMENTS *elem, const char *buff);
static const double R = 3.14159265358979323846 / 180.;
static const double GMS = .01720209895 * .01720209895;
struct Exact
{
   char *p;
   Exact( const std::string &s) { p = (char *)malloc( s.size( ) + 1); memcpy( p, s.c_str( ), s.size( ) + 1); }
   ~Exact( ) { free( p); }
};
static std::string fmt( const char *f, ...) { char b[400]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return b; }
static bool near( double a, double b, double tol = 1e-15) { return fabs( a - b) <= tol * (1. + fabs( b)); }
/* days from civil, independent of the library */
static long jdn( long y, int m, int d)
{
   const long a = y - (m <= 2), era = (a >= 0 ? a : a - 399) / 400, yoe = a - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy + 1721120;
}
static int mlen( long y, int m) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : l[m - 1]; }

/* ---- SOF ---- */
enum { F_Q, F_E, F_I, F_OM, F_om, F_TP, F_TE, F_H, F_G, F_C, F_TW, F_TF, F_TL, F_RMS, F_NAME, F_UNK, F_O1, F_o1, NF };
static const char *heads[NF] = { "q          ", "e         ", "i  .      ", "Om .      ", "om .      ", "Tp      .       ", "Te      ", "H .  ", "G . ^", "C  ", "Tw      ", "Tfirst  ", "Tlast   ", "rms ", "Name        ", "U x", "O     .   ", "o     .   " };
static std::string value( int f, int var, double *v)
{
   const int w = (int)strlen( heads[f]);
   static const double q[] = { .98765432, 12.5, .00512345, 3. }, e[] = { .12345678, 0., 1., 1.00234 }, an[] = { 0., 12.345678, 359.999999, 180. };
   static const char *dates[] = { "20240229", "16091231", "19991101", "99991231" };
   static const double jds[] = { jdn( 2024, 2, 29) - .5, jdn( 1609, 12, 31) - .5, jdn( 1999, 11, 1) - .5, jdn( 9999, 12, 31) - .5 };
   var &= 3;
   switch( f)
      {
      case F_Q: *v = q[var]; return fmt( "%*.8f", w, *v);
      case F_E: *v = e[var]; return fmt( "%*.8f", w, *v);
      case F_I: case F_OM: case F_om: case F_O1: case F_o1: { const std::string t = fmt( "%*.6f", w, f == F_I ? an[var] / 2. : an[var]); *v = atof( t.c_str( )); return t; }
      case F_TP: { const long frac = (1234567 * (var * 3 + 1)) % 10000000; *v = jds[var] + frac * 1e-7; return fmt( "%s.%07ld", dates[var], frac); }
      case F_TE: case F_TW: case F_TF: case F_TL: *v = jds[(var + f) & 3]; return dates[(var + f) & 3];
      case F_H: *v = var * 7.5 - 1.; return fmt( "%*.2f", w, *v);
      case F_G: *v = var * .2 - .1; return fmt( "%*.2f", w, *v);
      case F_C: *v = var == 1 ? 3 : var == 2 ? 10 : 0; return fmt( "%*d", w, (int)*v);
      case F_RMS: *v = .25 * var + .1; return fmt( "%*.2f", w, *v);
      case F_NAME: *v = 0.; return fmt( "%-*s", w, var & 1 ? "2024 AA1" : "1P|q 99999");
      default: *v = 0.; return fmt( "%*d", w, var + 1);
      }
}
static const unsigned NEED = (1 << F_Q) | (1 << F_E) | (1 << F_I) | (1 << F_OM) | (1 << F_om) | (1 << F_TP);
static const double BAD = -1234.5;
static void sof_case( const int *cols, int n, int var, size_t cut, int ending, bool ex)
{
   std::string h, l; std::vector<size_t> ends;
   double vals[NF]; bool have[NF] = { false };
   for( int i = 0; i < n; i++)
      {
      double v; h += heads[cols[i]]; l += value( cols[i], var + i, &v);
      vals[cols[i]] = v; have[cols[i]] = true;
      ends.push_back( l.size( ));
      if( i + 1 < n) { h += '|'; l += (var & 1) ? '|' : ' '; }
      }
   const std::string full = l;
   if( cut < l.size( )) l.resize( cut);
   static const char *eol[3] = { "", "\n", "\r\n" };
   h += eol[ending]; l += eol[(ending + var) % 3];
   Exact eh( h), el( l);
   vh_ats( "extract_sof_data", h.c_str( ), l.c_str( )); vh_i( ex);
   ELEMENTS e; double extra[4] = { BAD, BAD, BAD, BAD };
   memset( (void *)&e, 0xa5, sizeof( e));
   const int rc = ex ? extract_sof_data_ex( &e, el.p, eh.p, extra) : extract_sof_data( &e, el.p, eh.p);
   vh.states++; vh.transitions++;
   unsigned sure = 0, maybe = 0;          /* columns complete; begun */
   for( int i = 0; i < n; i++)
      { const size_t start = i ? ends[i - 1] + 1 : 0; if( ends[i] <= cut) sure |= 1u << cols[i]; if( start < cut + 2) maybe |= 1u << cols[i]; }
   auto nodes = [&]( unsigned m) { if( m & (1u << F_O1)) m |= 1u << F_OM; if( m & (1u << F_o1)) m |= 1u << F_om; return m; };
   const bool must = (nodes( sure) & NEED) == NEED, may = (nodes( maybe) & NEED) == NEED;
   if( rc != 0 && rc != -1) { vh_fail( "sof-result", "returns %d", rc); return; }
   if( must && rc) { vh_fail( cut < full.size( ) ? "sof-cut" : "sof-rejected", "a line with every needed column is rejected"); return; }
   if( !may && !rc) { vh_fail( cut < full.size( ) ? "sof-cut-accepted" : "sof-accepted", "a line without a needed column is accepted"); return; }
   bool ok = true;
   auto chk = [&]( int f, double got, double deflt, double scale, const char *what)
      {
      double want = deflt;
      if( have[f] && (sure & (1u << f))) want = vals[f] * scale;
      else if( have[f] && (maybe & (1u << f))) return;       /* half a number: unspecified */
      if( !near( got, want)) { vh_fail( (std::string( "sof-") + what).c_str( ), "%s is %.12f, should be %.12f", what, got, want); ok = false; }
      };
   chk( F_Q, e.q, 0., 1., "q"); chk( F_E, e.ecc, 0., 1., "e"); chk( F_I, e.incl, 0., R, "inclination");
   chk( have[F_O1] ? F_O1 : F_OM, e.asc_node, 0., R, "node"); chk( have[F_o1] ? F_o1 : F_om, e.arg_per, 0., R, "argument");
   chk( F_TP, e.perih_time, 0., 1., "perihelion-time"); chk( F_TE, e.epoch, 0., 1., "epoch");
   chk( F_H, e.abs_mag, 0., 1., "H"); chk( F_G, e.slope_param, .15, 1., "G");
   if( !(have[F_C] && !(sure & (1u << F_C))))
      {
      const int c = have[F_C] ? (int)vals[F_C] : 0;
      if( e.central_obj != c || !near( e.gm, GMS * (c == 3 ? 3.003489614792921e-06 : 1.), 1e-14)) { vh_fail( "sof-centre", "central body %d, mass constant %g", e.central_obj, e.gm); ok = false; }
      }
   if( ex) { chk( F_TF, extra[0], 0., 1., "first"); chk( F_TL, extra[1], 0., 1., "last"); chk( F_TW, extra[2], 0., 1., "written"); chk( F_RMS, extra[3], 0., 1., "rms"); }
   if( must)
      {
      ELEMENTS r = e; derive_quantities( &r, e.gm);
      if( memcmp( r.perih_vec, e.perih_vec, sizeof( r.perih_vec)) || memcmp( r.sideways, e.sideways, sizeof( r.sideways)) || r.angular_momentum != e.angular_momentum || (e.ecc != 1. ? r.t0 != e.t0 || r.major_axis != e.major_axis : r.w0 != e.w0))
         { vh_fail( "sof-derived", "derived quantities don't follow from the elements"); ok = false; }
      }
   if( ok) vh.validated++;
   vh_outcome( vh_hash( &e.perih_vec, 24) ^ (uint64_t)rc);
}
static uint64_t gidx = 0;
static void perms( int *sel, int n, int k, unsigned used, const int *pool, int npool)
{
   if( n == k)
      {
      if( vh_mine( gidx++)) sof_case( sel, n, (int)(gidx % 7) + (int)(gidx / 11), 100000, (int)(gidx % 3), gidx & 1);
      return;
      }
   for( int i = 0; i < npool; i++)
      if( !(used >> i & 1)) { sel[n] = pool[i]; perms( sel, n + 1, k, used | 1u << i, pool, npool); }
}
static void sof( )
{
   int sel[NF];
   static const int pool[] = { F_Q, F_E, F_I, F_OM, F_om, F_TP, F_TE, F_H, F_C, F_NAME, F_G };
   for( int k = 1; k <= 6; k++) perms( sel, 0, k, 0, pool, 10);                 /* any 1..6 of ten columns, any order */
   perms( sel, 0, vh.thorough ? 9 : 8, 0, pool, vh.thorough ? 9 : 8);
   /* every subset of all columns in the catalogue's order, and reversed */
   static const int order[] = { F_NAME, F_TP, F_TE, F_Q, F_I, F_OM, F_om, F_E, F_RMS, F_UNK, F_TF, F_TL, F_C, F_H, F_G, F_TW };
   for( unsigned m = 1; m < 1u << 16; m++)
      for( int rev = 0; rev < 2; rev++)
         if( vh_mine( gidx++))
            {
            int n = 0; for( int i = 0; i < 16; i++) { const int j = rev ? 15 - i : i; if( m >> j & 1) sel[n++] = order[j]; }
            sof_case( sel, n, (int)(m % 13), 100000, (int)(m % 3), !(m & 1));
            }
   /* single-letter nodes, and every point of cutting the line short */
   static const int layouts[][16] = { { F_NAME, F_TP, F_TE, F_Q, F_I, F_OM, F_om, F_E, F_RMS, F_TF, F_TL, F_H, F_G, -1 }, { F_Q, F_E, F_I, F_O1, F_o1, F_TP, F_TE, F_H, -1 },
      { F_H, F_TW, F_RMS, F_C, F_E, F_o1, F_O1, F_I, F_Q, F_TP, -1 }, { F_TP, F_om, F_I, F_OM, F_E, F_Q, -1 } };
   for( int lay = 0; lay < 4; lay++) for( int var = 0; var < 8; var++) for( size_t cut = 0; cut < 180; cut++) for( int end = 0; end < 3; end++) for( int ex = 0; ex < 2; ex++)
      if( vh_mine( gidx++))
         { int n = 0; while( layouts[lay][n] >= 0) n++; sof_case( layouts[lay], n, var, cut, end, ex); }
   /* every day */
   for( long y = vh.thorough ? 1000 : 1500; y < (vh.thorough ? 10000 : 2600); y++) for( int m = 1; m <= 12; m++)
      if( vh_mine( gidx++)) for( int d = 1; d <= mlen( y, m); d++)
         {
         const int nd = (int)((y + d) % 9); const double f = (double)((y * 977 + m * 31 + d) % 1000) / 1000.;
         std::string s = fmt( "%04ld%02d%02d", y, m, d); double want = (double)jdn( y, m, d) - .5;
         if( nd) { std::string g = fmt( "%.*f", nd, f * .999); s += g.substr( 1); want += atof( g.c_str( ) + 1); }
         if( d & 1) s += " ";
         Exact e( s); vh_ats( "extract_yyyymmdd_to_jd", s.c_str( )); vh.states++; vh.transitions++;
         const double got = extract_yyyymmdd_to_jd( e.p);
         if( fabs( got - want) > 1e-9) vh_fail( "sof-date", "'%s' is %.9f, should be %.9f", s.c_str( ), got, want); else vh.validated++;
         }
}
/* ---- MPCORB and astorb ---- */
struct Orb { double M, w, O, i, e, a, H, G; long y; int m, d; };
static char ext( int v) { return v < 10 ? (char)('0' + v) : v < 36 ? (char)('A' + v - 10) : (char)('a' + v - 36); }
static std::string at( std::string s, size_t col, const std::string &t) { if( s.size( ) < col + t.size( )) s.resize( col + t.size( ), ' '); s.replace( col, t.size( ), t); return s; }
static std::string mpcorb_line( const Orb &o, bool mag, int name, int arc)
{
   std::string s( 202, ' ');
   s = at( s, 0, "00001");
   if( mag) { s = at( s, 8, fmt( "%5.2f", o.H)); s = at( s, 14, fmt( "%5.2f", o.G)); }
   s = at( s, 20, fmt( "%c%02ld%c%c", ext( (int)(o.y / 100)), o.y % 100, ext( o.m), ext( o.d)));
   s = at( s, 26, fmt( "%9.5f", o.M)); s = at( s, 37, fmt( "%9.5f", o.w)); s = at( s, 48, fmt( "%9.5f", o.O)); s = at( s, 59, fmt( "%9.5f", o.i));
   s = at( s, 70, fmt( "%9.7f", o.e)); s = at( s, 80, fmt( "%11.8f", .9856 / (o.a * sqrt( o.a)))); s = at( s, 92, fmt( "%11.7f", o.a));
   s = at( s, 105, "0 MPO492748"); s = at( s, 117, " 6751 115"); s = at( s, 127, arc ? "1801-2019" : "  17 days"); s = at( s, 137, "0.60"); s = at( s, 142, "M-v 30h"); s = at( s, 150, "Williams");
   static const char *names[] = { "     (1) Ceres", "(123456)", "         2019 AB123", "P10Xabc" };
   s = at( s, 161, "0000"); s = at( s, 166, names[name]); s = at( s, 194, "20190915");
   return s;
}
static std::string astorb_line( const Orb &o)
{
   std::string s( 268, ' ');
   s = at( s, 0, "     1 Ceres              L.H. Wasserman"); s = at( s, 42, fmt( "%5.2f", o.H)); s = at( s, 49, fmt( "%5.2f", o.G));
   s = at( s, 106, fmt( "%04ld%02d%02d", o.y, o.m, o.d)); s = at( s, 115, fmt( "%10.6f", o.M)); s = at( s, 126, fmt( "%10.6f", o.w)); s = at( s, 137, fmt( "%10.6f", o.O)); s = at( s, 147, fmt( "%10.6f", o.i));
   s = at( s, 158, fmt( "%10.8f", o.e)); s = at( s, 168, fmt( "%13.8f", o.a));
   return s;
}
static bool check_orb( const char *what, const ELEMENTS &e, const Orb &o, bool mag, double ang)
{
   bool ok = true;
   auto c = [&]( const char *n, double got, double want, double tol) { if( fabs( got - want) > tol * (1. + fabs( want))) { vh_fail( (std::string( what) + "-" + n).c_str( ), "%s is %.10f, should be %.10f", n, got, want); ok = false; } };
   (void)ang;
   const double q = o.a * (1. - o.e), t0 = o.a * sqrt( o.a / GMS), ep = (double)jdn( o.y, o.m, o.d) - .5;
   c( "M", e.mean_anomaly, o.M * R, 1e-14); c( "argument", e.arg_per, o.w * R, 1e-14); c( "node", e.asc_node, o.O * R, 1e-14); c( "inclination", e.incl, o.i * R, 1e-14);
   c( "e", e.ecc, o.e, 1e-14); c( "a", e.major_axis, o.a, 1e-13 / (1. - o.e)); c( "q", e.q, q, 1e-14); c( "epoch", e.epoch, ep, 0.);
   c( "t0", e.t0, t0, 1e-12 / (1. - o.e)); c( "momentum", e.angular_momentum, sqrt( GMS * q * (1. + o.e)), 1e-14);
   double M = o.M > 180. ? o.M - 360. : o.M;
   if( fabs( M) < 179.9999999) c( "perihelion", e.perih_time, ep - M * R * t0, 1e-12 / (1. - o.e));
   c( "H", e.abs_mag, mag ? o.H : 0., 1e-15); c( "G", e.slope_param, mag ? o.G : 0., 1e-15);
   if( e.central_obj || !e.is_asteroid || e.gm != GMS) { vh_fail( (std::string( what) + "-kind").c_str( ), "central body %d", e.central_obj); ok = false; }
   ELEMENTS r = e; derive_quantities( &r, GMS);
   if( memcmp( r.perih_vec, e.perih_vec, sizeof( r.perih_vec)) || memcmp( r.sideways, e.sideways, sizeof( r.sideways))) { vh_fail( (std::string( what) + "-vectors").c_str( ), "orbit vectors don't follow from the elements"); ok = false; }
   return ok;
}
static double rnd( double v, int places) { return atof( fmt( "%.*f", places, v).c_str( )); }
static std::vector<Orb> orbits( )
{
   static const double M[] = { 0., .00001, 77.37215, 179.99999, 180.00001, 359.99999 }, w[] = { 0., 73.59764, 359.99999 }, O[] = { 0., 80.30553, 270. }, in[] = { 0., 10.59407, 90., 179.99999 }, e[] = { 0., .0760091, .5, .9999, .9723456 }, a[] = { .5553621, 2.7691652, 39.4450697, 503.1234567, 1503.1234567 };
   std::vector<Orb> r; int k = 0;
   for( double m : M) for( double ww : w) for( double o : O) for( double i : in) for( double ee : e) for( double aa : a)
      { k++; r.push_back( { m, ww, o, i, ee, aa, -1.25 + (k % 30), .15 + .01 * (k % 7), 1800 + (k * 7) % 300, 1 + k % 12, 1 + k % 28 }); }
   return r;
}
static void catalogues( )
{
   const std::vector<Orb> v = orbits( );
   for( size_t k = 0; k < v.size( ); k++)
      {
      if( !vh_mine( gidx++)) continue;
      for( int mag = 0; mag < 2; mag++)
         {
         const std::string s = mpcorb_line( v[k], mag, k & 3, k & 1);
         Exact x( s); ELEMENTS e; memset( (void *)&e, 0xa5, sizeof( e));
         vh_ats( "extract_mpcorb_dat", s.c_str( )); vh.states++; vh.transitions += 2;
         const long ep = extract_mpcorb_dat( &e, x.p), ep0 = extract_mpcorb_dat( NULL, x.p);
         if( ep != jdn( v[k].y, v[k].m, v[k].d) || ep0 != ep) vh_fail( "mpcorb-rejected", "returns %ld and %ld", ep, ep0);
         else { Orb o = v[k]; o.H = rnd( o.H, 2); o.G = rnd( o.G, 2); if( check_orb( "mpcorb", e, o, mag, 1e-5)) vh.validated++; }
         vh_outcome( vh_hash( &e.perih_vec, 24));
         }
      const std::string s = astorb_line( v[k]);
      Exact x( s); ELEMENTS e; memset( (void *)&e, 0xa5, sizeof( e));
      vh_ats( "extract_astorb_dat", s.c_str( )); vh.states++; vh.transitions += 2;
      const long ep = extract_astorb_dat( &e, x.p), ep0 = extract_astorb_dat( NULL, x.p);
      if( ep != jdn( v[k].y, v[k].m, v[k].d) || ep0 != ep) vh_fail( "astorb-rejected", "returns %ld and %ld", ep, ep0);
      else { Orb o = v[k]; o.H = rnd( o.H, 2); o.G = rnd( o.G, 2); if( check_orb( "astorb", e, o, true, 1e-6)) vh.validated++; }
      }
   /* every epoch, and every length and damaged column */
   Orb o = v[1234];
   for( long y = 1800; y < 2100; y++) for( int m = 1; m <= 12; m++)
      if( vh_mine( gidx++)) for( int d = 1; d <= mlen( y, m); d++)
         {
         o.y = y; o.m = m; o.d = d;
         Exact x( mpcorb_line( o, true, 0, 0)), z( astorb_line( o)); ELEMENTS e;
         vh_at( "epoch", y, m, d); vh.states++; vh.transitions += 2;
         const long a = extract_mpcorb_dat( &e, x.p), b = extract_astorb_dat( NULL, z.p);
         if( a != jdn( y, m, d) || e.epoch != (double)a - .5) vh_fail( "mpcorb-epoch", "epoch %ld", a);
         else if( b != jdn( y, m, d)) vh_fail( "astorb-epoch", "epoch %ld", b);
         else vh.validated++;
         }
   const std::string s = mpcorb_line( o, true, 0, 0);
   for( size_t n = 0; n <= s.size( ); n++) if( vh_mine( gidx++))
      { Exact x( s.substr( 0, n)); ELEMENTS e; vh_at( "mpcorb cut", (long)n); vh.states++; const long a = extract_mpcorb_dat( &e, x.p); if( (a != 0) != (n > 200)) vh_fail( "mpcorb-cut", "%zu bytes: %ld", n, a); else vh.validated++; }
   static const int fixed[] = { 25, 29, 36, 47, 82 };
   for( int col : fixed) for( int ch = 1; ch < 256; ch++) if( vh_mine( gidx++) && (char)ch != s[col])
      { std::string t = s; t[col] = (char)ch; Exact x( t); ELEMENTS e; vh_at( "mpcorb damaged", col, ch); vh.states++; if( extract_mpcorb_dat( &e, x.p)) vh_fail( "mpcorb-damaged", "accepted with %d in column %d", ch, col); else vh.validated++; }
   const std::string t = astorb_line( o);
   for( size_t n = 0; n <= t.size( ); n++) if( vh_mine( gidx++))
      { Exact x( t.substr( 0, n)); ELEMENTS e; vh_at( "astorb cut", (long)n); vh.states++; const long a = extract_astorb_dat( &e, x.p); if( (a != 0) != (n > 267)) vh_fail( "astorb-cut", "%zu bytes: %ld", n, a); else vh.validated++; }
}
/* the converter: MPCORB and ELEMENTS.COMET in, SOF out, read back */
static void converter( )
{
   const std::vector<Orb> v = orbits( );
   static const int sizes[] = { 0, 1, 2, 3, 5, 8, 16, 17 };
   for( int ns = 0; ns < 8; ns++) for( int nc = 0; nc < 12; nc++) for( int rep = 0; rep < (vh.thorough ? 60 : 12); rep++)
      {
      if( !vh_mine( gidx++)) continue;
      const int n = sizes[ns]; std::vector<Orb> want; std::vector<std::string> names;
      FILE *f = fopen( "in.dat", "wb");
      for( int k = 0; k < n; k++)
         {
         Orb o; double tp; size_t pick = ns * 1013 + rep * 37 + k * 331;
         do       /* SOF has room for q < 100 and years 1000 to 9999 */
            { o = v[pick++ % v.size( )]; const double t0 = o.a * sqrt( o.a / GMS), M = o.M > 180. ? o.M - 360. : o.M; tp = (double)jdn( o.y, o.m, o.d) - .5 - M * R * t0; }
            while( o.a * (1. - o.e) > 99.99 || tp < 2086400. || tp > 5373000.);
         const int nm = (k + rep) & 3;
         fprintf( f, "%s\n", mpcorb_line( o, true, nm, k & 1).c_str( ));
         if( k % 3 == 1) fprintf( f, "\nsome other line\n");
         o.H = rnd( o.H, 2); o.G = rnd( o.G, 2); want.push_back( o);
         static const char *nn[] = { "           1", "      123456", "2019 AB123  ", "P10Xabc     " };
         names.push_back( nn[nm]);
         }
      fclose( f);
      f = fopen( "comets", "wb");
      fprintf( f, "Num  Name                                     Epoch\n-----------------------------------\n");
      const std::vector<double> cq = { .5861, 1.2345678, 5.75 };
      for( int k = 0; k < nc; k++)
         {
         std::string s( 125, ' ');
         static const char *cn[] = { "  1P/Halley", "   C/1995 O1 (Hale-Bopp)", " 73P/Schwassmann-Wachmann 3-C", " 73P/Schwassmann-Wachmann 3-BA" };
         static const char *on[] = { "  1P        ", "C/1995 O1   ", " 73P-C      ", " 73P-BA     " };
         s = at( s, 0, cn[k & 3]); s = at( s, 44, fmt( "%5d", 50000 + k)); s = at( s, 51, fmt( "%11.8f", cq[k % 3])); s = at( s, 64, fmt( "%10.8f", .9 + .009 * k)); s = at( s, 75, fmt( "%9.5f", 10.5 * k)); s = at( s, 85, fmt( "%9.5f", 30.25 * k)); s = at( s, 95, fmt( "%9.5f", 29. * k));
         s = at( s, 105, fmt( "2001%02d%02d.%05d", 1 + k % 12, 1 + k * 2, 12345 + k)); s = at( s, 120, "ref");
         fprintf( f, "%s\n", s.c_str( ));
         want.push_back( { 0., 10.5 * k, 30.25 * k, 0., .9 + .009 * k, 0., 0., 0., 2001, 1 + k % 12, 1 + k * 2 }); names.push_back( on[k & 3]);
         /* the columns are q e i omega Omega in the file */
         want.back( ).i = 10.5 * k; want.back( ).w = 30.25 * k; want.back( ).O = 29. * k; want.back( ).a = cq[k % 3] / (1. - (.9 + .009 * k));
         }
      fclose( f);
      vh_at( "mpc2sof", n, nc, rep);
      const char *args[] = { "mpc2sof", "in.dat", "comets", NULL };
      if( !nc && (rep & 1)) args[2] = "i";
      vh.states++;
      if( mpc2sof_main( 3, args)) { vh_fail( "mpc2sof-fails", "the conversion fails"); continue; }
      f = fopen( "mpcorb.sof", "rb");
      char head[400], line[400]; size_t got = 0;
      if( !f || !fgets( head, sizeof( head), f)) { vh_fail( "mpc2sof-output", "no output"); if( f) fclose( f); continue; }
      while( fgets( line, sizeof( line), f))
         {
         vh.transitions++;
         if( got >= want.size( )) { vh_fail( "mpc2sof-extra", "line '%s'", line); break; }
         ELEMENTS e; double extra[4];
         const bool comet = got >= (size_t)n; const Orb &o = want[got];
         if( strlen( line) != strlen( head)) { vh_fail( "mpc2sof-width", "'%s'", line); break; }
         if( extract_sof_data_ex( &e, line, head, extra)) { vh_fail( "mpc2sof-unreadable", "'%s'", line); break; }
         bool ok = true;
         auto c = [&]( const char *nm, double g, double w, double tol) { if( !(fabs( g - w) <= tol)) { vh_fail( (std::string( "mpc2sof-") + nm).c_str( ), "'%s': %s is %.9f, should be %.9f", line, nm, g, w); ok = false; } };
         if( strncmp( line, names[got].c_str( ), 12)) { vh_fail( "mpc2sof-name", "'%s', should be '%s'", line, names[got].c_str( )); ok = false; }
         c( "q", e.q, o.a * (1. - o.e), .51e-8 + 1e-14); c( "e", e.ecc, o.e, .51e-8); c( "i", e.incl / R, o.i, .51e-6); c( "node", e.asc_node / R, o.O, .51e-6); c( "argument", e.arg_per / R, o.w, .51e-6);
         if( comet) { c( "epoch", e.epoch, 2450000.5 + (double)(got - n), 0.); c( "Tp", e.perih_time, (double)jdn( o.y, o.m, o.d) - .5 + (12345 + (double)(got - n)) * 1e-5, 1.1e-7); }
         else
            {
            const double t0 = o.a * sqrt( o.a / GMS), M = o.M > 180. ? o.M - 360. : o.M, tp = (double)jdn( o.y, o.m, o.d) - .5 - M * R * t0;
            c( "epoch", e.epoch, (double)jdn( o.y, o.m, o.d) - .5, 0.);
            c( "Tp", e.perih_time, tp, 1.1e-7 + 1e-12 * fabs( M * t0) / (1. - o.e));
            c( "H", e.abs_mag, o.H, 1e-9); c( "G", e.slope_param, o.G, 1e-9); c( "rms", extra[3], .6, 1e-9); c( "last", extra[1], (double)jdn( 2019, 9, 15) - .5, 0.);
            }
         if( ok) vh.validated++;
         vh_outcome( vh_hash( line, strlen( line)));
         got++;
         }
      fclose( f);
      if( got < want.size( )) vh_fail( "mpc2sof-missing", "%zu of %zu objects converted", got, want.size( ));
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   if( !freopen( "/dev/null", "wb", stdout)) return 1;
   sof( ); catalogues( ); converter( );
   vh_sample( "header 'q          |e         |...', every column order");
   vh_done( );
   return 0;
}
