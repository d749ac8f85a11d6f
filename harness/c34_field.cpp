/* C34: 'astcheck', as a black box: every known object in the field, whatever the field, whatever earlier or simultaneous
   runs left behind. */
#include "vh.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include "watdefs.h"
#include "comets.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "jplstub/sched.h"
int get_earth_loc( const double t_millennia, double *results);
typedef std::string S;
static const double PI_ = 3.14159265358979323846, GM = .01720209895 * .01720209895, AS = 180. * 3600. / PI_;
static const char *prog, *prog_asan;
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); e = e == S::npos ? t.size( ) : e; r.push_back( t.substr( i, e - i)); i = e + 1; } return r; }
static void no_chk( void) { std::vector<S> v; DIR *d = opendir( "."); while( dirent *e = readdir( d)) { S n = e->d_name; if( n.size( ) > 4 && n.substr( n.size( ) - 4) == ".chk") v.push_back( n); } closedir( d); for( auto &n : v) unlink( n.c_str( )); }
static std::vector<S> chks( void) { std::vector<S> v; DIR *d = opendir( "."); while( dirent *e = readdir( d)) { S n = e->d_name; if( n.size( ) > 4 && n.substr( n.size( ) - 4) == ".chk") v.push_back( n); } closedir( d); std::sort( v.begin( ), v.end( )); return v; }

/* ---- the catalogue ---- */
struct El { double q, e, i, om, node, tp, epoch, H, G; char name[13]; };
static S ymd( double jd, bool frac)
{
   char b[60]; full_ctime( b, jd, FULL_CTIME_YMD | FULL_CTIME_NO_SPACES | FULL_CTIME_MONTHS_AS_DIGITS | FULL_CTIME_FORMAT_DAY | FULL_CTIME_LEADING_ZEROES | (frac ? FULL_CTIME_7_PLACES : 0)); return b;
}
static const char *header = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";
static S line( const El &l)
{
   char b[400]; snprintf( b, sizeof b, "%12s %16s %s %11.8f %10.6f %10.6f %10.6f %10.8f 0.51   123 19800101 20100304 %-7s %5.2f %5.2f\n", l.name, ymd( l.tp, true).c_str( ), ymd( l.epoch, false).c_str( ), l.q, l.i, l.node, l.om, l.e, "M-v 3Ek", l.H, l.G);
   return b;
}
static double yj( const char *t) { int y, m, d; sscanf( t, "%4d%2d%2d", &y, &m, &d); return (double)dmy_to_day( d, m, y, 0) - .5 + (t[8] == '.' ? atof( t + 8) : 0.); }
static void reparse( El &l) { const S t = line( l); l.tp = yj( t.c_str( ) + 13); l.epoch = yj( t.c_str( ) + 30); l.q = atof( t.c_str( ) + 39); l.i = atof( t.c_str( ) + 51); l.node = atof( t.c_str( ) + 62); l.om = atof( t.c_str( ) + 73); l.e = atof( t.c_str( ) + 84); l.H = floor( l.H * 100. + .5) / 100.; l.G = floor( l.G * 100. + .5) / 100.; }
static std::vector<El> catalogue( double epoch, int n, int salt)
{
   std::vector<El> r; unsigned s = 12345u + (unsigned)salt * 7919u;
   auto rnd = [&]( ) { s = s * 1664525u + 1013904223u; return (double)( s >> 8) / 16777216.; };
   for( int k = 0; k < n; k++)
      {
      El l; const int kind = k % 10; double a = 2.1 + 1.2 * rnd( ), e = .25 * rnd( ), i = 25. * rnd( );
      if( kind == 0) { a = 1.2 + rnd( ); e = .2 + .4 * rnd( ); i = 60. * rnd( ); }
      if( kind == 1) { a = 2.4; i = 70. + 40. * rnd( ); }             /* high declinations */
      if( kind == 2) { a = 3.; i = 80. + 20. * rnd( ); e = .3; }
      if( kind == 3) { a = 5.2; e = .05; }
      if( kind == 4) { a = 40. + 10. * rnd( ); i = 180. * rnd( ); }
      if( kind == 5) { a = .9 + .4 * rnd( ); e = .1 + .4 * rnd( ); i = 5. + 90. * rnd( ); }
      if( kind == 6) { a = 2.6; e = .75; i = 150. * rnd( ); }
      const double P = 365.25 * a * sqrt( a);
      l.q = a * (1. - e); l.e = e; l.i = i; l.om = 360. * rnd( ); l.node = 360. * rnd( ); l.tp = epoch + (rnd( ) - .5) * P; l.epoch = epoch; l.H = 8. + 10. * rnd( ); l.G = k % 3 ? .15 : .05 + .4 * rnd( );
      if( kind == 7 && k % 20 == 7) { l.e = 1.; l.q = .5 + 2. * rnd( ); l.tp = epoch + (rnd( ) - .5) * 400.; } 
      if( kind == 8 && k % 20 == 8) { l.e = 1.2 + rnd( ); l.q = 1. + rnd( ); l.tp = epoch + (rnd( ) - .5) * 400.; }
      snprintf( l.name, sizeof l.name, k % 2 ? "%12d" : "     K%02d%c%02d%c", k % 2 ? 1000 * salt + k + 1 : (k / 2) % 30, 'A' + k % 8, (k + salt) % 100, 'A' + (k / 8) % 24);
      reparse( l); r.push_back( l);
      }
   return r;
}
static S sof( const std::vector<El> &v) { S t = header; for( auto &l : v) t += line( l); return t; }

/* ---- where things are ---- */
struct Site { const char *code; double lon, rc, rs; };
static const Site sites[] = { { "500", 0., 0., 0. }, { "F51", 203.74409, .936241, .351543 }, { "F5A", 10.25, .7, -.712 }, { "Z99", 255.5, .05, .9966 }, { "RV1", 100.25, .6225, .7801 } };
static S obscodes( void)
{
   S t = "<pre>\nCode  Long.   cos      sin    Name\n"; char b[100];
   for( int i = 0; i < 4; i++) { snprintf( b, sizeof b, i ? "%s %9.5f%8.6f%+9.6fStation %d\n" : "%s                           Geocenter%d\n", sites[i].code, i ? sites[i].lon : 0., sites[i].rc, sites[i].rs, i); if( !i) snprintf( b, sizeof b, "500   0.000000.000000 0.000000Geocentric\n"); t += b; }
   return t + "</pre>\n";
}
static S rovers( void) { return "RV1 100.250000.622500+0.780100Van\n"; }
static void observer( const Site &s, double ut, double tt, double *o)       /* J2000 ecliptic, heliocentric */
{
   double e[6]; get_earth_loc( (tt - 2451545.) / 365250., e);
   const double gst = 280.46061837 + 360.98564736629 * (ut - 2451545.), ang = (gst + s.lon) * PI_ / 180., R = 6378.140 / AU_IN_KM, ob = 23.4392911 * PI_ / 180.;
   const double x = R * s.rc * cos( ang), y = R * s.rc * sin( ang), z = R * s.rs;
   o[0] = e[0] + x; o[1] = e[1] + y * cos( ob) + z * sin( ob); o[2] = e[2] - y * sin( ob) + z * cos( ob);
}
struct Place { double ra, dec, dist, r, R; };
static Place place( const El &l, const Site &s, double ut, double tt_pos, double tt_obs)
{
   ELEMENTS e; memset( &e, 0, sizeof e); e.gm = GM; e.q = l.q; e.ecc = l.e; e.incl = l.i * PI_ / 180.; e.arg_per = l.om * PI_ / 180.; e.asc_node = l.node * PI_ / 180.; e.perih_time = l.tp; e.epoch = l.epoch; derive_quantities( &e, GM);
   double o[3], p[6]; observer( s, ut, tt_obs, o); double d = 0.; Place r;
   for( int k = 0; k < 6; k++)
      {
      comet_posn( &e, tt_pos - d / 173.144632674240, p); d = 0.; for( int j = 0; j < 3; j++) d += (p[j] - o[j]) * (p[j] - o[j]); d = sqrt( d);
      }
   const double ob = 23.4392911 * PI_ / 180., x = p[0] - o[0], y = (p[1] - o[1]) * cos( ob) - (p[2] - o[2]) * sin( ob), z = (p[1] - o[1]) * sin( ob) + (p[2] - o[2]) * cos( ob);
   r.ra = atan2( y, x); if( r.ra < 0.) r.ra += 2. * PI_; r.dec = asin( z / d); r.dist = d; r.r = sqrt( p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); r.R = sqrt( o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
   return r;
}
static double magnitude( const El &l, const Place &p)
{
   const double c = std::max( -1., std::min( 1., (p.r * p.r + p.dist * p.dist - p.R * p.R) / (2. * p.r * p.dist))), t = tan( acos( c) / 2.);
   return l.H + 5. * log10( p.r * p.dist) - 2.5 * log10( (1. - l.G) * exp( -3.33 * pow( t, .63)) + l.G * exp( -1.87 * pow( t, 1.22)));
}
static double td( double ut) { return td_minus_ut( ut) / 86400.; }
static double turn( double a) { return remainder( a, 2. * PI_); }

/* ---- what is asked ---- */
struct Obs { char desig[13]; double jd, ra, dec; int site; double dra, ddec, dt; int second; /* motion, "/hr; second: 0 none, 1 same site, 2 other site */ };
static S record( const char *desig, double &jd, double &ra, double &dec, const char *code)
{
   char b[200]; long d = (long)floor( jd + .5); double f = jd + .5 - (double)d; f = floor( f * 1e6) / 1e6; int dd, mm; long yy; day_to_dmy( d, &dd, &mm, &yy, 0);
   ra = fmod( ra + 4. * PI_, 2. * PI_);
   long a = lround( ra * 12. / PI_ * 3600000.) % 86400000, c = lround( fabs( dec) * 180. / PI_ * 360000.); const int sgn = dec < 0. ? -1 : 1;
   jd = (double)d - .5 + f; ra = (double)a / 3600000. * PI_ / 12.; dec = sgn * (double)c / 360000. * PI_ / 180.;
   snprintf( b, sizeof b, "%12s  C%04ld %02d %09.6f%02ld %02ld %06.3f%c%02ld %02ld %05.2f                     %s", desig, yy, mm, dd + f, a / 3600000, a / 60000 % 60, a % 60000 / 1000., sgn < 0 ? '-' : '+', c / 360000, c / 6000 % 60, c % 6000 / 100., code);
   return S( b) + "\n";
}
static int run( const S &args, bool asan = false, const char *out = "out.txt")
{
   const S cmd = S( "ASAN_OPTIONS=detect_leaks=0:exitcode=177 timeout -s KILL 60 ") + (asan ? prog_asan : prog) + " " + args + " > " + out + " 2>&1";
   return system( cmd.c_str( ));
}
static uint64_t n_listed, n_fields;
/* one run over many fields; every field is checked against every object */
static void ask( const char *key, const std::vector<El> &cat, std::vector<Obs> &v, double radius, double maglim, double z, int max_res, const char *more, bool asan)
{
   S t; std::vector<double> mra( v.size( )), mdec( v.size( )), dt( v.size( )); std::vector<bool> single( v.size( ));
   for( size_t i = 0; i < v.size( ); i++)
      {
      Obs &o = v[i]; t += record( o.desig, o.jd, o.ra, o.dec, sites[o.site].code); mra[i] = mdec[i] = 0.; single[i] = true; dt[i] = 1e-6;
      if( o.second == 3) t += record( o.desig, o.jd, o.ra, o.dec, sites[o.site].code);      /* the same again */
      else if( o.second)
         {
         double j = o.jd + o.dt, ra = o.ra + o.dra * o.dt * 24. / AS / cos( o.dec), dec = o.dec + o.ddec * o.dt * 24. / AS;
         t += record( o.desig, j, ra, dec, sites[o.second == 2 ? (o.site + 1) % 4 : o.site].code);
         if( o.second == 1) { dt[i] = j - o.jd; mra[i] = turn( ra - o.ra) * cos( o.dec) * AS / dt[i] / 24.; mdec[i] = (dec - o.dec) * AS / dt[i] / 24.; single[i] = false; }
         }
      }
   spit( "obs.txt", t);
   char b[300]; snprintf( b, sizeof b, "obs.txt -h -r%g -m%g -z%g -M%d%s", radius, maglim, z, max_res, more); vh_ats( key, b);
   const int rc = run( b, asan); const auto out = split( slurp( "out.txt")); vh.transitions++;
   if( rc) { vh_fail( key, "'astcheck %s': status %d", b, rc); return; }
   std::map<S, std::vector<S>> got; S cur;
   for( auto &l : out) { if( l.size( ) > 14 && l[12] == ':') { cur = l.substr( 0, 12); got[cur]; got[cur].insert( got[cur].begin( ), l); } else if( l.size( ) > 40) got[cur].push_back( l); }
   for( size_t i = 0; i < v.size( ); i++)
      {
      const Obs &o = v[i]; char nm[13]; snprintf( nm, sizeof nm, "%12s", o.desig); vh_ats( key, b, nm); vh.states++; n_fields++;
      auto it = got.find( nm); if( it == got.end( )) { vh_fail( "answer", "'astcheck %s': nothing about %s", b, nm); continue; }
      const auto &g = it->second; double a = 0., c = 0., h = 0.;
      if( single[i] ? g[0].find( "only one observation") == S::npos : (sscanf( g[0].c_str( ) + 13, "%lf\"/hr in RA, %lf\"/hr in dec (%lf hours)", &a, &c, &h) != 3 || fabs( a - mra[i]) > .51 || fabs( c - mdec[i]) > .51 || fabs( h - dt[i] * 24.) > .0051))
         vh_fail( "observed-motion", "'astcheck %s': '%s', but it moves %.2f, %.2f\"/hr over %.3f hours", b, g[0].c_str( ), mra[i], mdec[i], dt[i] * 24.);
      const double ut = o.jd, tt = ut + td( ut); std::map<S, const S *> listed; double last = -1.; bool ok = true;
      for( size_t k = 1; k < g.size( ); k++)
         {
         if( listed.count( g[k].substr( 0, 12))) { vh_fail( "twice", "'astcheck %s': '%s' twice", b, g[k].c_str( )); ok = false; }
         listed[g[k].substr( 0, 12)] = &g[k]; const double d = atof( g[k].c_str( ) + 40); n_listed++;
         if( d < last - 1.) { vh_fail( "order", "'astcheck %s': '%s' comes after one at %.0f", b, g[k].c_str( ), last); ok = false; }
         last = d;
         }
      const bool full = (int)listed.size( ) >= max_res; if( (int)listed.size( ) > max_res) vh_fail( "number", "'astcheck %s': %zu results", b, listed.size( ));
      for( auto &l : cat)
         {
         const Place p = place( l, sites[o.site], ut, tt, tt); const double flat_ra = turn( p.ra - o.ra) * cos( o.dec), flat_dec = p.dec - o.dec, flat = sqrt( flat_ra * flat_ra + flat_dec * flat_dec) * AS;
         const double c1 = cos( o.dec) * cos( p.dec), hv = sin( .5 * (p.dec - o.dec)) * sin( .5 * (p.dec - o.dec)) + c1 * sin( .5 * turn( p.ra - o.ra)) * sin( .5 * turn( p.ra - o.ra)), truth = 2. * asin( sqrt( std::min( 1., hv))) * AS;
         auto li = listed.find( l.name);
         if( li == listed.end( ) && truth > radius * 1.2 + 10.) continue;
         const double mag = magnitude( l, p), eps = .6 + .1 / p.dist; const Place p2 = place( l, sites[o.site], ut + dt[i], tt + dt[i], tt + dt[i]);
         const double vr = turn( p2.ra - p.ra) * cos( o.dec) * AS / dt[i] / 24., vd = (p2.dec - p.dec) * AS / dt[i] / 24.;
         const double off = single[i] ? 0. : std::max( fabs( vr - mra[i]), fabs( vd - mdec[i])), veps = .01 + (single[i] ? 20. : .2 / p.dist / dt[i] / 24.);
         const bool surely = truth < radius - eps && flat < radius - eps && mag < maglim - .01 && (single[i] || off < z - veps), maybe = (truth < radius + eps || flat < radius + eps) && mag < maglim + .01 && (single[i] || off < z + veps);
         vh.states++;
         if( li == listed.end( ))
            {
            if( surely && p.dist > .2 && !(full && (truth > last - 1. || flat > last - 1.)))
               { vh_fail( "missed", "'astcheck %s': %s (%.6f,%+.6f) is not told about %s, %.1f\" away (mag %.2f, motion %.2f off)", b, nm, o.ra * 180. / PI_, o.dec * 180. / PI_, l.name, truth, mag, off); ok = false; }
            continue;
            }
         const S &w = *li->second; double x[6]; 
         for( int k = 0; k < 6; k++) { static const int at[6] = { 26, 33, 41, 49, 54, 59 }, len[6] = { 6, 6, 6, 4, 5, 5 }; x[k] = atof( w.substr( (size_t)at[k], (size_t)len[k]).c_str( )); }
         if( !maybe) { vh_fail( "outside", "'astcheck %s': %s is told about '%s', really %.1f\" away, mag %.2f, motion %.2f off", b, nm, w.c_str( ), truth, mag, off); ok = false; continue; }
         if( fabs( x[0] + flat_ra * AS) > eps || fabs( x[1] + flat_dec * AS) > eps || fabs( x[2] - flat) > eps || fabs( x[3] - mag) > .06)
            { vh_fail( "separation", "'astcheck %s': '%s', should be %.1f %.1f %.1f mag %.3f, distance %.5f", b, w.c_str( ), -flat_ra * AS, -flat_dec * AS, flat, mag, p.dist); ok = false; continue; }
         if( fabs( x[4] - vr) > .5 + veps || fabs( x[5] - vd) > .5 + veps) { vh_fail( "motion", "'astcheck %s': '%s', should move %.2f %.2f", b, w.c_str( ), vr, vd); ok = false; continue; }
         vh.validated++;
         }
      if( ok) vh_outcome( g.size( ) > 1 ? g[1].c_str( ) : "");
      }
}
static void name_obs( Obs &o, int k) { memset( &o, 0, sizeof o); snprintf( o.desig, sizeof o.desig, "     T%06d", k); }
static const double EPOCH = 2459000.5;

/* ---- histories ---- */
static S cat_text[4];
static S fields_for( const std::vector<El> &cat, double jd, int which)
{
   S t; for( int k = 0; k < 3; k++)
      {
      const double ut = jd; Place p = place( cat[(size_t)( which * 3 + k) % cat.size( )], sites[1], ut, ut + td( ut), ut + td( ut)); char nm[14]; snprintf( nm, sizeof nm, "     H%02d%d%03d", which, k, (int)fmod( jd, 1000.)); double j = jd, ra = p.ra + .001, dec = p.dec - .0007; t += record( nm, j, ra, dec, "F51");
      }
   return t;
}
static const char *hist_args = "obs.txt -h -r7200 -m30";
static S wanted( const S &sofx, const S &obs)
{
   static std::map<S, S> memo; auto it = memo.find( sofx + obs); if( it != memo.end( )) return it->second;
   no_chk( ); spit( "mpcorb.sof", sofx); spit( "obs.txt", obs); if( run( hist_args)) return memo[sofx + obs] = "*failed*";
   return memo[sofx + obs] = slurp( "out.txt");
}
static void histories( int depth)
{
   /* operations: 0..3 check fields of one of four days; 4..7 another orbit file; 8 remove the cache, 9.. cut the first cached file short, empty it, keep only its header, spoil its header */
   S obs[4]; auto base = catalogue( EPOCH, 40, 1); const double days[4] = { EPOCH + 3.2, EPOCH + 3.9, EPOCH + 4.4, EPOCH + 90.7 };
   auto moved = base; for( auto &l : moved) { l.tp += 200.; reparse( l); }
   auto turned = base; std::rotate( turned.begin( ), turned.begin( ) + 7, turned.end( ));
   auto shorter = base; shorter.resize( 33);
   cat_text[0] = sof( base); cat_text[1] = sof( moved); cat_text[2] = sof( turned); cat_text[3] = sof( shorter);
   for( int i = 0; i < 4; i++) obs[i] = fields_for( base, days[i], i) + fields_for( moved, days[i], i + 4);
   const int NOP = 13; S w[4][4]; for( int s = 0; s < 4; s++) for( int d = 0; d < 4; d++) { w[s][d] = wanted( cat_text[s], obs[d]); if( split( w[s][d]).size( ) < 7) vh_fail( "run", "fields of day %d, catalogue %d: '%s'", d, s, w[s][d].substr( 0, 200).c_str( )); }
   uint64_t total = 1; for( int k = 0; k < depth; k++) total *= NOP;
   for( uint64_t h = 0; h < total; h++)
      {
      int op[8]; uint64_t x = h; for( int k = 0; k < depth; k++) { op[k] = (int)( x % NOP); x /= NOP; }
      if( op[depth - 1] > 3 || op[0] > 7) continue;           /* ends by asking; begins by asking or another file */
      bool skip = false; for( int k = 0; k + 1 < depth; k++) if( op[k] >= 4 && op[k] < 8 && op[k + 1] >= 4 && op[k + 1] < 8) skip = true;
      if( skip || !vh_mine( h)) continue;
      no_chk( ); int cur = 0; spit( "mpcorb.sof", cat_text[0]); S told; vh_at( "history", op[0], op[1], op[2] + 100 * (depth > 3 ? op[3] : 0), depth > 4 ? op[4] : -1); vh.states++;
      for( int k = 0; k < depth; k++)
         {
         vh.transitions++;
         if( op[k] < 4)
            {
            spit( "obs.txt", obs[op[k]]); const int rc = run( hist_args); const S g = slurp( "out.txt");
            if( rc || g != w[cur][op[k]]) { char b[80] = ""; for( int j = 0; j <= k; j++) snprintf( b + strlen( b), 10, "%d ", op[j]); vh_fail( "history", "after operations %sstatus %d, answer '%.200s' instead of '%.200s'", b, rc, g.c_str( ), w[cur][op[k]].c_str( )); break; }
            vh.validated++;
            }
         else if( op[k] < 8) { cur = op[k] - 4; spit( "mpcorb.sof", cat_text[cur]); }
         else
            {
            auto f = chks( ); if( op[k] == 8) { no_chk( ); continue; }
            for( auto &n : f) { S c = slurp( n.c_str( )); if( op[k] == 9) c = ""; else if( op[k] == 10) c.resize( 16); else if( op[k] == 11) c = c.substr( 0, c.size( ) > 3 ? c.size( ) - 3 : 0); else if( c.size( )) c[0] ^= 1; spit( n.c_str( ), c); }
            }
         }
      }
   /* a cached file cut short anywhere, and an orbit file in which any one line changed */
   for( int d = 0; d < 4; d++)
      {
      if( !vh_mine( (uint64_t)( 1000003 + d * 7))) continue;
      no_chk( ); spit( "mpcorb.sof", cat_text[0]); spit( "obs.txt", obs[d]); run( hist_args); auto f = chks( ); std::vector<S> full; for( auto &n : f) full.push_back( slurp( n.c_str( )));
      for( size_t n = 0; n < f.size( ); n++) for( size_t len = 0; len < full[n].size( ); len++)
         {
         for( size_t k = 0; k < f.size( ); k++) spit( f[k].c_str( ), k == n ? full[k].substr( 0, len) : full[k]);
         vh_at( "cut", d, (int)n, (int)len); vh.states++; vh.transitions++; const int rc = run( hist_args, len % 16 == 3); const S g = slurp( "out.txt");
         if( rc || g != w[0][d]) vh_fail( "cut", "with %s cut to %zu bytes of %zu: status %d, '%.200s'", f[n].c_str( ), len, full[n].size( ), rc, g.c_str( ));
         else vh.validated++;
         }
      }
   /* (a larger orbit file is only sampled, in four places) */
   for( size_t n = 2; n <= 10; n++) for( size_t k = 0; k < n; k++)
      {
      if( !vh_mine( 2000003 + k * 5 + n)) continue;
      auto small = base; small.resize( n); auto one = small; one[k] = moved[k]; const S t = sof( one), o = fields_for( std::vector<El>( moved.begin( ), moved.begin( ) + (long)n), days[0], (int)k), want = wanted( t, o);
      no_chk( ); spit( "mpcorb.sof", sof( small)); spit( "obs.txt", o); run( hist_args); spit( "mpcorb.sof", t); vh_at( "line", (int)n, (int)k); vh.states++; vh.transitions++;
      if( run( hist_args) || slurp( "out.txt") != want) vh_fail( "line", "after line %zu of the orbits of %zu objects changed: '%.200s' instead of '%.200s'", k + 1, n, slurp( "out.txt").c_str( ), want.c_str( ));
      else vh.validated++;
      }
   /* few objects */
   for( size_t n = 1; n <= 6; n++) if( vh_mine( 3000017 + n))
      {
      auto a = base, b = moved; a.resize( n); b.resize( n); const S o = fields_for( b, days[1], 0) , want = wanted( sof( b), o); no_chk( ); spit( "mpcorb.sof", sof( a)); spit( "obs.txt", o); run( hist_args); spit( "mpcorb.sof", sof( b)); vh_at( "few", (int)n); vh.states++; vh.transitions++;
      if( run( hist_args) || slurp( "out.txt") != want || split( want).size( ) < 6) vh_fail( "few", "%zu objects, other orbits: '%.200s' instead of '%.200s'", n, slurp( "out.txt").c_str( ), want.c_str( )); else vh.validated++;
      }
}
/* ---- instances at the same time ---- */
static Sched *sch;
static void reset( int controlled) { memset( (void *)sch, 0, sizeof( Sched)); sch->controlled = controlled; sch->die_slot = -1; sem_init( &sch->to_ctl, 1, 0); for( auto &s : sch->s) sem_init( &s.go, 1, 0); }
static pid_t launch( int slot, const char *obs)
{
   fflush( NULL); sch->s[slot].state = READY;
   const pid_t p = fork( );
   if( !p)
      {
      struct itimerval z; memset( &z, 0, sizeof z); setitimer( ITIMER_VIRTUAL, &z, NULL);
      char o[20], s[20]; snprintf( o, sizeof o, "out%d.txt", slot); snprintf( s, sizeof s, "%d", slot);
      const int fd = open( o, O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2( fd, 1); dup2( fd, 2);
      setenv( "VH_SCHED", "sched.bin", 1); setenv( "VH_SLOT", s, 1); execl( prog, prog, obs, "-h", "-r7200", "-m30", (char *)NULL); _exit( 99);
      }
   return p;
}
struct Start { const char *what; S text[2]; };          /* what the two cached files hold at first */
static uint64_t n_sched;
static void set_chk( const char *const *fn, const Start &st) { for( int i = 0; i < 2; i++) if( st.text[i] == "*none*") unlink( fn[i]); else spit( fn[i], st.text[i]); }
static void orders( int np, const Start &st, const char *const *fn, const S &want, int preempt, uint64_t salt, int die_slot, int die_point, bool *reached)
{
   std::vector<int> choice; const size_t D = 8;
   while( 1)
      {
      reset( 1); sch->die_slot = die_slot; sch->die_point = die_point; set_chk( fn, st);
      pid_t pid[4]; char o[4][20]; for( int i = 0; i < np; i++) { snprintf( o[i], 20, "obs%d.txt", i); pid[i] = launch( i, "obs.txt"); }
      std::vector<int> en_n; S trace; bool good = true; int last = -1, used = 0; long steps = 0;
      /* what comes before the first cached file is opened touches nothing shared */
      for( int i = 0; i < np && good; i++) { sch->s[i].state = RUNNING; sem_post( &sch->s[i].go); struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts); ts.tv_sec += 60; int rc; while( (rc = sem_timedwait( &sch->to_ctl, &ts)) && errno == EINTR) ; if( rc) good = false; }
      while( good)
         {
         int en[4], n = 0, alive = 0, sleeping = 0;
         for( int i = 0; i < np; i++) { if( sch->s[i].state == READY) en[n++] = i; if( sch->s[i].state != GONE) alive++; if( sch->s[i].state == WAITING) sleeping++; }
         if( !alive) break;
         if( !n) for( int i = 0; i < np; i++) if( sch->s[i].state == WAITING) en[n++] = i;
         if( !n || ++steps > 400) { good = false; break; }
         /* continuing the same process costs nothing; changing while it could go on is a preemption */
         for( int i = 1; i < n; i++) if( en[i] == last) std::swap( en[0], en[i]);
         if( n > 1 && en[0] == last && used >= preempt) n = 1;
         const size_t at = en_n.size( ); const int c = at < choice.size( ) ? choice[at] : 0, who = en[c < n ? c : 0];
         if( c && en[0] == last) used++;
         en_n.push_back( n); if( trace.size( ) < 80) trace += (char)( '0' + who); last = who;
         sch->s[who].state = RUNNING; sem_post( &sch->s[who].go);
         struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts); ts.tv_sec += 60; int rc; while( (rc = sem_timedwait( &sch->to_ctl, &ts)) && errno == EINTR) ; if( rc) { good = false; break; }
         }
      int status[4]; for( int i = 0; i < np; i++) { if( !good) kill( pid[i], SIGKILL); waitpid( pid[i], &status[i], 0); }
      uint64_t h = 17 + salt; for( size_t i = 0; i < D && i < en_n.size( ); i++) h = h * 31 + (uint64_t)( i < choice.size( ) ? choice[i] : 0); h ^= h >> 17; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
      const bool mine = vh_mine( h % 4096);
      if( mine)
         {
         vh.states++; vh.transitions += en_n.size( ); n_sched++; vh_at( "order", np, die_slot, die_point); vh_s( 0, trace.c_str( )); vh_s( 1, st.what); bool ok = good;
         if( !good) vh_fail( "order", "%d instances, cached files %s, stop for good after steps %s", np, st.what, trace.c_str( ));
         else for( int i = 0; i < np; i++)
            {
            const bool died = i == die_slot && WIFSIGNALED( status[i]); snprintf( o[i], 20, "out%d.txt", i); const S g = slurp( o[i]);
            if( died) continue;
            /* giving up (after a minute) on a file another one never finished is allowed */
            if( status[i] && die_slot >= 0 && g.find( "Overtime") != S::npos) { vh.counters["overtime"]++; continue; }
            if( status[i] || g != want) { vh_fail( "order", "%d instances, cached files %s, steps %s%s: instance %d ends with status %d and '%.200s'", np, st.what, trace.c_str( ), die_slot >= 0 ? " and one killed" : "", i, status[i], g.c_str( )); ok = false; }
            }
         if( ok) { if( run( hist_args) || slurp( "out.txt") != want) vh_fail( "order", "%d instances, cached files %s, steps %s%s: the next run answers '%.200s'", np, st.what, trace.c_str( ), die_slot >= 0 ? " and one killed" : "", slurp( "out.txt").c_str( )); else vh.validated++; }
         vh_outcome( trace.c_str( ));
         }
      if( reached && die_slot >= 0 && sch->s[die_slot].points >= die_point) *reached = true;
      while( choice.size( ) < en_n.size( )) choice.push_back( 0);
      choice.resize( mine || en_n.size( ) < D ? en_n.size( ) : D);
      while( !choice.empty( ) && choice.back( ) + 1 >= en_n[choice.size( ) - 1]) choice.pop_back( );
      if( choice.empty( )) break;
      choice.back( )++;
      }
}
static void instances( void)
{
   auto base = catalogue( EPOCH, 40, 1); auto moved = base; for( auto &l : moved) { l.tp += 200.; reparse( l); }
   const double day = EPOCH + 3.2; const S obs = fields_for( base, day, 0) + fields_for( base, day, 5), cat = sof( base);
   no_chk( ); spit( "mpcorb.sof", sof( moved)); spit( "obs.txt", obs); run( hist_args); auto f = chks( ); if( f.size( ) != 2) { vh_fail( "cache", "%zu cached files", f.size( )); return; }
   const char *fn[2] = { f[0].c_str( ), f[1].c_str( ) }; const S stale[2] = { slurp( fn[0]), slurp( fn[1]) };
   const S want = wanted( cat, obs); const S full[2] = { slurp( fn[0]), slurp( fn[1]) }; spit( "mpcorb.sof", cat); spit( "obs.txt", obs);
   if( split( want).size( ) < 7) vh_fail( "run", "'%.300s'", want.c_str( ));
   const Start starts[] = { { "absent", { "*none*", "*none*" } }, { "complete", { full[0], full[1] } }, { "absent/complete", { "*none*", full[1] } }, { "stale/complete", { stale[0], full[1] } }, { "header only/complete", { full[0].substr( 0, 16), full[1] } }, { "partial/absent", { full[0].substr( 0, 100), "*none*" } }, { "empty/complete", { "", full[1] } }, { "complete/empty", { full[0], "" } }, { "stale", { stale[0], stale[1] } } };
   int n = 0;
   for( auto &st : starts)
      {
      n++;
      orders( 1, st, fn, want, 99, (uint64_t)n * 77, -1, 0, NULL);
      orders( 2, st, fn, want, vh.thorough ? 4 : 3, (uint64_t)n * 78, -1, 0, NULL);
      orders( 3, st, fn, want, vh.thorough ? 2 : 1, (uint64_t)n * 79, -1, 0, NULL);
      for( int np = 1; np <= 2; np++) for( int at = 1; at < 40; at++)
         { bool reached = false; orders( np, st, fn, want, np == 1 ? 0 : 1, (uint64_t)n * 1000 + (uint64_t)at, 0, at, &reached); if( !reached) break; }
      }
   vh.counters["schedules"] = n_sched;
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   prog = getenv( "PROG_ASTCHECK"); prog_asan = getenv( "PROG_ASTCHECKASAN"); if( !prog || !prog_asan) { fprintf( stderr, "no program\n"); return 3; }
   spit( "ObsCodes.html", obscodes( )); spit( "rovers.txt", rovers( ));
   spit( "sched.bin", S( sizeof( Sched), '\0'));
   { const int fd = open( "sched.bin", O_RDWR); sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close( fd); }
   uint64_t idx = 0; int k = 0;
   /* (1) fields around every object, at every place in the sky */
   const auto cat = catalogue( EPOCH, vh.thorough ? 300 : 200, 0); spit( "mpcorb.sof", sof( cat));
   static const double radii[] = { 3600., 60., 600., 18000. };
   for( int day = 0; day < (vh.thorough ? 30 : 12); day++) for( int r = 0; r < 4; r++)
      {
      if( !vh_mine( idx++)) continue;
      std::vector<Obs> v; const double jd = EPOCH - 400. + day * 67.123456 + r * .0713, ut = jd, tt = ut + td( ut);
      for( size_t i = 0; i < cat.size( ); i++) for( int d = 0; d < 4; d++)
         {
         Obs o; name_obs( o, k++); o.site = (int)( (i + (size_t)d) % 5); const Place p = place( cat[i], sites[o.site], ut, tt, tt); static const double f[] = { 0., .5, .9, .985, 1.015, 1.5 };
         const double ang = (double)( (i * 4 + (size_t)d) % 12) * PI_ / 6., rr = f[(i + (size_t)( d * 5)) % 6] * radii[r] / AS; o.jd = jd; o.dec = p.dec + rr * sin( ang); if( fabs( o.dec) > 1.565) continue; o.ra = p.ra + rr * cos( ang) / cos( o.dec); v.push_back( o);
         }
      ask( "field", cat, v, radii[r], 40., 10., 1000, r == 1 ? " -p." : "", day % 4 == 0 && r == 2); no_chk( );
      }
   /* (2) objects as they cross 0h or 12h of RA, turn back, or pass near a pole, narrowly searched */
   for( size_t i = 0; i < cat.size( ); i++)
      {
      if( !vh_mine( idx++)) continue;
      std::vector<Obs> v; double pr = 0., pd = 0., ppr = 0.; const int N = vh.thorough ? 900 : 300;
      for( int t = 0; t < N; t++)
         {
         const double jd = EPOCH - 150. + t, tt = jd + td( jd); const Place p = place( cat[i], sites[0], jd, tt, tt), p2 = place( cat[i], sites[0], jd + 1., tt + 1., tt + 1.); const double mv = turn( p2.ra - p.ra);
         const bool zero = fabs( turn( p.ra)) < fabs( mv) && turn( p.ra) * turn( p2.ra) < 0., half = fabs( turn( p.ra - PI_)) < fabs( mv) && turn( p.ra - PI_) * turn( p2.ra - PI_) < 0., turns = t && pr * mv < 0., dturn = t && pd * (p2.dec - p.dec) < 0. && fabs( p.dec) > 1.;
         pr = mv; pd = p2.dec - p.dec; (void)ppr;
         if( !zero && !half && !turns && !dturn) continue;
         if( p.dist < .2 || fabs( p.dec) > 1.53 || fabs( p2.dec) > 1.53) continue;  /* nearer a pole, a day's motion is not straight in RA and dec */
         for( int s = 0; s < 9; s++) for( int d = 0; d < 2; d++) { Obs o; name_obs( o, k++); o.site = s % 5; o.jd = jd - (turns || dturn ? .5 : 0.) + s * .124; const double t2 = o.jd + td( o.jd); const Place q = place( cat[i], sites[o.site], o.jd, t2, t2); o.ra = q.ra + (d ? 15. : -15.) / AS / cos( q.dec); o.dec = q.dec; if( s == 4 && d) o.second = 3; v.push_back( o); }
         if( zero || half) for( int s = 0; s < 9; s++)
            {
            Obs o; name_obs( o, k++); o.second = 1; o.site = s % 4; o.jd = jd + s * .124; o.dt = .11; const double t2 = o.jd + td( o.jd); const Place q = place( cat[i], sites[o.site], o.jd, t2, t2), q2 = place( cat[i], sites[o.site], o.jd + o.dt, t2 + o.dt, t2 + o.dt);
            o.ra = q.ra; o.dec = q.dec; o.dra = turn( q2.ra - q.ra) * cos( o.dec) * AS / o.dt / 24.; o.ddec = (q2.dec - q.dec) * AS / o.dt / 24.; if( hypot( o.dra, o.ddec) * o.dt * 24. / cos( o.dec) > 15000.) continue;
            v.push_back( o);
            }
         }
      if( v.size( )) { ask( "crossing", cat, v, 25., 40., 10., 1000, "", false); no_chk( ); }
      }
   /* (3) magnitudes and motions near the limits; second observations elsewhere; fewer results wanted */
   for( int day = 0; day < 6; day++) for( int m = 0; m < 4; m++)
      {
      if( !vh_mine( idx++)) continue;
      std::vector<Obs> v; const double jd = EPOCH - 40. + day * 31.37, tt = jd + td( jd), z = m & 1 ? 4. : 10., lim = m == 3 ? 20. : 40.;
      for( size_t i = 0; i < cat.size( ); i++) for( int d = 0; d < 8; d++)
         {
         static const double off[] = { 0., .9, 1.1, -.9, -1.1, .4, 0., .95 }; Obs o; name_obs( o, k++); o.site = (int)i % 5; o.jd = jd; const Place p = place( cat[i], sites[o.site], jd, tt, tt); if( p.dist < .2 || fabs( p.dec) > 1.5) continue;
         o.dt = .05 + .01 * d; const Place p2 = place( cat[i], sites[o.site], jd + o.dt, tt + o.dt, tt + o.dt); o.ra = p.ra; o.dec = p.dec + 10. / AS; o.second = d == 6 ? 2 : 1;
         if( o.second == 2 && o.site == 4) o.second = 1;
         o.dra = turn( p2.ra - p.ra) * cos( o.dec) * AS / o.dt / 24. + (m & 2 ? off[d] * z : 0.); o.ddec = (p2.dec - p.dec) * AS / o.dt / 24. + (m & 2 ? 0. : off[d] * z);
         if( hypot( o.dra, o.ddec) * o.dt * 24. / cos( o.dec) > 15000.) continue;
         v.push_back( o);
         }
      ask( "motion", cat, v, 3600., lim, z, day == 5 ? 2 : 1000, "", day == 0); no_chk( );
      }
   for( int lim = 0; lim < 40; lim++) if( vh_mine( idx++))
      {
      std::vector<Obs> v; const double jd = EPOCH + lim, tt = jd + td( jd); for( size_t i = 0; i < cat.size( ); i += 2) { Obs o; name_obs( o, k++); o.jd = jd; const Place p = place( cat[i], sites[0], jd, tt, tt); o.ra = p.ra; o.dec = p.dec; if( fabs( o.dec) < 1.5) v.push_back( o); }
      ask( "faint", cat, v, lim % 2 ? 36000. : 3600., 14. + .25 * lim, 10., lim % 3 ? 1000 : 1 + lim / 3, lim % 4 ? "" : " -f mpcorb.sof", false); no_chk( );
      }
   /* (3a) everything about a place in the sky */
   for( int day = 0; day < (vh.thorough ? 96 : 24); day++) for( int at = 0; at < 24; at++)
      {
      if( !vh_mine( idx++)) continue;
      const double jd = trunc( (EPOCH - 60. + day * 9.8765432) * 1e6) / 1e6, tt = jd + td( jd), radius = at % 3 ? 36000. : 7200.; const Site &st = sites[at % 4]; const Place c0 = place( cat[(size_t)( day * 24 + at) % cat.size( )], st, jd, tt, tt);
      const double rd = trunc( fmod( c0.ra * 180. / PI_ + 360.1 + (at % 4 ? .3 : 0.), 360.) * 1e6) / 1e6, dd = trunc( c0.dec * 180. / PI_ * 1e6) / 1e6, ra = rd * PI_ / 180., dec = dd * PI_ / 180., lim = at % 5 ? 40. : 18.; if( fabs( dd) > 75.) continue;
      char b[200]; snprintf( b, sizeof b, "-c %.6f %.6f %.6f %s -r%g -m%g -h", jd, rd, dd, st.code, radius, lim); vh_ats( "place", b); const int rc = run( b, at == 5); vh.transitions++; if( rc) { vh_fail( "place", "'astcheck %s': status %d", b, rc); continue; }
      std::map<S, S> got; for( auto &l : split( slurp( "out.txt"))) if( l.size( ) > 40) { if( got.count( l.substr( 0, 12))) vh_fail( "twice", "'astcheck %s': '%s' twice", b, l.c_str( )); got[l.substr( 0, 12)] = l; }
      for( auto &l : cat)
         {
         const Place p = place( l, st, jd, tt, tt), p2 = place( l, st, jd + .01, tt + .01, tt + .01); const double fr = turn( p.ra - ra) * cos( dec), flat = hypot( fr, p.dec - dec) * AS, mag = magnitude( l, p), eps = .6 + .1 / p.dist; vh.states++;
         const double c1 = cos( dec) * cos( p.dec), hv = sin( .5 * (p.dec - dec)) * sin( .5 * (p.dec - dec)) + c1 * sin( .5 * turn( p.ra - ra)) * sin( .5 * turn( p.ra - ra)), truth = 2. * asin( sqrt( std::min( 1., hv))) * AS;
         auto g = got.find( l.name);
         if( g == got.end( )) { if( p.dist > .2 && flat < radius - eps && truth < radius - eps && mag < lim - .01) vh_fail( "place", "'astcheck %s': nothing about %s, %.1f\" away", b, l.name, truth); continue; }
         double r = 0., d = 0., m = 0., mr = 0., md = 0.; if( sscanf( g->second.c_str( ) + 26, "%lf %lf %lf %lf %lf", &r, &d, &m, &mr, &md) != 5 || r < 0. || r >= 360.) { vh_fail( "place", "'astcheck %s': '%s'", b, g->second.c_str( )); continue; }
         const double er = turn( r * PI_ / 180. - p.ra) * cos( p.dec) * AS, ed = (d * PI_ / 180. - p.dec) * AS, vr = turn( p2.ra - p.ra) * cos( dec) * AS / .24 / 60., vd = (p2.dec - p.dec) * AS / .24 / 60.;
         if( (flat > radius + eps && truth > radius + eps) || mag > lim + .01) vh_fail( "outside", "'astcheck %s': '%s', really %.1f\" away, mag %.2f", b, g->second.c_str( ), truth, mag);
         else if( fabs( er) > eps || fabs( ed) > eps || fabs( m - mag) > .02 || fabs( mr - vr) > .02 + .35 / p.dist || fabs( md - vd) > .02 + .35 / p.dist) vh_fail( "place", "'astcheck %s': '%s', really %.6f %+.6f, mag %.2f, %.4f %.4f'/hr", b, g->second.c_str( ), p.ra * 180. / PI_, p.dec * 180. / PI_, mag, vr, vd);
         else vh.validated++;
         }
      if( at == 23) no_chk( );
      DIR *dd_ = opendir( "."); while( dirent *e = readdir( dd_)) if( strstr( e->d_name, ".tmp")) { vh_fail( "leftover", "'astcheck %s' leaves %s", b, e->d_name); unlink( e->d_name); } closedir( dd_);
      }
   /* (4) histories and (5) simultaneous instances */
   histories( vh.thorough ? 5 : 4);
   instances( );
   vh.counters["fields"] = n_fields; vh.counters["listed"] = n_listed;
   vh_sample( "fields around every object; every order of three instances' file operations");
   return vh_done( );
}
