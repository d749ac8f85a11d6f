/* C33: 'integrat', as a black box: elements carried to another epoch, by any number of processes in any order,
   with any of them failing.  Planets come from a made-up ephemeris (linked in for JPL files, written by us as vsop.bin). */
#include "vh.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include "watdefs.h"
#include "comets.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "jplstub/stub_planets.h"
#include "jplstub/sched.h"
typedef std::string S;
static const double PI_ = 3.14159265358979323846, K = .01720209895, GM = K * K;
static const char *prog, *prog_asan;
static S slurp( const char *fn) { S r; FILE *f = fopen( fn, "rb"); if( !f) return "*none*"; char b[4096]; size_t n; while( (n = fread( b, 1, sizeof b, f)) > 0) r.append( b, n); fclose( f); return r; }
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }

/* ---- the made-up planets ---- */
static void add16( S &b, int v) { int16_t x = (int16_t)v; b.append( (char *)&x, 2); }
static void add_d( S &b, double x) { b.append( (char *)&x, 8); }
static char *vsop;
static void make_vsop( void)
{
   int start[146]; S b;
   start[0] = 0;
   for( int i = 1; i <= 10; i++) start[i] = 38 + (i - 1) * 82 / 9;
   for( int i = 11; i <= 134; i++) start[i] = 120 + (int)( (i - 10) * (2366. - 120.) / 124. + .5);
   for( int i = 135; i <= 144; i++) start[i] = 2366 + (int)( (i - 134) * 64. / 10. + .5);
   for( int i = 0; i < 145; i++) add16( b, start[i]);
   for( int i = 0; i < 144; i++) for( int j = start[i]; j < start[i + 1]; j++)
      {
      const int p = i / 18, v = (i % 18) / 6, k = i % 6, q = j - start[i]; const double *e = stub_el[p], d2r = PI_ / 180.;
      const double n = K / (e[0] * sqrt( e[0])) * 365250., M0 = d2r * (e[5] - e[4]);
      double a = 0., ph = 0., f = 0.;                  /* 1e-8 radians or AU; cos( ph + f * millennia) */
      if( v == 0 && k == 0) { if( q == 0) a = d2r * e[5]; if( q == 1) { a = 2. * e[1]; ph = M0 - PI_ / 2.; f = n; } if( q == 2) { a = 1.25 * e[1] * e[1]; ph = 2. * M0 - PI_ / 2.; f = 2. * n; } }
      if( v == 0 && k == 1 && q == 0) a = n;
      if( v == 1 && k == 0 && q == 0) { a = d2r * e[2]; ph = d2r * (e[5] - e[3]) - PI_ / 2.; f = n; }
      if( v == 2 && k == 0) { if( q == 0) a = e[0]; if( q == 1) { a = -e[0] * e[1]; ph = M0; f = n; } }
      add_d( b, a * 1e8); add_d( b, ph); add_d( b, f);
      }
   while( b.size( ) < 60874) b += '\0';
   if( b.size( ) != 60874) { fprintf( stderr, "vsop size %zu\n", b.size( )); exit( 3); }
   b[0xea0a] = 'q';                 /* one of the bytes the reader checks */
   vsop = (char *)malloc( b.size( )); memcpy( vsop, b.data( ), b.size( ));
   spit( "vsop.bin", b);
}
static const double mass[10] = { 1. / 6023600., 1. / 408523.71, 1. / 332946.05, 1. / 3098708., 1. / 1047.3486, 1. / 3497.898, 1. / 22902.98, 1. / 19412.24, 1. / 135200000., 1. / 332946.05 / 81.30056 };
static const double radius[10] = { 2439.4, 6051., 6378.14, 3397., 71492., 60330., 25559., 25225., 1500., 1748.2 };
static const double ast_mass[3] = { 4.7622e-10, 1.0775e-10, 1.3412e-10 };

/* ---- elements as printed, and where they put the object ---- */
struct El { double q, e, i, om, node, tp; double epoch; };
static void place( const El &l, double jd, double *pv)
{
   ELEMENTS e; memset( &e, 0, sizeof e); e.gm = GM; e.q = l.q; e.ecc = l.e; e.incl = l.i * PI_ / 180.; e.arg_per = l.om * PI_ / 180.; e.asc_node = l.node * PI_ / 180.; e.perih_time = l.tp; e.epoch = l.epoch; derive_quantities( &e, GM);
   comet_posn_and_vel( &e, jd, pv, pv + 3);
}
/* how far off that may be when every element is rounded as printed */
static double slack( const El &l, double jd)
{
   static const double unit[6] = { 1e-8, 1e-8, 1e-6, 1e-6, 1e-6, 1e-7 }; double p0[6], p[6], tot = 0.; place( l, jd, p0);
   for( int k = 0; k < 6; k++)
      {
      El m = l; const double h = unit[k] * (k == 1 && l.e < 1. ? -10. : 10.); double *f[6] = { &m.q, &m.e, &m.i, &m.om, &m.node, &m.tp }; *f[k] += h; place( m, jd, p);
      double d = 0.; for( int j = 0; j < 3; j++) d += (p[j] - p0[j]) * (p[j] - p0[j]); tot += sqrt( d) / 10. * .55;
      }
   return tot;
}
static S ymd( double jd, bool frac)
{
   char b[60]; full_ctime( b, jd, FULL_CTIME_YMD | FULL_CTIME_NO_SPACES | FULL_CTIME_MONTHS_AS_DIGITS | FULL_CTIME_FORMAT_DAY | FULL_CTIME_LEADING_ZEROES | (frac ? FULL_CTIME_7_PLACES : 0)); return b;
}
static const char *header = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";
static S line( const char *name, const El &l, const char *perts, const char *tail)
{
   char b[400]; snprintf( b, sizeof b, "%12s %16s %s %11.8f %10.6f %10.6f %10.6f %10.8f 0.51   123 19800101 20100304 %-7s %s\n", name, ymd( l.tp, true).c_str( ), ymd( l.epoch, false).c_str( ), l.q, l.i, l.node, l.om, l.e, perts, tail);
   return b;
}
static double yj( const char *t)      /* yyyymmdd[.fffffff] */
{
   int y, m, d; if( sscanf( t, "%4d%2d%2d", &y, &m, &d) != 3) return -1.;
   const double f = t[8] == '.' ? atof( t + 8) : 0.;
   return (double)dmy_to_day( d, m, y, 0) - .5 + f;
}
static bool parse( const S &t, El *l)
{
   if( t.size( ) < 90) return false;
   l->tp = yj( t.c_str( ) + 13); l->epoch = yj( t.c_str( ) + 30); l->q = atof( t.c_str( ) + 39); l->i = atof( t.c_str( ) + 51); l->node = atof( t.c_str( ) + 62); l->om = atof( t.c_str( ) + 73); l->e = atof( t.c_str( ) + 84);
   return true;
}
static El rounded( const El &l) { El r; const S t = line( "x", l, "", ""); parse( t, &r); return r; }

/* ---- reference: straightforward Cowell integration with small steps ---- */
struct Vec { double v[3]; };
static std::map<long, std::vector<Vec>> cache;      /* planets in the VSOP case, by 1/80ths of a day */
static void planets( bool jpl, double jd, Vec *p)
{
   if( jpl)
      {
      for( int i = 0; i < 10; i++) stub_planet( i, jd, p[i].v);
      for( int k = 0; k < 3; k++) { p[2].v[k] -= p[9].v[k] / 82.30056; p[9].v[k] += p[2].v[k]; }
      return;
      }
   const double x = (jd - 2451545.) * 80.; const long ix = (long)floor( x + .5); const bool on = fabs( x - (double)ix) < 1e-6;
   if( on) { auto it = cache.find( ix); if( it != cache.end( )) { for( int i = 0; i < 8; i++) p[i] = it->second[i]; return; } }
   for( int i = 0; i < 8; i++) { double loc[15]; compute_planet( vsop, i + 1, (jd - 2451545.) / 36525., loc); memcpy( p[i].v, loc + 12, 24); }
   if( on) cache[ix].assign( p, p + 8);
}
struct Ast { double t0; std::vector<El> day; };       /* osculating elements for every day : Ceres, Pallas, Vesta */
struct Who { bool jpl; bool no_pluto; int n_ast; const Ast *ast; };
static void at_ast( const Ast &a, double jd, double *pv)
{
   long i = (long)floor( fabs( jd - a.t0) + .5); if( i >= (long)a.day.size( )) i = (long)a.day.size( ) - 1;
   place( a.day[(size_t)i], jd, pv);
}
static void accel( const Who &w, double jd, const double *y, double *a)
{
   const double c = 173.144632674240; Vec p[13]; planets( w.jpl, jd, p); int n = w.jpl ? 10 : 8;
   double r2 = 0, v2 = 0, vr = 0; for( int k = 0; k < 3; k++) { r2 += y[k] * y[k]; v2 += y[k + 3] * y[k + 3]; vr += y[k] * y[k + 3]; }
   const double r = sqrt( r2), f = GM / (r2 * r * c * c);
   for( int k = 0; k < 3; k++) a[k] = -GM * y[k] / (r2 * r) + f * ((4. * GM / r - v2) * y[k] + 4. * vr * y[k + 3]);
   for( int i = 0; i < n + w.n_ast; i++)
      {
      if( w.jpl && i == 8 && w.no_pluto) continue;
      double q[6], m, d2 = 0, s2 = 0, ff = 1.; if( i < n) { memcpy( q, p[i].v, 24); m = mass[i]; if( !w.jpl && i == 2) m += mass[9]; } else { at_ast( w.ast[i - n], jd, q); m = ast_mass[i - n]; }
      for( int k = 0; k < 3; k++) { d2 += (q[k] - y[k]) * (q[k] - y[k]); s2 += q[k] * q[k]; }
      const double d = sqrt( d2), s = sqrt( s2);
      if( i < n)       /* inside a planet the pull fades : from full at 90% of the radius to none at 80% of that */
         { const double R = .9 * radius[i] / AU_IN_KM, x = d / R; if( x < .8) ff = 0.; else if( x < 1.) { const double u = (x - .8) / .2; ff = u * u * (3. - 2. * u); } }
      for( int k = 0; k < 3; k++) a[k] += GM * m * (ff * (q[k] - y[k]) / (d2 * d) - q[k] / (s2 * s));
      }
}
static void rk4( const Who &w, double jd, double h, const double *y, double *o)
{
   double k[4][6], t[6]; static const double c[4] = { 0, .5, .5, 1. };
   for( int s = 0; s < 4; s++)
      {
      for( int j = 0; j < 6; j++) t[j] = y[j] + (s ? c[s] * h * k[s - 1][j] : 0.);
      for( int j = 0; j < 3; j++) k[s][j] = t[j + 3];
      accel( w, jd + c[s] * h, t, k[s] + 3);
      }
   for( int j = 0; j < 6; j++) o[j] = y[j] + h / 6. * (k[0][j] + 2. * k[1][j] + 2. * k[2][j] + k[3][j]);
}
static void reference( const Who &w, double jd, double end, double *y)
{
   if( !w.jpl)                   /* fixed steps, so that the planets can be kept */
      {
      const double h = (end > jd ? 1. : -1.) / 40.; const long n = (long)floor( fabs( end - jd) * 40. + .5);
      for( long i = 0; i < n; i++) { double o[6]; rk4( w, jd + i * h, h, y, o); memcpy( y, o, sizeof o); }
      return;
      }
   double h = end > jd ? .5 : -.5;
   while( jd != end)
      {
      if( fabs( end - jd) < fabs( h)) h = end - jd;
      double o1[6], o2[6], o3[6], e1 = 0, e2 = 0; rk4( w, jd, h, y, o1); rk4( w, jd, h / 2., y, o2); rk4( w, jd + h / 2., h / 2., o2, o3);
      for( int j = 0; j < 6; j++) (j < 3 ? e1 : e2) += (o1[j] - o3[j]) * (o1[j] - o3[j]);
      const double err = std::max( sqrt( e1), sqrt( e2) * 10.), tol = 3e-13;
      if( err > tol && fabs( h) > 1e-7) { h *= std::max( .2, .85 * pow( tol / err, .2)); continue; }
      for( int j = 0; j < 6; j++) y[j] = o3[j] + (o3[j] - o1[j]) / 15.;
      jd += h; h *= std::min( 3., .9 * pow( tol / (err + 1e-20), .2));
      }
}

static El osculating( const double *pv, double jd)
{
   double y[6]; memcpy( y, pv, sizeof y); ELEMENTS e; memset( &e, 0, sizeof e); e.gm = GM; e.epoch = jd; calc_classical_elements( &e, y, jd, 1);
   return El{ e.q, e.ecc, e.incl * 180. / PI_, e.arg_per * 180. / PI_, e.asc_node * 180. / PI_, e.perih_time, jd };
}
static const Ast *asteroids( bool jpl, const El *start, double epoch, double dest)
{
   static std::map<std::pair<bool, double>, Ast *> done; Ast *&a = done[{ jpl, dest }];
   if( a) return a;
   a = new Ast[3];
   for( int k = 0; k < 3; k++)
      {
      Who w; w.jpl = jpl; w.no_pluto = false; w.n_ast = dest < epoch ? 0 : k; w.ast = a; a[k].t0 = epoch; a[k].day.push_back( start[k]);
      double y[6]; place( start[k], epoch, y); const double s = dest < epoch ? -1. : 1.;
      for( double t = epoch; t != dest; ) { const double t2 = fabs( dest - t) < 1. ? dest : t + s; reference( w, t, t2, y); t = t2; a[k].day.push_back( osculating( y, t)); }
      }
   return a;
}
/* ---- running it ---- */
static int run( const S &args, bool asan = false)
{
   const S cmd = S( "ASAN_OPTIONS=detect_leaks=0:exitcode=177 timeout -s KILL 60 ") + (asan ? prog_asan : prog) + " " + args + " > stdout.txt 2>&1";
   return system( cmd.c_str( ));
}
static std::vector<S> split( const S &t) { std::vector<S> r; size_t i = 0; while( i < t.size( )) { size_t e = t.find( '\n', i); e = e == S::npos ? t.size( ) : e + 1; r.push_back( t.substr( i, e - i)); i = e; } return r; }

struct Obj { S name; El l; bool ast_near; };
static std::vector<Obj> catalogue( double epoch, double dest)
{
   std::vector<Obj> r;
   auto put = [&]( const char *nm, double q, double e, double i, double om, double node, double dtp) { Obj o; o.name = nm; o.l = rounded( El{ q, e, i, om, node, epoch + dtp, epoch }); o.ast_near = false; r.push_back( o); };
   put( "1", 2.55, .0785, 10.58, 73.6, 80.3, -420.); put( "2", 2.13, .231, 34.8, 310.1, 173.1, 250.); put( "4", 2.15, .0886, 7.14, 151.2, 103.8, 40.);
   put( "5", 2.08, .19, 5.4, 358.7, 141.6, 700.); put( "433", 1.133, .2228, 10.83, 178.8, 304.3, -35.); put( "K99X01Y", .21, .3, 20., 33., 44., 10.);
   put( "3200", .1399, .8899, 22.2, 322.2, 265.2, -60.); put( "K20R00T", .9, .5, 170., 60., 10., 30.); put( "624", 5.1, .02, 18.2, 180., 342.8, 900.);
   put( "134340", 29.65, .2488, 17.1, 113.8, 110.3, -4000.); put( "CJ95O010", .914, .9951, 89.4, 130.6, 282.5, 25.); put( "CK19Q040", 2.006, 3.36, 44.05, 209.1, 308.1, 90.);
   put( "CI80E010", 1.1, 1., 60., 100., 20., -15.); put( "90377", 76.1, .85, 11.9, 311.6, 144.3, 20000.);
   /* passing planets, in the middle of the span, at one thousandth of an AU and one radius; and Ceres */
   const double mid = .5 * (epoch + dest);
   for( int k = 0; k < 8; k++)
      {
      static const int pl[8] = { 2, 2, 1, 4, 5, 3, 0, 9 }; static const double miss[8] = { .012, .0007, .004, .03, .05, .002, .006, .0004 };
      double p[6], v[6], q[6]; stub_planet( pl[k] == 9 ? 2 : pl[k], mid, p); stub_planet( pl[k] == 9 ? 2 : pl[k], mid + .5, v); stub_planet( pl[k] == 9 ? 2 : pl[k], mid - .5, q);
      if( pl[k] == 9) { double m[3]; stub_planet( 9, mid, m); for( int j = 0; j < 3; j++) p[j] += m[j] * 81.30056 / 82.30056; }
      for( int j = 0; j < 3; j++) p[j + 3] = (v[j] - q[j]) * (1. + .1 * (j - 1)) + (k == 3 || k == 4 ? .006 : .002) * (j == 2);
      p[2] += miss[k];
      ELEMENTS e; memset( &e, 0, sizeof e); e.gm = GM; e.epoch = mid; calc_classical_elements( &e, p, mid, 1);
      if( e.ecc >= .999 || !(e.q > .05)) continue;
      char nm[20]; snprintf( nm, sizeof nm, "K0%dZ%02dZ", k, k);
      put( nm, e.q, e.ecc, e.incl * 180. / PI_, e.arg_per * 180. / PI_, e.asc_node * 180. / PI_, e.perih_time - epoch);
      for( double *a : { &r.back( ).l.om, &r.back( ).l.node }) { while( *a < 0.) *a += 360.; while( *a >= 360.) *a -= 360.; }
      r.back( ).l = rounded( r.back( ).l);
      }
   {
   double p[6], p0[6]; place( r[0].l, mid, p0); memcpy( p, p0, sizeof p); p[0] += .02; p[5] += .00005;
   ELEMENTS e; memset( &e, 0, sizeof e); e.gm = GM; e.epoch = mid; calc_classical_elements( &e, p, mid, 1);
   put( "K05C00C", e.q, e.ecc, e.incl * 180. / PI_, fmod( e.arg_per * 180. / PI_ + 720., 360.), fmod( e.asc_node * 180. / PI_ + 720., 360.), e.perih_time - epoch); r.back( ).ast_near = true;
   }
   return r;
}
static S sof( const std::vector<Obj> &v, bool perts = true)
{
   S t = header; int n = 0;
   for( auto &o : v) { char tail[40]; snprintf( tail, sizeof tail, "%5.2f %5.2f", 10. + .01 * n, .15); n++; t += line( o.name.c_str( ), o.l, perts ? "M-v 3Ek" : "", tail); }
   return t;
}
static const double base = 2451544.5 + 456.;          /* a multiple of every step used */
static S epoch_arg( double jd, int form)
{
   char b[60]; if( form == 0) snprintf( b, sizeof b, "%.1f", jd); else if( form == 1) return ymd( jd, false); else snprintf( b, sizeof b, "JD%.1f", jd); return b;
}
static void physics( bool jpl, double span, double step, int form, const char *extra)
{
   const double epoch = base, dest = base + span; auto cat = catalogue( epoch, dest);
   char b[200]; vh_at( jpl ? "jpl" : "vsop"); vh_d( span); vh_d( step); vh_s( 0, extra);
   spit( "in.sof", sof( cat)); unlink( "out.sof");
   snprintf( b, sizeof b, "in.sof out.sof %s %s -s%g %s", epoch_arg( dest, form).c_str( ), jpl ? (form & 1 ? "-f jpl.bin" : "-fjpl.bin") : "", step, extra);
   const int rc = run( b); vh.transitions++;
   const auto got = split( slurp( "out.sof")), in = split( slurp( "in.sof"));
   if( rc || got.size( ) != in.size( ) || got[0] != in[0]) { vh_fail( "run", "'integrat %s': status %d, %zu lines of %zu", b, rc, got.size( ), in.size( )); return; }
   const El three[3] = { cat[0].l, cat[1].l, cat[2].l }; const Ast *ast = asteroids( jpl, three, epoch, dest);
   for( size_t i = 1; i < in.size( ); i++)
      {
      const Obj &o = cat[i - 1]; El l; vh.states++;
      if( o.ast_near && span < 0.) continue;          /* the pull of Ceres is only kept for steps forward */
      vh_s( 1, o.name.c_str( ));
      if( got[i].size( ) != in[i].size( ) || got[i].substr( 0, 13) != in[i].substr( 0, 13) || got[i].substr( 94) != in[i].substr( 94) || !parse( got[i], &l) || l.epoch != dest)
         { vh_fail( "columns", "'integrat %s': '%s' became '%s'", b, in[i].c_str( ), got[i].c_str( )); continue; }
      Who w; w.jpl = jpl; w.no_pluto = o.name == "134340"; w.n_ast = i == 1 ? 0 : i == 2 ? 1 : i == 3 ? 2 : 3; if( span < 0.) w.n_ast = 0;
      w.ast = ast;
      double y[6], p[6]; place( o.l, epoch, y); reference( w, epoch, dest, y);
      const El ref = osculating( y, dest);
      bool ok = true;
      for( double dt : { 0., 30., -55. })
         {
         double r[6], d = 0., moved[6], mv = 0.; place( l, dest + dt, p); place( ref, dest + dt, r); place( o.l, dest + dt, moved); for( int k = 0; k < 3; k++) { d += (p[k] - r[k]) * (p[k] - r[k]); mv += (moved[k] - r[k]) * (moved[k] - r[k]); }
         d = sqrt( d); mv = sqrt( mv);
         const double tol = slack( ref, dest + dt) + 3e-9 + (!o.name.compare( 0, 2, "K0") ? jpl ? 5e-4 : 2e-3 : 1e-5) * mv;
         if( vh.counters["dbg"]) printf( "%s %.0f d %g tol %g moved %g\n", o.name.c_str( ), dt, d, tol, mv);
         if( !(d < tol)) { vh_fail( "orbit", "'integrat %s': %s is %.3g AU off at epoch %+g days (%.3g allowed, perturbations moved it %.3g)", b, o.name.c_str( ), d, dt, tol, mv); ok = false; break; }
         if( mv > 100. * tol) vh.counters["perturbations-resolved"]++;
         }
      if( ok) vh.validated++;
      vh_outcome( got[i].c_str( ));
      }
}
/* ---- any number of processes, in any order ---- */
static Sched *sch;
static void reset( int controlled)
{
   memset( (void *)sch, 0, sizeof( Sched)); sch->controlled = controlled; sem_init( &sch->to_ctl, 1, 0); for( auto &s : sch->s) sem_init( &s.go, 1, 0);
}
static S pending_args;
static pid_t launch( void)
{
   fflush( NULL);
   const pid_t p = fork( );
   if( !p)
      {
      setpgid( 0, 0); struct itimerval z; memset( &z, 0, sizeof z); setitimer( ITIMER_VIRTUAL, &z, NULL);
      const int fd = open( "stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2( fd, 1); dup2( fd, 2);
      std::vector<S> w; S cur; for( char c : pending_args + " ") if( c == ' ') { if( cur.size( )) w.push_back( cur); cur = ""; } else cur += c;
      std::vector<char *> av; av.push_back( (char *)prog); for( auto &s : w) av.push_back( (char *)s.c_str( )); av.push_back( NULL);
      setenv( "VH_SCHED", "sched.bin", 1); execv( prog, av.data( )); _exit( 99);
      }
   setpgid( p, p);
   return p;
}
/* one run under the given choices; enabled[] tells how many could have run at each step */
static bool scheduled( const std::vector<int> &choice, std::vector<int> &enabled, int *status, S *trace)
{
   reset( 1); enabled.clear( ); trace->clear( );
   unlink( "out.sof"); unlink( "ephem.dat");
   sch->s[0].state = READY;
   const pid_t p = launch( ); bool good = true;
   while( 1)
      {
      int en[12], n = 0, alive = 0;
      for( int i = 0; i < 12; i++)
         {
         const int st = sch->s[i].state;
         if( st != NONE && st != GONE) alive++;
         if( st == READY || (st == WAITING && (!sch->s[i].child || sch->s[sch->s[i].child].state == GONE))) en[n++] = i;
         }
      if( !alive) break;
      if( !n) { good = false; break; }
      const size_t at = enabled.size( ); const int c = at < choice.size( ) ? choice[at] : 0, who = en[c < n ? c : 0];
      enabled.push_back( n); *trace += (char)( '0' + who);
      sch->s[who].state = RUNNING; sem_post( &sch->s[who].go);
      struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts); ts.tv_sec += 60;
      int rc; while( (rc = sem_timedwait( &sch->to_ctl, &ts)) && errno == EINTR) ;
      if( rc) { good = false; break; }
      }
   if( !good) kill( -p, SIGKILL);
   waitpid( p, status, 0);
   return good;
}
static std::vector<Obj> small_cat( int n, double epoch)
{
   auto c = catalogue( epoch, epoch + 4.); std::vector<Obj> r( c.begin( ), c.begin( ) + 3);
   for( int i = 0; i < n; i++) r.push_back( c[3 + i % 7]);
   return r;
}
static S leftovers( void)
{
   S r; char b[40]; for( int t = 0; t < 2; t++) for( int i = 0; i < 12; i++) { snprintf( b, sizeof b, t ? "ephem%d.ugh" : "chunk%d.ugh", i); if( !access( b, F_OK)) { r += b; r += ' '; unlink( b); } } return r;
}
static uint64_t n_sched;
/* every order in which np processes can take their steps */
static void all_orders( int np, int lines, bool ephem)
{
   char b[200]; const auto cat = small_cat( lines, base); spit( "in.sof", sof( cat));
   snprintf( b, sizeof b, "in.sof out.sof %.1f -fjpl.bin -u %s", base + 4., ephem ? "-c" : "");
   S want, want_e;
   if( ephem) { run( S( b) + " -z1"); want = slurp( "out.sof"); want_e = slurp( "ephem.dat"); } else { unlink( "out.sof"); run( b); want = slurp( "out.sof"); want_e = "*none*"; }
   if( split( want).size( ) != (size_t)lines + 4) vh_fail( "run", "'%s' leaves %zu lines of %d", b, split( want).size( ), lines + 4);
   char z[10]; snprintf( z, sizeof z, " -z%d", np); pending_args = S( b) + z;
   std::vector<int> choice, enabled; const size_t D = 24;
   while( 1)
      {
      int status = 0; S trace; vh_at( "order", np, lines); for( size_t i = 0; i < choice.size( ) && i < 90; i++) vh.cs[0][i] = (char)( '0' + choice[i]), vh.cs[0][i + 1] = 0;
      const bool good = scheduled( choice, enabled, &status, &trace);
      /* schedules are dealt out by their first choices */
      uint64_t h = 17; for( size_t i = 0; i < D && i < enabled.size( ); i++) h = h * 31 + (uint64_t)( i < choice.size( ) ? choice[i] : 0); h ^= h >> 17; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
      const bool mine = vh_mine( h % 1024);
      if( mine)
         {
         vh.states++; vh.transitions += enabled.size( ); n_sched++;
         const S left = leftovers( ), got = slurp( "out.sof"), ge = slurp( "ephem.dat");
         if( !good) vh_fail( "order", "%d processes stop for good after steps %s", np, trace.c_str( ));
         else if( status || got != want || ge != want_e || !left.empty( )) vh_fail( "order", "%d processes taking steps %s: status %d, output %s, ephemeris %s, left over '%s'", np, trace.c_str( ), status, got == want ? "right" : "differs", ge == want_e ? "right" : "differs", left.c_str( ));
         else vh.validated++;
         vh_outcome( trace.c_str( ));
         }
      if( !good) leftovers( );
      while( choice.size( ) < enabled.size( )) choice.push_back( 0);
      choice.resize( mine || enabled.size( ) < D ? enabled.size( ) : D);
      while( !choice.empty( ) && choice.back( ) + 1 >= enabled[choice.size( ) - 1]) choice.pop_back( );
      if( choice.empty( )) break;
      choice.back( )++;
      }
}
/* one process killed at each of its steps, or a fork that fails: the output is whole, or the failure is reported */
static void faults( int np, int lines)
{
   char b[200]; const auto cat = small_cat( lines, base); spit( "in.sof", sof( cat));
   snprintf( b, sizeof b, "in.sof out.sof %.1f -fjpl.bin -u", base + 4.); unlink( "out.sof"); run( b); const S want = slurp( "out.sof");
   char z[10]; snprintf( z, sizeof z, " -z%d", np); pending_args = S( b) + z;
   for( int slot = -1; slot < np; slot++) for( int at = 1; at < 60; at++)
      {
      vh_at( slot < 0 ? "fork-fails" : "killed", np, lines, slot, at); vh.states++; vh.transitions++;
      reset( 0); unlink( "out.sof"); if( slot < 0) { sch->fork_fail = at; sch->die_slot = -1; } else { sch->die_slot = slot; sch->die_point = at; }
      int status = 0; const pid_t p = launch( ); waitpid( p, &status, 0); 
      /* whoever is left of its group must be gone before the files are looked at */
      for( int k = 0; k < 400 && !kill( -p, 0); k++) usleep( 500);
      kill( -p, SIGKILL);
      const bool whole = slurp( "out.sof") == want; leftovers( );
      if( !status && !whole) vh_fail( "fault", "%d processes, %d lines, %s: reported as a success, with %zu lines of output instead of %zu", np, lines, slot < 0 ? "a fork that fails" : "one killed", split( slurp( "out.sof")).size( ), split( want).size( ));
      else vh.validated++;
      const bool reached = slot < 0 ? sch->n_forks >= at : sch->s[slot].points >= at;
      if( !reached) { if( !whole || status) vh_fail( "fault", "%d processes, no fault: status %d", np, status); break; }
      }
}
static void expect_file( const char *key, const S &args, const S &want, bool asan = false)
{
   vh_ats( key, args.c_str( )); vh.states++; vh.transitions++;
   const int rc = run( args, asan); const S got = slurp( "out.sof");
   if( rc || got != want)
      {
      const auto a = split( got), w = split( want); size_t i = 0; while( i < a.size( ) && i < w.size( ) && a[i] == w[i]) i++;
      vh_fail( key, "'integrat %s': status %d, line %zu of %zu is '%s', should be '%s' (of %zu)", args.c_str( ), rc, i, a.size( ), i < a.size( ) ? a[i].c_str( ) : "missing", i < w.size( ) ? w[i].c_str( ) : "none", w.size( ));
      }
   else vh.validated++;
   const S left = leftovers( ); if( !left.empty( )) vh_fail( key, "'integrat %s' leaves %s", args.c_str( ), left.c_str( ));
}
/* ephem.dat: one position per step for every object after the large asteroids */
static void kept( size_t n_obj, double epoch, double dest, bool jpl)
{
   const auto in = split( slurp( "in.sof")); const S d = slurp( "ephem.dat"); double start = 0., step = 0.; int n = 0; const size_t nl = d.find( '\n');
   if( nl == S::npos || sscanf( d.c_str( ), "%lf %lf %d", &start, &step, &n) != 3 || d.size( ) != nl + 1 + n_obj * (size_t)n * 24 || step != (dest > epoch ? 2. : -2.) || start != epoch + step || start + (n - 1) * step != dest)
      { vh_fail( "ephemeris", "'%.40s' and %zu bytes for %zu objects", d.c_str( ), d.size( ), n_obj); return; }
   const double *x = NULL; std::vector<double> v( n_obj * (size_t)n * 3 + 1); memcpy( v.data( ), d.data( ) + nl + 1, n_obj * (size_t)n * 24); x = v.data( );
   for( size_t i = 0; i < n_obj; i++)
      {
      El l; parse( in[i + 4], &l); Who w; if( (dest - l.epoch) * step <= 0.) continue;      /* carried the other way : nothing to keep */ w.jpl = jpl; w.no_pluto = in[i + 4].find( "134340") < 13; w.n_ast = 0; w.ast = NULL;
      double y[6], t = l.epoch; place( l, t, y);
      for( int k = 0; k < n; k++)
         {
         const double jd = start + k * step, *g = x + (i * (size_t)n + (size_t)k) * 3; double e = 0.;
         if( (jd - l.epoch) * step <= 0.) { if( g[0] || g[1] || g[2]) vh_fail( "ephemeris", "a position for '%.12s' at JD %.1f, before its epoch", in[i + 4].c_str( ), jd); continue; }
         if( k == 0 && (l.epoch - start) * step < 0.) reference( w, t, jd, y); else reference( w, t, jd, y); t = jd;
         for( int j = 0; j < 3; j++) e += (g[j] - y[j]) * (g[j] - y[j]);
         vh.states++; if( !(sqrt( e) < 1e-7)) { vh_fail( "ephemeris", "'%.12s' at JD %.1f is %.3g AU off in the table", in[i + 4].c_str( ), jd, sqrt( e)); break; } else vh.validated++;
         }
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   prog = getenv( "PROG_INTEGRAT"); prog_asan = getenv( "PROG_INTEGRATASAN");
   if( !prog || !prog_asan) { fprintf( stderr, "no program\n"); return 3; }
   make_vsop( ); spit( "jpl.bin", "x");
   spit( "sched.bin", S( sizeof( Sched), '\0'));
   { const int fd = open( "sched.bin", O_RDWR); sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close( fd); }
   uint64_t idx = 0;
   if( getenv( "DBG")) { vh.counters["dbg"] = 1; physics( true, 200., 2., 0, ""); physics( false, 200., 2., 0, ""); return vh_done( ); }
   /* (1) the orbits */
   {
   static const double spans[] = { 200., -200., 24., -24., 1., -1., 0., 456., -456., 60., 7., -3. }; static const double steps[] = { 2., 1., 4., .5 };
   for( int jpl = 1; jpl >= 0; jpl--) for( int s = 0; s < 12; s++) for( int k = 0; k < 4; k++)
      {
      if( !vh.thorough && (k > 1 ? s > 1 : !jpl && s > 6)) continue;
      if( fabs( spans[s]) < 20. && fmod( spans[s], 2.) != 0. && k) continue;
      if( vh_mine( idx++)) physics( jpl, spans[s], steps[k], (int)( idx % 3), idx % 4 == 1 ? "-v" : idx % 4 == 2 ? "-u" : "");
      }
   }
   /* (2) every order of the processes' steps */
   for( int np = 1; np <= 4; np++) for( int lines = 0; lines <= 8; lines++)
      {
      if( np == 4 && (!vh.thorough || lines)) continue;
      if( np == 3 && lines > (vh.thorough ? 4 : 1)) continue;
      if( np == 2 && lines > (vh.thorough ? 8 : 4)) continue;
      all_orders( np, lines, false);
      if( np < 3 && lines <= 2) all_orders( np, lines, true);
      }
   vh.counters["schedules"] = n_sched;
   /* (3) processes killed, forks failing */
   for( int np = 1; np <= 5; np++) for( int lines = 0; lines <= 6; lines++) if( (vh.thorough || lines < 2 || lines == np || lines == 2 * np - 1) && vh_mine( idx++)) faults( np, lines);
   /* (4) the number of processes never shows, nor what was there before; options */
   for( int lines = 0; lines <= 9; lines++) for( int mode = 0; mode < 4; mode++)
      {
      if( !vh_mine( idx++)) continue;
      const double epoch = base, dest = base + (mode & 1 ? -6. : 12.); auto cat = small_cat( lines, epoch);
      if( mode & 2) for( size_t i = 4; i < cat.size( ); i++) { cat[i].l.epoch += (double)( (int)( i % 3) * 2 - 2) * 10.; cat[i].l = rounded( cat[i].l); }
      S t = sof( cat); auto in = split( t); if( lines > 2) { in[5] = line( "K07U00N", rounded( El{ 2.9, .11, 3., 40., 50., epoch + 100., epoch }), "", "12.00 0.15"); in[lines + 2].replace( in[lines + 2].size( ) - 14, 5, "17.77"); } t = ""; for( auto &s : in) t += s;
      spit( "in.sof", t);
      char b[200]; snprintf( b, sizeof b, "in.sof out.sof %.1f %s", dest, mode & 1 ? "" : "-fjpl.bin"); unlink( "out.sof");
      vh_at( "processes", lines, mode); if( run( b)) { vh_fail( "run", "'integrat %s' fails", b); continue; }
      const S want = slurp( "out.sof"); const auto w = split( want);
      if( w.size( ) != in.size( )) vh_fail( "run", "'integrat %s': %zu lines of %zu", b, w.size( ), in.size( ));
      if( lines > 2 && w[5] != in[5]) vh_fail( "unperturbed", "an object whose orbit has no perturbers became '%s'", w[5].c_str( ));
      char c[300];
      for( int z = 1; z <= 8; z++) { snprintf( c, sizeof c, "%s -z%d -u", b, z); unlink( "out.sof"); expect_file( "processes", c, want, z == 3); }
      expect_file( "again", b, want); expect_file( "again", S( b) + " -z2", want); expect_file( "again", S( b) + " -z3", want, true); unlink( "ickywax.ugh");
      /* a result for another epoch, or of another run, is in the way */
      snprintf( c, sizeof c, "in.sof out.sof %.1f %s -u", dest + 8., mode & 1 ? "" : "-fjpl.bin"); run( c); expect_file( "stale", b, want);
      spit( "out.sof", "rubbish\n\n|||\n"); expect_file( "stale", b, want); unlink( "ickywax.ugh");
      unlink( "out.sof"); snprintf( c, sizeof c, "%s -p", b); expect_file( "all", c, [&]( ) { S r; run( c); auto g = split( slurp( "out.sof")); for( size_t i = 0; i < g.size( ); i++) r += i == 5 && lines > 2 ? g[i] : i < w.size( ) ? w[i] : S( ""); if( lines > 2 && g.size( ) > 5 && g[5] == in[5]) vh_fail( "all", "-p leaves an object without perturbers as it was"); unlink( "out.sof"); return r; }( ));
      for( int n = 1; n <= lines + 4; n += 2)
         {
         S lim; int k = 0; for( size_t i = 0; i < w.size( ) && k < n; i++) { lim += w[i]; if( i && !(lines > 2 && i == 5)) k++; }
         for( int z = 0; z <= 3; z++) { if( z) snprintf( c, sizeof c, "%s -u -n%d -z%d", b, n, z); else snprintf( c, sizeof c, "%s -u -n%d", b, n); unlink( "out.sof"); expect_file( "limit", c, lim); }
         }
      /* positions kept along the way, whatever each object's epoch */
      if( lines > 2) { in.erase( in.begin( ) + 5); S u; for( auto &x : in) u += x; spit( "in.sof", u); u = ""; for( size_t i = 0; i < w.size( ); i++) if( i != 5) u += w[i]; snprintf( c, sizeof c, "%s -u -c -z2", b); unlink( "out.sof"); unlink( "ephem.dat"); expect_file( "ephemeris", c, u, true); kept( split( u).size( ) - 4, epoch, dest, !(mode & 1)); }
      }
   /* (5) there and back, in one leg or in several */
   for( int k = 0; k < 12; k++) if( vh_mine( idx++))
      {
      const double d = k & 1 ? -40. : 40., step = k & 2 ? 1. : 2.; auto cat = catalogue( base, base + 400.); cat.resize( 14); spit( "in.sof", sof( cat)); char b[200]; vh_at( "legs", k); vh.states++; vh.transitions += 4;
      const char *f = k % 3 ? "-fjpl.bin" : "";
      snprintf( b, sizeof b, "in.sof mid.sof %.1f -u -s%g %s", base + d, step, f); int rc = run( b); snprintf( b, sizeof b, "mid.sof end.sof %.1f -u -s%g %s", base + 3. * d, step, f); rc |= run( b); snprintf( b, sizeof b, "in.sof one.sof %.1f -u -s%g %s", base + 3. * d, step, f); rc |= run( b); snprintf( b, sizeof b, "end.sof back.sof %.1f -u -s%g %s", base, step, f); rc |= run( b);
      const auto e = split( slurp( "end.sof")), o = split( slurp( "one.sof")), bk = split( slurp( "back.sof")), in = split( slurp( "in.sof"));
      if( rc || e.size( ) != 15 || o.size( ) != 15 || bk.size( ) != 15) { vh_fail( "legs", "status %d", rc); continue; }
      for( size_t i = 1; i < 15; i++)
         {
         El a, c, z, y; if( !parse( e[i], &a) || !parse( o[i], &c) || !parse( bk[i], &z) || !parse( in[i], &y)) continue;
         double p[6], q[6], s = 0., u = 0.; place( a, a.epoch, p); place( c, c.epoch, q); for( int j = 0; j < 3; j++) s += (p[j] - q[j]) * (p[j] - q[j]);
         place( z, z.epoch, p); place( y, y.epoch, q); for( int j = 0; j < 3; j++) u += (p[j] - q[j]) * (p[j] - q[j]);
         double t0 = 0., t1 = 0.; for( double dt : { 0., d, -d, 3. * d, -3. * d }) { t0 = std::max( t0, slack( a, a.epoch + dt)); t1 = std::max( t1, slack( y, y.epoch + dt)); }
         if( !(sqrt( s) < 6. * t0 + 1e-8)) vh_fail( "legs", "'%.12s' by two legs of %g and %g days is %.3g AU from where one takes it", in[i].c_str( ), d, 2. * d, sqrt( s));
         else if( !(sqrt( u) < 8. * (t0 + t1) + 1e-8)) vh_fail( "legs", "'%.12s' carried %g days and back is %.3g AU from where it was", in[i].c_str( ), 3. * d, sqrt( u));
         else vh.validated++;
         }
      }
   vh_sample( "every order of steps of 1..3 processes; each killed at each step");
   return vh_done( );
}
