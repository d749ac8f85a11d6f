/* C23: orientations, rotation rates and sizes of planets and moons. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
typedef long double ld;
typedef std::string S;
static const ld PIL = 3.141592653589793238462643383279502884L;

/* ---- an independent reader of the coefficient file ---- */
struct Angle { ld c, rate; bool in_d; };
struct Term { char kind; ld coeff; int mult, idx; };       /* kind: 'd' 'D'(d^2) 'T' 'U'(T^2) 's' 'c' */
struct Expr { ld c0 = 0; std::vector<Term> t; bool set = false; };
struct Obj { int id; char fam; double r[3] = { 0, 0, 0 }; Expr a0, d0; std::vector<std::pair<char, Expr>> w; };
struct File { std::map<char, std::vector<Angle>> ang; std::vector<Obj> obj; std::map<int, int> remap; };

static ld number( const char *&p)
{
   char *e; const ld v = strtold( p, &e); p = e; return v;
}
static Expr expr( const char *p)
{
   Expr e; e.set = true; e.c0 = number( p);
   while( *p == '+' || *p == '-')
      {
      Term t; t.mult = 1; t.idx = 0; t.coeff = number( p);
      if( !strncmp( p, "sin", 3) || !strncmp( p, "cos", 3))
         {
         t.kind = *p; p += 3;
         if( *p >= '0' && *p <= '9') { t.mult = 0; while( *p >= '0' && *p <= '9') t.mult = t.mult * 10 + *p++ - '0'; }
         p++;                                       /* the family's letter */
         while( *p >= '0' && *p <= '9') t.idx = t.idx * 10 + *p++ - '0';
         }
      else
         {
         t.kind = *p++;
         if( *p == '2') { t.kind = (t.kind == 'd' ? 'D' : 'U'); p++; }
         }
      e.t.push_back( t);
      }
   return e;
}
static void read_file( const char *name, File &f)
{
   FILE *fp = fopen( name, "rb"); char raw[2000]; char fam = 0; bool obj_on = false;
   if( !fp) { fprintf( stderr, "no %s\n", name); abort( ); }
   while( fgets( raw, sizeof( raw), fp) && strncmp( raw, "END", 3))
      {
      raw[strcspn( raw, "#\r\n")] = 0;
      for( char *m; (m = strstr( raw, "\xe2\x88\x92")) != NULL; ) { *m = '-'; memmove( m + 1, m + 3, strlen( m + 3) + 1); }   /* a typographic minus is one too */
      if( !strncmp( raw, "Remap:", 6))
         {
         int a, b, n; const char *p = raw + 6;
         while( sscanf( p, "%d %d%n", &a, &b, &n) == 2) { f.remap[b] = a; p += n; }
         continue;
         }
      S s; for( char *p = raw; *p; p++) if( *p != ' ') s += *p;
      if( s.empty( )) continue;
      if( s.compare( 0, 7, "Planet:") == 0) { fam = s[7]; obj_on = false; }
      else if( s.compare( 0, 4, "Obj:") == 0) { Obj o; o.id = atoi( s.c_str( ) + 4); o.fam = fam; f.obj.push_back( o); obj_on = true; }
      else
         {
         const size_t eq = s.find( '='); if( eq == S::npos) continue;
         const char *v = s.c_str( ) + eq + 1; const S k = s.substr( 0, eq);
         if( !obj_on)
            {
            Angle a; a.c = number( v); a.rate = number( v); a.in_d = (*v == 'd');
            f.ang[fam].push_back( a);
            }
         else
            {
            Obj &o = f.obj.back( );
            if( k == "r") sscanf( v, "%lf,%lf,%lf", o.r, o.r + 1, o.r + 2);
            else if( k[0] == 'a') o.a0 = expr( v);
            else if( k[0] == 'd') o.d0 = expr( v);
            else if( k[0] == 'W') o.w.push_back( { k.size( ) > 1 ? k[1] : ' ', expr( v) });
            }
         }
      }
   fclose( fp);
}
static const Obj *find( const File &f, int id)
{
   if( id > 9 && id < 1000 && f.remap.count( id)) id = f.remap.find( id)->second;
   for( auto &o : f.obj) if( o.id == id) return &o;
   return NULL;
}
static const Expr *omega_of( const Obj &o, int sys)
{
   for( auto &w : o.w) if( w.first == ' ' || w.first == '0' + sys) return &w.second;
   return NULL;
}
static ld eval( const File &f, const Obj &o, const Expr &e, ld jde)
{
   const ld d = jde - 2451545.L, T = d / 36525.L;
   ld v = e.c0;
   for( auto &t : e.t) switch( t.kind)
      {
      case 'd': v += t.coeff * d; break;
      case 'D': v += t.coeff * d * d; break;
      case 'T': v += t.coeff * T; break;
      case 'U': v += t.coeff * T * T; break;
      default:
         {
         const std::vector<Angle> &A = f.ang.find( o.fam)->second;
         const int base = (o.fam == 'N' ? 0 : 1);         /* only Neptune's angles start at N0 */
         const Angle &a = A[t.idx - base];
         const ld arg = t.mult * (a.c + a.rate * (a.in_d ? d : T)) * PIL / 180.L;
         v += t.coeff * (t.kind == 's' ? sinl( arg) : cosl( arg));
         }
      }
   return v;
}
static ld rate_of( const Expr &e) { for( auto &t : e.t) if( t.kind == 'd') return t.coeff; return 0; }

struct Ori { bool found; double m[9]; };
static void matrix( ld ra, ld dec, ld w, bool retro, double *m)
{
   const ld k = PIL / 180.L; ra *= k; dec *= k; w = fmodl( w, 360.L) * k;
   const ld z[3] = { cosl( dec) * cosl( ra), cosl( dec) * sinl( ra), sinl( dec) };
   const ld q[3] = { -sinl( ra), cosl( ra), 0 };
   const ld p[3] = { z[1] * q[2] - z[2] * q[1], z[2] * q[0] - z[0] * q[2], z[0] * q[1] - z[1] * q[0] };
   for( int i = 0; i < 3; i++)
      {
      m[i] = (double)( cosl( w) * q[i] + sinl( w) * p[i]);
      /* longitude 90 is 90 degrees *west* (against the spin) of the zero meridian */
      const ld east = -sinl( w) * q[i] + cosl( w) * p[i];
      m[i + 3] = (double)( retro ? east : -east);
      m[i + 6] = (double)z[i];
      }
}
static Ori model( const File *f, int id, int sys, double jd)
{
   Ori r; r.found = false;
   if( id == 3)
      {
      const double tdt = jd + td_minus_ut( jd) / 86400.;
      setup_precession_with_nutation_eops( r.m, 2000. + (tdt - 2451545.) / 365.25);
      for( int i = 3; i < 6; i++) r.m[i] = -r.m[i];
      r.found = true;
      return r;
      }
   if( !f) return r;
   const Obj *o = find( *f, id);
   if( !o) return r;
   const ld tdt = (ld)jd + (ld)td_minus_ut( jd) / 86400.L;
   const Expr *w = omega_of( *o, sys);
   r.found = true;
   matrix( eval( *f, *o, o->a0, tdt), eval( *f, *o, o->d0, tdt), eval( *f, *o, *w, tdt), rate_of( *w) < 0, r.m);
   return r;
}
static double worst( const double *a, const double *b)
{ double w = 0; for( int i = 0; i < 9; i++) { const double d = fabs( a[i] - b[i]); if( !(d <= w)) w = d; } return w; }
static double ortho( const double *m)
{
   double w = 0;
   for( int i = 0; i < 3; i++) for( int j = 0; j <= i; j++)
      { double d = 0; for( int k = 0; k < 3; k++) d += m[3 * i + k] * m[3 * j + k]; d = fabs( d - (i == j)); if( !(d <= w)) w = d; }
   return w;
}
/* W turns by ~1000 degrees a day; a Julian date in a double is good to about 4.7e-10 day at JD 2.4e6 */
static double tol( double jd, double rate) { return 3e-9 + (fabs( rate) + 1.) * (fabs( jd) + 2.5e6) * 2.3e-16 * 4. * .0175 ; }

static File F0, F1;
static const char *GOOD = "good.txt", *ALT = "alt.txt", *NONE = "absent.txt";

/* ---- every object, system and date against the file ---- */
static const double jds[] = { 0.5, 1000000.25, 1721057.5, 2086302.75, 2299160.5, 2378496.5, 2415020., 2433282.5, 2436116.31, 2440587.5, 2444239.5, 2447892.125, 2451179.5, 2451544.9992,
         2451545., 2451545.00085, 2451910.5, 2453371.25, 2455197.5, 2457023.77, 2458849.5, 2460310.5, 2462502.5, 2469807.5, 2488069.5, 2524593.5, 2634166.75, 2816788.3 };
static void everything( )
{
   std::vector<int> ids;
   for( auto &o : F0.obj) ids.push_back( o.id);
   for( auto &r : F0.remap) ids.push_back( r.first);
   static const int odd[] = { -3, -10, -25142, -25144, -99997, 41, 65, 99, 107, 110, 172, 180, 499, 999, 1000, 3002, 5000, 5017, 6019, 7016, 8002, 9006, 100000 };
   for( int i : odd) ids.push_back( i);
   for( int i = 0; i < 1000; i++) if( !F0.remap.count( i)) ids.push_back( i);
   const int n = (int)ids.size( );
   uint64_t idx = 0;
   for( int i = 0; i < n; i++)
      for( int sys = 0; sys <= 4; sys++, idx++)
         {
         if( !vh_mine( idx)) continue;
         const int id = ids[i];
         const Obj *o = find( F0, id);
         const Expr *w = o ? omega_of( *o, sys) : NULL;
         const ld rate = w ? rate_of( *w) : 0;
         vh_at( "object", id, sys);
         const double got_rate = planet_rotation_rate( id, sys); vh.states++; vh.transitions++;
         if( fabs( got_rate - (double)rate) > 1e-12 * fabs( (double)rate)) vh_fail( "rate", "object %d system %d: rate %.9f, not %.9f", id, sys, got_rate, (double)rate);
         double r[3] = { -1, -2, -3 };
         const int rv = planet_radii( id, r);
         if( (rv == 0) != (o != NULL)) vh_fail( "radii-rval", "object %d: planet_radii returns %d", id, rv);
         for( int k = 0; k < 3; k++) if( r[k] != (o ? o->r[k] : 0.)) vh_fail( "radii", "object %d: radius %d is %g, not %g", id, k, r[k], o ? o->r[k] : 0.);
         const double step = vh.thorough ? 1211.37 : 1e9;
         const int nd = (int)( sizeof( jds) / sizeof( jds[0]));
         std::vector<double> dates( jds, jds + nd);
         if( o) for( double j = 2305447.5; j < 2634166.; j += step) dates.push_back( j + id * .01);
         for( double jd : dates)
            {
            if( id == 3 && (jd < 2305000. || jd > 2630000.)) continue;     /* Earth's own model: C13, C16 */
            double m[9]; vh_at( "orientation", id, sys); vh_d( jd);
            for( double &x : m) x = 99.;
            const int rval = calc_planet_orientation( id, sys, jd, m); vh.states++; vh.transitions++; vh.validated++;
            const Ori e = model( &F0, id, sys, jd);
            if( (rval == 0) != e.found) vh_fail( "rval", "object %d returns %d", id, rval);
            if( ortho( m) > 1e-11) vh_fail( "ortho", "object %d system %d JD %.3f: axes are off orthonormal by %g", id, sys, jd, ortho( m));
            if( e.found && worst( m, e.m) > tol( jd, (double)rate)) vh_fail( "matrix", "object %d system %d JD %.5f: off by %g: %.9f %.9f %.9f  vs %.9f %.9f %.9f", id, sys, jd, worst( m, e.m), m[0], m[1], m[2], e.m[0], e.m[1], e.m[2]);
            if( !(idx % 97)) vh_outcome( vh_hash( m, sizeof( m)));
            }
         }
}

/* ---- published values (IAU WGCCRE), so that the file itself is judged ---- */
static const struct { int id, sys; double a0, a1, d0, d1, w0, w1, r; } pub[] = {
   { 0, 0, 286.13, 0, 63.87, 0, 84.176, 14.1844, 695700 }, { 2, 0, 272.76, 0, 67.16, 0, 160.20, -1.4813688, 6051.8 },
   { 3, 0, 0, -.641, 90, -.557, 190.147, 360.9856235, 6378.136 },
   { 5, 1, 268.056595, -.006499, 64.495303, .002413, 67.1, 877.9, 71492 }, { 5, 2, 268.056595, -.006499, 64.495303, .002413, 43.3, 870.27, 71492 }, { 5, 3, 268.056595, -.006499, 64.495303, .002413, 284.95, 870.536, 71492 },
   { 6, 3, 40.589, -.036, 83.537, -.004, 38.9, 810.7939024, 60268 }, { 7, 0, 257.311, 0, -15.175, 0, 203.81, -501.1600928, 25559 }, { 9, 0, 132.993, 0, -6.163, 0, 302.695, 56.3625225, 1188.3 },
   { 9001, 0, 132.993, 0, -6.163, 0, 122.695, 56.3625225, 606 } };
static void published( )
{
   for( auto &p : pub) for( double jd = 2415020.5; jd < 2488070.; jd += 731.3)
      {
      double m[9], e[9];
      if( p.id == 3 && (jd < 2433282. || jd > 2462502.)) continue;      /* the formula for the Earth has no Delta-T in it */
      vh_at( "published", p.id, p.sys); vh_d( jd);
      calc_planet_orientation( p.id, p.sys, jd, m); vh.transitions++; vh.states++;
      const ld d = jd + td_minus_ut( jd) / 86400.L - 2451545.L, T = d / 36525.L;
      matrix( p.a0 + p.a1 * T, p.d0 + p.d1 * T, p.w0 + (ld)p.w1 * d, p.w1 < 0, e);
      /* the trig terms of Jupiter's pole are below .0015 deg; Earth's formula is approximate, with no nutation */
      const double t = (p.id == 5 ? 3e-5 : p.id == 3 ? 3.5e-3 : 2e-7);
      if( worst( m, e) > t) vh_fail( "published", "object %d system %d JD %.1f: off the published model by %g", p.id, p.sys, jd, worst( m, e));
      double r[3]; planet_radii( p.id, r);
      if( r[0] != p.r) vh_fail( "published-radius", "object %d: radius %g", p.id, r[0]);
      }
   /* Mars, Mercury and Neptune, with their published trigonometric terms */
   for( double jd = 2415020.5; jd < 2488070.; jd += 431.3)
      {
      const ld d = jd + td_minus_ut( jd) / 86400.L - 2451545.L, T = d / 36525.L, k = PIL / 180.L;
      double m[9], e[9];
      vh_at( "published-mars"); vh_d( jd);
      matrix( 317.269202L - .10927547L * T + .419057L * sinl( k * (79.398797L + .5042615L * T)), 54.432516L - .05827105L * T + 1.591274L * cosl( k * (166.325722L + .5042615L * T)),
               176.049863L + 350.891982443297L * d + .584542L * sinl( k * (95.391654L + .5042615L * T)), false, e);
      calc_planet_orientation( 4, 0, jd, m); vh.transitions++; vh.states++;
      if( worst( m, e) > 1e-5) vh_fail( "published-mars", "Mars at JD %.1f: off by %g", jd, worst( m, e));
      vh_at( "published-neptune"); vh_d( jd);
      const ld N = k * (357.85L + 52.316L * T);
      matrix( 299.36L + .70L * sinl( N), 43.46L - .51L * cosl( N), 249.978L + 541.1397757L * d - .48L * sinl( N), false, e);
      calc_planet_orientation( 8, 0, jd, m); vh.transitions++; vh.states++;
      double dz = 0; for( int i = 6; i < 9; i++) dz = std::max( dz, fabs( m[i] - e[i]));
      if( dz > 1e-6) vh_fail( "published-neptune", "Neptune's pole at JD %.1f: off by %g", jd, dz);
      vh_at( "published-mercury"); vh_d( jd);
      matrix( 281.0103L - .0328L * T, 61.4155L - .0049L * T, 329.5988L + 6.1385108L * d + .01067257L * sinl( k * (174.7910857L + 4.092335L * d)), false, e);
      calc_planet_orientation( 1, 0, jd, m); vh.transitions++; vh.states++;
      if( worst( m, e) > 1e-3) vh_fail( "published-mercury", "Mercury at JD %.1f: off by %g", jd, worst( m, e));
      }
}

/* ---- each question after each other one, at the same date: no answer is another's ---- */
static void after_each( )
{
   struct Q { int id, sys; Ori e; double m[9]; int rval; };
   std::vector<Q> q;
   const double jd = 2453371.25;
   std::vector<int> ids = { 3, 41, 5555, -25142 };
   for( auto &o : F0.obj) ids.push_back( o.id);
   for( int id : ids) for( int sys = 0; sys <= 3; sys++)
      {
      Q a; a.id = id; a.sys = sys; a.e = model( &F0, id, sys, jd);
      load_cospar_file( NULL); load_cospar_file( GOOD);              /* nothing is remembered */
      a.rval = calc_planet_orientation( id, sys, jd, a.m);
      q.push_back( a);
      }
   uint64_t idx = 0;
   for( auto &a : q) for( auto &b : q)
      {
      if( !vh_mine( idx++)) continue;
      const bool near = a.id == b.id || a.sys == b.sys;
      if( !near && !vh.thorough) continue;
      vh_at( "after", a.id, a.sys); vh_i( b.id); vh_i( b.sys);
      double m[9];
      calc_planet_orientation( a.id, a.sys, jd, m);
      for( int k = 0; k < 2; k++)
         {
         const int rval = calc_planet_orientation( b.id, b.sys, jd, m); vh.transitions++;
         if( rval != b.rval || worst( m, b.m) > 0.) vh_fail( "after", "object %d system %d asked after object %d system %d: off by %g, returns %d", b.id, b.sys, a.id, a.sys, worst( m, b.m), rval);
         if( b.e.found && worst( m, b.e.m) > 5e-8) vh_fail( "after-model", "object %d system %d asked after object %d system %d: off its formulae by %g", b.id, b.sys, a.id, a.sys, worst( m, b.e.m));
         }
      vh.states++; vh.validated++;
      }
}
/* ---- histories: loading, reloading, freeing and asking, in any order ---- */
enum { LOAD_GOOD, LOAD_ALT, LOAD_NONE, FREE, O_MARS_1, O_MARS_2, O_NIX, O_MOON, O_UNK, O_EARTH, O_JUP2, O_JUP3, RATE_MARS, RATE_UNK, RATE_JUP, RADII_MARS, RADII_UNK, N_OPS };
static const char *opname[] = { "load good", "load alt", "load absent", "unload", "Mars t1", "Mars t2", "asteroid", "Moon", "unknown", "Earth", "Jupiter II", "Jupiter III", "rate Mars", "rate unknown", "rate Jupiter II", "radii Mars", "radii unknown" };
struct St { int loaded; };                 /* 0 nothing, 1 default, 2 alt */
static bool default_there;
static const File *want( St &s)            /* lazily loads the default */
{
   if( !s.loaded && default_there) s.loaded = 1;
   return s.loaded == 1 ? &F0 : s.loaded == 2 ? &F1 : NULL;
}
static int ops[12];
static S trace( int n) { S r; for( int i = 0; i < n; i++) { if( i) r += ", "; r += opname[ops[i]]; } return r; }
static void one( int op, St &s, int n)
{
   vh.transitions++;
   switch( op)
      {
      case LOAD_GOOD: case LOAD_ALT: case LOAD_NONE:
         {
         const int rv = load_cospar_file( op == LOAD_GOOD ? GOOD : op == LOAD_ALT ? ALT : NONE);
         s.loaded = (op == LOAD_GOOD ? 1 : op == LOAD_ALT ? 2 : 0);
         if( (rv == 0) != (s.loaded != 0)) vh_fail( "load-rval", "%s: returns %d", trace( n).c_str( ), rv);
         return;
         }
      case FREE: load_cospar_file( NULL); s.loaded = 0; return;
      case O_MARS_1: case O_MARS_2: case O_NIX: case O_MOON: case O_UNK: case O_EARTH: case O_JUP2: case O_JUP3:
         {
         const int id = (op == O_MARS_1 || op == O_MARS_2) ? 4 : op == O_NIX ? -25143 : op == O_MOON ? 10 : op == O_UNK ? 5555 : op == O_EARTH ? 3 : 5;
         const int sys = op == O_JUP2 ? 2 : op == O_JUP3 ? 3 : 0;
         const double jd = op == O_MARS_2 ? 2455555.5 : 2451234.5;
         double m[9]; for( double &x : m) x = 99;
         const File *f = (id == 3 ? NULL : want( s));
         const int rv = calc_planet_orientation( id, sys, jd, m);
         const Ori e = model( f, id, sys, jd);
         vh.validated++;
         if( (rv == 0) != e.found) vh_fail( "history-rval", "%s: the last returns %d, not %s", trace( n).c_str( ), rv, e.found ? "zero" : "an error");
         if( ortho( m) > 1e-12) vh_fail( "history-ortho", "%s: axes %g off orthonormal", trace( n).c_str( ), ortho( m));
         if( e.found && worst( m, e.m) > 5e-8) vh_fail( "history-matrix", "%s: the last is off by %g", trace( n).c_str( ), worst( m, e.m));
         if( !e.found)                     /* the made-up orientation is the same each time */
            {
            static std::map<int, std::vector<double>> seen; const int id_t = id * 2 + (jd > 2452000.);
            std::vector<double> v( m, m + 9);
            if( !seen.count( id_t)) { seen[id_t] = v; }
            else if( worst( m, seen[id_t].data( )) > 1e-8) vh_fail( "history-unknown", "%s: the last isn't as it was before", trace( n).c_str( ));
            }
         return;
         }
      case RATE_MARS: case RATE_UNK: case RATE_JUP:
         {
         const int id = op == RATE_MARS ? 4 : op == RATE_UNK ? 5555 : 5, sys = op == RATE_JUP ? 2 : 0;
         const File *f = want( s);
         const Obj *o = f ? find( *f, id) : NULL;
         const double e = o ? (double)rate_of( *omega_of( *o, sys)) : 0., g = planet_rotation_rate( id, sys);
         if( fabs( e - g) > 1e-9) vh_fail( "history-rate", "%s: the last gives %.9f, not %.9f", trace( n).c_str( ), g, e);
         return;
         }
      case RADII_MARS: case RADII_UNK:
         {
         const int id = op == RADII_MARS ? 4 : 5555;
         const File *f = want( s);
         const Obj *o = f ? find( *f, id) : NULL;
         double r[3] = { -7, -7, -7 };
         const int rv = planet_radii( id, r);
         if( (rv == 0) != (o != NULL)) vh_fail( "history-radii-rval", "%s: the last returns %d", trace( n).c_str( ), rv);
         for( int k = 0; k < 3; k++) if( r[k] != (o ? o->r[k] : 0.)) vh_fail( "history-radii", "%s: radius %d is %g, not %g", trace( n).c_str( ), k, r[k], o ? o->r[k] : 0.);
         return;
         }
      }
}
static void histories( )
{
   const int depth = vh.thorough ? 5 : 4;
   for( int there = 1; there >= 0; there--)
      {
      default_there = there;
      if( there) { if( symlink( "good.txt", "cospar.txt")) abort( ); }
      else unlink( "cospar.txt");
      load_cospar_file( NULL);
      St s; s.loaded = 0;
      uint64_t total = 1; for( int i = 0; i < depth; i++) total *= N_OPS;
      for( uint64_t h = 0; h < total; h++)
         {
         if( !vh_mine( h / N_OPS)) continue;
         uint64_t k = h; for( int i = depth - 1; i >= 0; i--) { ops[i] = (int)( k % N_OPS); k /= N_OPS; }
         vh_at( "history", (long)h, there);
         one( FREE, s, 0);
         for( int i = 0; i < depth; i++) one( ops[i], s, i + 1);
         vh.states++;
         }
      vh.counters["histories"] += total / vh.nshards;
      }
   load_cospar_file( GOOD);
}
/* the very first call in a process: each kind, in a process of its own */
#include <sys/wait.h>
static void first_calls( )
{
   for( int op = 0; op < N_OPS; op++)
      {
      if( !vh_mine( op)) continue;
      vh_at( "first", op);
      int fd[2]; if( pipe( fd)) abort( );
      const pid_t pid = fork( );
      if( !pid)
         {
         close( fd[0]);
         vh.fails.clear( ); vh.n_fail = 0; vh.out = NULL;
         St s; s.loaded = 0; default_there = true; ops[0] = op;
         one( op, s, 1);
         for( auto &f : vh.fails) if( write( fd[1], f.msg.c_str( ), f.msg.size( )) < 0) _exit( 3);
         _exit( vh.n_fail ? 1 : 0);
         }
      close( fd[1]);
      char b[600]; const ssize_t n = read( fd[0], b, sizeof( b) - 1); b[n > 0 ? n : 0] = 0; close( fd[0]);
      int st; waitpid( pid, &st, 0); vh.states++;
      if( !WIFEXITED( st) || WEXITSTATUS( st)) vh_fail( "first-call", "the first call of all, %s: %s", opname[op], b[0] ? b : "crash");
      }
}
static void copy_file( )
{
   const char *repo = getenv( "LUNAR_REPO"); S src = S( repo ? repo : "/repo") + "/cospar.txt";
   FILE *i = fopen( src.c_str( ), "rb"), *o = fopen( GOOD, "wb"), *a = fopen( ALT, "wb");
   if( !i || !o || !a) abort( );
   int c; while( (c = getc( i)) != EOF) putc( c, o);
   fprintf( a, "# alternative\r\n\r\nRemap: 77 78  5001 11\r\nRemap: 3001 12\r\nPlanet: M\r\n  M1 = 10 + 20T\r\n  M2=30.5-2d   # comment\r\n\r\nObj: 4\r\n  r=1000,900\r\n  a0 = 10.5 + 2 sin M1\r\n"
               "  d0=-20.25 -0.5T +1 cos 3M2\r\n  W3=1+2d\r\n  W=5 - 100.5d +1e-9d2 +2T2\r\nObj: 3001\r\n r=50\r\n a0=1\r\n d0=2\r\n W=3+4d\r\nPlanet: q\r\nObj: 5 # Jupiter\r\n r=1,2,3\r\n a0=100\r\n d0=50\r\n W2=1+700d\r\n W=2-7d\r\nObj: -8 \r\n a0=3\r\n d0=4\r\n W=5+6d\r\n");
   fclose( i); fclose( o); fclose( a);
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   copy_file( );
   if( symlink( "good.txt", "cospar.txt")) abort( );
   read_file( GOOD, F0); read_file( ALT, F1);
   if( F0.obj.size( ) != 76 && F0.obj.size( ) < 60) vh_fail( "objects", "only %zu objects in cospar.txt", F0.obj.size( ));
   first_calls( );
   everything( );
   after_each( );
   if( vh.shard == 0 || vh.nshards == 1) published( );
   unlink( "cospar.txt");
   histories( );
   vh_sample( "cospar.txt: %zu objects, %zu aliases", F0.obj.size( ), F0.remap.size( ));
   return vh_done( );
}
