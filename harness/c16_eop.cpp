/* C16 : Earth orientation parameters.  The loaded table is a global that is
   replaced by each load; every sequence of loads of good, damaged, short and
   missing files is explored, every torn version of a file and every damaged
   column, and after each step the table is probed against a model. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"

double default_td_minus_ut( const double jd);
typedef long double LD;
static const LD pi = 3.141592653589793238462643383279502884L, sec = pi / 648000;
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }

struct Day { int mjd; char flag; bool nut; double v[5]; int ut_leaps; };       /* arcsec, arcsec, s, mas, mas */
struct Table { std::vector<LD> v[5]; int start = 0, usable = 0, nut = 0, last_i = 0, rval = -1; };

/* the values of a day, as they are printed: x, y (6 decimals), TDT-UT1 (7), dPsi, dEps (3) */
static void truth( int kind, int mjd, double v[5])
{
   const double t = mjd - 41684;
   v[0] = .04 + .25 * sin( t / 69.) + .01 * sin( t * 2.2 + kind);
   v[1] = .29 + .25 * cos( t / 71. + kind) + .01 * sin( t * 1.7);
   v[2] = ( kind == 1 ? 58.2 : 44.0) + ( kind == 2 ? .00305 : .0021) * t * ( kind == 3 ? -1 : 1) + .07 * sin( t / 58.) - ( kind == 1 ? ( 48622 - 41684) * .0021 : 0);
   v[3] = -37. + 80. * sin( t / 400. + kind) + 3. * sin( t * 1.3);
   v[4] = -4. + 12. * cos( t / 390.) + .5 * sin( t * 1.9 + kind);
   if( kind == 4 && ( mjd & 1)) { v[2] += .2; v[0] *= -.8; }
   for( int i = 0; i < 5; i++)
      {
      const double s = ( i < 2 ? 1e6 : i == 2 ? 1e7 : 1e3);
      v[i] = floor( v[i] * s + .5) / s;
      }
}
static double td_utc0( int mjd) { return mjd == 41684 ? 44.184 : mjd == 41683 ? 44.184 : mjd == 48622 ? 58.184 : mjd == 48621 ? 57.184 + 0 : NAN; }

struct Spec { int kind, start, n_i, n_p, n_blank, nut; };
static std::vector<std::string> lines_of( const Spec &s)
{
   std::vector<std::string> rval;
   double utc = td_utc0( s.start), v[5];
   for( int i = 0; i < s.n_i + s.n_p + s.n_blank; i++)
      {
      char buff[400];
      const int mjd = s.start + i;
      truth( s.kind, mjd, v);
      if( i)
         {
         while( utc - v[2] > .6) utc -= 1.;         /* leap seconds, of either sign */
         while( utc - v[2] < -.6) utc += 1.;
         }
      memset( buff, ' ', 187); buff[187] = 0;
      std::string l = buff;
      auto put = [&]( int at, const char *text) { l.replace( at, strlen( text), text); };
      snprintf( buff, sizeof( buff), "%2d%2d%2d %8.2f", ( mjd / 365 + 59) % 100, 1 + i % 12, 1 + i % 28, (double)mjd); put( 0, buff);
      if( i < s.n_i + s.n_p)
         {
         const char f = i < s.n_i ? 'I' : 'P';
         snprintf( buff, sizeof( buff), "%c %9.6f%9.6f %9.6f%9.6f", f, v[0], .009786, v[1], .008123); put( 16, buff);
         snprintf( buff, sizeof( buff), "%c%10.7f%10.7f", f, utc - v[2], .0002710); put( 57, buff);
         if( i < s.n_i) { snprintf( buff, sizeof( buff), "%7.4f%7.4f", 2.345, .1234); put( 79, buff); }
         if( i < s.nut)
            { snprintf( buff, sizeof( buff), "%c %9.3f%9.3f %9.3f%9.3f", f, v[3], .123, v[4], .234); put( 95, buff); }
         if( i < s.n_i)
            { snprintf( buff, sizeof( buff), "%10.6f%10.6f%11.7f%10.3f%10.3f", v[0], v[1], utc - v[2], v[3], v[4]); put( 134, buff); }
         }
      if( l.size( ) != 187) { fprintf( stderr, "bad line length\n"); _exit( 3); }
      rval.push_back( l + "\n");
      }
   return rval;
}
static Table model_of( const Spec &s, int usable)        /* the first 'usable' lines are good */
{
   Table t;
   if( usable > s.n_i + s.n_p) usable = s.n_i + s.n_p;
   t.start = s.start; t.usable = usable; t.nut = s.nut < usable ? s.nut : usable;
   t.last_i = s.start + ( usable < s.n_i ? usable : s.n_i) - 1;
   t.rval = usable < 16371 ? -2 : s.start + usable - 1;
   for( int i = 0; i < usable; i++)
      {
      double v[5];
      truth( s.kind, s.start + i, v);
      for( int k = 0; k < 5; k++)
         t.v[k].push_back( k < 2 ? v[k] * sec : k == 2 ? (LD)v[k] : v[k] * sec / 1000);
      }
   return t;
}
static void write_file( const char *name, const std::string &s)
{
   FILE *f = fopen( name, "wb");
   if( !f || fwrite( s.data( ), 1, s.size( ), f) != s.size( ) || fclose( f)) { perror( name); _exit( 3); }
}
static std::string join( const std::vector<std::string> &l) { std::string r; for( auto &s : l) r += s; return r; }

static void check_at( const Table *t, double jd, int mask)
{
   static const LD tol[5] = { 1e-18L, 1e-18L, 3e-13L, 1e-20L, 1e-20L};
   earth_orientation_params p; memset( &p, 0x5a, sizeof( p));
   vh.states++; vh.transitions++;
   const int rval = get_earth_orientation_params( jd, &p, mask);
   const double *got[5] = { &p.dX, &p.dY, &p.tdt_minus_ut1, &p.dPsi, &p.dEps };
   int want_r = t ? 0 : -1;
   for( int i = 0; i < 5; i++)
      {
      LD want = 0, slope = 0;
      if( t && ( mask >> i & 1))
         {
         const int n = i < 3 ? t->usable : t->nut;
         const double dt = jd - ( t->start + 2400000.5);
         const int k = (int)floor( dt);
         if( k < 1 || k > n - 3) want_r |= 1 << i;
         else
            {
            const LD x = (LD)dt - k, *y = &t->v[i][k];
            const LD m0 = ( y[1] - y[-1]) / 2, m1 = ( y[2] - y[0]) / 2;
            want = y[0] * ( 1 + 2 * x) * ( 1 - x) * ( 1 - x) + m0 * x * ( 1 - x) * ( 1 - x) + y[1] * x * x * ( 3 - 2 * x) - m1 * x * x * ( 1 - x);
            slope = fabsl( y[1]) + fabsl( y[0]);
            }
         }
      bool wrong;
      if( i == 2 && ( mask & 4) && !want) wrong = *got[i] != default_td_minus_ut( jd);
      else wrong = bad( *got[i] - want, want ? tol[i] + slope * 4e-16L : 0);
      if( wrong) vh_fail( "value", "jd %.6f mask %d: parameter %d is %.15g, should be %.15Lg", jd, mask, i, *got[i], want); else vh.validated++;
      }
   if( rval != want_r) vh_fail( "missing-bits", "jd %.6f mask %d: returned %d, should be %d", jd, mask, rval, want_r);
   vh_outcome( vh_hash( &p, sizeof( p), rval));
}
static void rot( LD *a, LD *b, LD ang)          /* a' = a cos + b sin */
{
   for( int i = 0; i < 3; i++) { const LD u = a[i] * cosl( ang) + b[i] * sinl( ang); b[i] = b[i] * cosl( ang) - a[i] * sinl( ang); a[i] = u; }
}
static void check_matrix( const Table *t, double jd)
{
   const double year = 2000. + ( jd - 2451545.) / 365.25, jdt = 2451545. + ( year - 2000.) * 365.25, T = ( year - 2000.) / 100.;
   earth_orientation_params p;
   double m[9], dl, de;
   vh.states++; vh.transitions++;
   const int want_r = get_earth_orientation_params( jdt, &p, 31);
   const int rval = setup_precession_with_nutation_eops( m, year);
   nutation( T, &dl, &de);
   const LD eps = mean_obliquity( T), lon = dl * sec + p.dPsi, dob = de * sec + p.dEps;
   LD w[9];
   for( int i = 0; i < 9; i++) w[i] = !( i % 4);
   rot( w, w + 3, -T * ( 2306.2181L + T * ( .30188L + .017998L * T)) * sec);        /* IAU 1976 */
   rot( w, w + 6, -T * ( 2004.3109L - T * ( .42665L + .041833L * T)) * sec);
   rot( w, w + 3, -T * ( 2306.2181L + T * ( 1.09468L + .018203L * T)) * sec);
   rot( w + 3, w + 6, eps);
   rot( w, w + 3, -lon);
   rot( w + 3, w + 6, -eps - dob);
   const LD ut1 = jdt - 2451545.L - p.tdt_minus_ut1 / 86400.L;
   const LD tc = ut1 / 36525, gst = ( 280.46061837L + 360.98564736629L * ut1 + tc * tc * ( .000387933L - tc / 38710000)) * pi / 180;
   rot( w, w + 3, fmodl( gst, 2 * pi) + lon * cosl( eps));
   /* terrestrial frame: its pole is at (xp, -yp) */
   rot( w + 3, w + 6, -p.dY);
   rot( w, w + 6, p.dX);
   (void)t;
   LD err = 0;
   for( int i = 0; i < 9; i++) { const LD d = fabsl( w[i] - m[i]); if( !( d < err)) err = d; }
   if( rval != want_r || bad( err, 3.2e-9L)) vh_fail( "matrix", "jd %.6f: returned %d, matrix wrong by %.3Lg", jd, rval, err); else vh.validated++;
}

struct Op { const char *file; const Table *t; };
static void probe( const Table *t, int step)
{
   int info[3] = { -77, -77, -77};
   const int r = load_earth_orientation_params( NULL, info);
   vh.transitions++;
   const int w0 = t ? t->start : 0, w1 = t ? t->start + t->usable : 0, w2 = t ? t->start + t->nut : 0;
   if( r != ( t ? 0 : -1) || info[0] != w0 || info[1] != w1 || info[2] != w2)
      vh_fail( "range", "returned %d and %d %d %d, should be %d and %d %d %d", r, info[0], info[1], info[2], t ? 0 : -1, w0, w1, w2);
   else vh.validated++;
   const int ends[8] = { 41684, 48622, 58064, 58084, t ? t->start + t->usable : 64000, t ? t->start + t->nut : 64100, t ? t->start : 50000, 30000 };
   for( int e = 0; e < 8; e++)
      for( int d = -5; d <= 5; d++)
         check_at( t, ends[e] + d + 2400000.5 + ( ( d * 7 + step + 50) % 4) * .25, 31);
   check_matrix( t, 2455555.3 + step);
}
static int load( const char *file, int *date) { vh.transitions++; return load_earth_orientation_params( file, date); }
static void after_load( const char *file, const Table *t, const char *what, bool deep = false)
{
   int date = -5;
   const int r = load( file, &date), want = t ? t->rval : -1;
   vh.states++;
   const bool ok = t && t->rval > 0;
   if( r != want) vh_fail( "load", "%s: loading returned %d, should be %d", what, r, want); else vh.validated++;
   if( ok && date != t->last_i) vh_fail( "date", "%s: last observed day %d, should be %d", what, date, t->last_i);
   if( deep) { probe( ok ? t : NULL, 0); return; }
   int info[3];
   load_earth_orientation_params( NULL, info);
   if( info[1] != ( ok ? t->start + t->usable : 0) || info[2] != ( ok ? t->start + t->nut : 0)) vh_fail( "range", "%s: range %d %d %d", what, info[0], info[1], info[2]);
   for( int e = 0; e < 3; e++)
      for( int d = -5; d < 3; d++)
         check_at( ok ? t : NULL, ( ok ? t->start + ( e == 0 ? 2 : e == 1 ? t->usable : t->nut) : 58000) + d + 2400000.5 + .25 * e, 31);
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   static const Spec sp[] = {
      { 0, 41684, 16380, 60, 30, 16390},      /* 0 ordinary: observed, predicted, then blank lines */
      { 1, 48622, 16500, 20, 0, 16450},       /* 1 other start; ends right after its last line */
      { 2, 41684, 16340, 30, 5, 16340},       /* 2 a line too short */
      { 3, 41684, 16371, 0, 1, 16371},        /* 3 as short as allowed; negative leap seconds */
      { 4, 41683, 16375, 1, 0, 16376},        /* 4 rough data */
      { 0, 41684, 16400, 60, 3, 16455},       /* 5 damaged line in it */
      { 1, 48622, 16400, 60, 3, 16455},       /* 6 a day missing */
      { 0, 41684, 16400, 60, 3, 16455},       /* 7 first line not observed */
      { 4, 41684, 16400, 60, 3, 0},           /* 8 no nutation; a day twice */
      };
   std::vector<std::vector<std::string>> L;
   std::vector<Table> tab;
   std::vector<Op> ops;
   for( int i = 0; i < 9; i++)
      {
      L.push_back( lines_of( sp[i]));
      int usable = 1000000;
      std::vector<std::string> l = L[i];
      if( i == 5) { l[16390][12] = ' '; usable = 16390; }
      if( i == 6) { l.erase( l.begin( ) + 16380); usable = 16380; }
      if( i == 7) l[0][16] = 'P';
      if( i == 8) { l.insert( l.begin( ) + 16385, l[16384]); usable = 16385; }
      tab.push_back( model_of( sp[i], usable));
      if( i == 7) tab[i].rval = -2;
      char name[20]; snprintf( name, sizeof( name), "eop%d", i);
      write_file( name, join( l));
      }
   static const char *names[] = { "eop0", "eop1", "eop2", "eop3", "eop4", "eop5", "eop6", "eop7", "eop8", "nonexistent", "empty", NULL };
   write_file( "empty", "");
   const int n_ops = 12;

   /* histories of loads */
   const int depth = vh.thorough ? 4 : 3;
   uint64_t total = 1;
   for( int i = 0; i < depth; i++) total *= n_ops;
   for( uint64_t h = 0; h < total; h++)
      if( vh_mine( h / n_ops))
         {
         uint64_t c = h;
         int seq[5];
         for( int i = depth - 1; i >= 0; i--) { seq[i] = c % n_ops; c /= n_ops; }
         vh_at( "history", seq[0], seq[1], seq[2], depth > 3 ? seq[3] : -1);
         /* the state before the last step follows from a shorter history, already probed; it is enough to look after the last */
         for( int i = 0; i < depth; i++)
            {
            const int o = seq[i];
            int date = -5;
            const int r = load( names[o], o == 11 || ( ( h + i) & 1) ? NULL : &date);
            const Table *t = o < 9 && tab[o].rval > 0 ? &tab[o] : NULL;
            const int want = o < 9 ? tab[o].rval : o == 11 ? 0 : -1;
            if( r != want) vh_fail( "load", "loading %s returned %d, should be %d", names[o] ? names[o] : "NULL", r, want); else vh.validated++;
            if( t && date != -5 && date != t->last_i) vh_fail( "date", "loading %s: last observed day %d, should be %d", names[o], date, t->last_i);
            vh.states++;
            if( i == depth - 1) probe( t, h % 97);
            }
         }
   /* everywhere in the tables */
   for( int f = 0; f < 9; f++)
      {
      vh_at( "table", f);
      if( tab[f].rval <= 0) continue;
      load( names[f], NULL);
      for( int d = 0; d < tab[f].usable + 10; d++)
         if( vh_mine( d / 16))
            for( int q = 0; q < 4; q++)
               {
               static const double fr[4] = { 0, .25, .6180339, .999 };
               vh_at( "table", f, d, q);
               check_at( &tab[f], tab[f].start - 3 + d + 2400000.5 + fr[q], 31);
               if( d % 16 == q * 5) for( int m = 0; m < 32; m++) check_at( &tab[f], tab[f].start - 3 + d + 2400000.5 + fr[q], m);
               if( q == 1 && d % 8 == 3) check_matrix( &tab[f], tab[f].start - 3 + d + 2400000.5 + fr[q]);
               }
      }
   load( NULL, NULL);
   for( int d = -40000; d < 40000; d += 7)
      if( vh_mine( d & 0xff)) { vh_at( "none", d); check_at( NULL, 2451545. + d * 3.17, d & 31); check_matrix( NULL, 2451545. + d * .9); }

   /* torn writes: the file ends after any number of bytes */
   for( int f = 0; f < 2; f++)
      {
      const Spec s = f ? Spec { 4, 41684, 16372, 2, 1, 16373 } : sp[1];
      const std::string all = join( lines_of( s));
      char name[30]; snprintf( name, sizeof( name), "torn%d", f);
      const Table full = model_of( s, 1000000);
      const size_t last = f ? 16369 : vh.thorough ? 16480 : 16515;
      for( size_t n = last * 188; n <= all.size( ); n++)
         if( vh_mine( n))
            {
            vh_at( "torn", f, n);
            write_file( name, all.substr( 0, n));
            Table t = full;
            t.usable = std::min<int>( n / 188, s.n_i + s.n_p);
            t.nut = std::min( s.nut, t.usable);
            t.last_i = s.start + std::min( t.usable, s.n_i) - 1;
            t.rval = t.usable < 16371 ? -2 : s.start + t.usable - 1;
            after_load( name, &t, "torn file");
            }
      for( size_t n = 0; n < 400; n++)
         if( vh_mine( n))
            {
            vh_at( "torn-start", f, n);
            write_file( name, all.substr( 0, n));
            Table t; t.rval = n ? -2 : -1;
            after_load( name, &t, "torn at the start");
            }
      }
   /* one damaged byte: structural ones end the table, unused ones make no difference */
   {
   const Spec s = { 0, 41684, 16378, 4, 2, 16377 };
   const std::vector<std::string> l = lines_of( s);
   std::string all = join( l);
   const Table full = model_of( s, 1000000);
   for( int which = 0; which < ( vh.thorough ? 8 : 3); which++)
      for( int col = 0; col < 188; col++)
         for( int ch = 0; ch < 3; ch++)
            if( vh_mine( col))
               {
               static const int row[8] = { 16374, 0, 16380, 16371, 16372, 16377, 16378, 16381 };
               const size_t at = (size_t)row[which] * 188 + col;
               const char old = all[at], c = "x \n"[ch];
               const bool number = ( col >= 7 && col < 16) || ( col >= 18 && col < 28) || ( col >= 37 && col < 47) || ( col >= 58 && col < 69)
                        || ( col >= 95 && col < 107) || ( col >= 116 && col < 126);
               bool stop = ( c == '\n' && col < 187) || ( col == 187 && c != '\n') || col == 12 || col == 13 || col == 14 || col == 20 || ( col == 27 && c != ' ') || ( col == 16 && c == ' ') || ( col == 16 && row[which] == 0 && c != 'I');
               if( old == c || ( number && !stop)) continue;
               if( col == 16 && c == 'x') continue;            /* neither observed nor predicted: not specified */
               if( row[which] >= s.n_i + s.n_p) continue;
               vh_at( "damaged", row[which], col, c);
               all[at] = c;
               write_file( "damaged", all);
               all[at] = old;
               Table t = full;
               if( stop)
                  {
                  t.usable = row[which];
                  t.nut = std::min( s.nut, t.usable);
                  t.last_i = s.start + std::min( t.usable, s.n_i) - 1;
                  t.rval = t.usable < 16371 ? -2 : s.start + t.usable - 1;
                  }
               after_load( "damaged", &t, stop ? "damaged line" : "damage outside the data");
               }
   }
   return vh_done( );
}
