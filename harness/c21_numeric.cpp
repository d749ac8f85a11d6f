/* C21 : interpolation in tables and minimization within a bracket.
   The minimizer is a protocol between it and a function it can't see: here an
   adversary answers each question in every one of several ways, to a depth, and
   complete families of functions are minimized from all brackets. */
#include "vh.h"
#include "brentmin.h"

double cubic_spline_interpolate_within_table( const double *table, const int n_entries, double x, int *err_code);
double lagrange_interpolate_within_table( const double *table, const int n_entries, double x, const int n_pts, double *deriv);
typedef long double LD;
static bool bad( LD a, LD tol) { return !( a <= tol && a >= -tol); }

/* ---------------------------------------------------------------- minimizer */
struct Seen { double x, y; };
static bool in_order( const brent_min_t &b, const Seen *s, int n)
{
   /* the least value seen is x[0]; the bracket is the nearest points seen on either side, or within it */
   double best = HUGE_VAL, lo = -HUGE_VAL, hi = HUGE_VAL;
   for( int i = 0; i < n; i++) best = std::min( best, s[i].y);
   bool found = false;
   for( int i = 0; i < n; i++)
      {
      if( s[i].x == b.x[0] && s[i].y == b.y[0]) found = true;
      if( s[i].x < b.x[0]) lo = std::max( lo, s[i].x);
      if( s[i].x > b.x[0]) hi = std::min( hi, s[i].x);
      }
   if( !found || b.y[0] != best) return false;
   if( !( b.xmin < b.x[0] && b.x[0] < b.xmax)) return false;
   return b.xmin == lo && b.xmax == hi;
}
static uint64_t n_games, longest;
static void game( const brent_min_t &b0, Seen *s, int n, int depth)
{
   if( b0.xmax - b0.xmin < 1e-11) return;               /* as narrow as anyone would ask for */
   n_games++; vh.states++; vh.tick++;
   brent_min_t b = b0;
   const double x = brent_min_next( &b);
   vh.transitions++;
   if( b.step_type == 0)
      {
      if( x != b.x[0] || ( b.ytolerance == 0. && ( b.y[3] != b.y[0] && ( b.xmax - b.x[0] >= b.tolerance || b.x[0] - b.xmin >= b.tolerance))))
         vh_fail( "done-early", "after %d points: minimum %.17g in %.17g to %.17g", n, b.x[0], b.xmin, b.xmax);
      vh.validated++;
      return;
      }
   bool again = false;
   for( int i = 0; i < n; i++) if( s[i].x == x) again = true;
   if( again || x != b.next_x || !( x > b.xmin && x < b.xmax))
      { vh_fail( "question", "after %d points: asks for %.17g, bracket %.17g to %.17g about %.17g", n, x, b.xmin, b.xmax, b.x[0]); return; }
   vh.validated++;
   if( !depth) return;
   const double y0 = b.y[0], y1 = b.y[1], y2 = b.y[2];
   const double ans[8] = { y0 - 1, y0 - 1e-4, y0, y0 + ( y1 - y0) / 3, y1, ( y1 + y2) / 2, y2 + 1e-3, y2 + 1e3 };
   for( int a = 0; a < 8; a++)
      {
      if( ( a == 3 || a == 4) && y1 == y0) continue;
      if( a == 5 && y2 == y1) continue;
      brent_min_t c = b;
      s[n].x = x; s[n].y = ans[a];
      vh.ci[4] = vh.ci[4] * 8 + a; vh.nci = 5;
      const int done = brent_min_add( &c, ans[a]);
      if( !in_order( c, s, n + 1)) vh_fail( "bracket", "after %d points: minimum %.17g, bracket %.17g to %.17g", n + 1, c.x[0], c.xmin, c.xmax);
      else
         {
         const bool d = c.xmax - c.x[0] < c.tolerance && c.x[0] - c.xmin < c.tolerance;
         if( ( done != 0) != d && c.ytolerance == 0. && ( !done || c.n_iterations < 4 || c.y[3] != c.y[0])) vh_fail( "done", "after %d points: reports %d", n + 1, done);
         vh.validated++;
         game( c, s, n + 1, depth - 1);
         }
      vh.ci[4] /= 8;
      }
}
static double fn( int f, double x, double c)
{
   const double d = x - c, a = fabs( d);
   switch( f)
      {
      case 0: return d * d;
      case 1: return a;
      case 2: return sqrt( a);
      case 3: return d * d * d * d;
      case 4: return pow( a, 8.);
      case 5: return pow( a, 1.5);
      case 6: return d > 0 ? d : -100 * d;
      case 7: return d > 0 ? d * 1000. : -d;
      case 8: return d * d + .3 * d * d * d / ( 1. + a);
      case 9: return -exp( -d * d * 50.);
      case 10: return log( 1e-3 + a);
      case 11: return d > 0 ? 10. + d : -4. + d * ( -.1) - x * x;    /* cliff after a concave descent */
      case 12: return d < 0 ? 10. - d : -4. + d * .1 - ( 1. - x) * ( 1. - x);
      case 13: return cosh( 20. * d);
      case 14: return a - .5 * log( 1. + a);
      case 15: return 1. / ( 1e-3 + exp( -a * 30.));
      case 16: return 1e12 + d * d;                 /* flattened by rounding */
      case 17: return floor( a * 64.);              /* plateaus */
      case 18: return d * d * ( 1. + .5 * sin( 9. * d));
      default: return sin( d - 1.5707963267948966);
      }
}
static void minimize( int f, double c, double x1, double x2, double x3, int perm, double tol, double ytol)
{
   static const int order[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
   const double x[3] = { x1, x2, x3 };
   double y[3];
   for( int i = 0; i < 3; i++) y[i] = fn( f, x[i], c);
   if( !( y[1] <= y[0] && y[1] <= y[2])) return;
   if( y[1] == y[0] || y[1] == y[2]) return;               /* a strict bracket */
   const int *o = order[perm];
   brent_min_t b;
   brent_min_init( &b, x[o[0]], y[o[0]], x[o[1]], y[o[1]], x[o[2]], y[o[2]]);
   b.tolerance = tol; b.ytolerance = ytol;
   vh.states++;
   Seen s[400]; int n = 0;
   for( int i = 0; i < 3; i++) { s[n].x = x[i]; s[n++].y = y[i]; }
   const double target = tol ? tol : 1e-5;
   bool ended = false;
   for( int it = 0; it < 300; it++)
      {
      if( !tol && b.xmax - b.x[0] < target && b.x[0] - b.xmin < target) { ended = true; break; }
      vh.cd[2] = it; vh.ncd = 3;
      const double next = brent_min_next( &b);
      vh.transitions++;
      if( !b.step_type) { ended = true; break; }
      if( !( next > b.xmin && next < b.xmax && next != b.x[0])) { vh_fail( "question", "function %d, minimum %.9g, from %g %g %g: asks for %.17g in %.17g to %.17g", f, c, x1, x2, x3, next, b.xmin, b.xmax); return; }
      s[n].x = next; s[n].y = fn( f, next, c); n++;
      brent_min_add( &b, s[n - 1].y);
      if( !in_order( b, s, n)) { vh_fail( "bracket", "function %d, minimum %.9g, from %g %g %g, step %d: minimum %.17g in %.17g to %.17g", f, c, x1, x2, x3, it, b.x[0], b.xmin, b.xmax); return; }
      }
   if( (uint64_t)n > longest) longest = n;
   const bool exact = f < 16 || f > 18;
   if( !ended || n > 200) vh_fail( "no-convergence", "function %d, minimum %.9g, from %g %g %g: after %d points still %.17g to %.17g", f, c, x1, x2, x3, n, b.xmin, b.xmax);
   else if( exact && ytol == 0. && ( c < b.xmin - 2e-8 || c > b.xmax + 2e-8)) vh_fail( "wrong-minimum", "function %d, minimum %.9g, from %g %g %g: found in %.17g to %.17g", f, c, x1, x2, x3, b.xmin, b.xmax);
   else vh.validated++;
   vh_outcome( vh_hash( &b, sizeof( b)));
}
static void minimizer( )
{
   /* games */
   static const double xs[5] = { 0., .3, .5, 1., 4.}, ys[5] = { 3., 0., -1., 3., 1e4};
   int idx = 0;
   for( int l = 0; l < 4; l++) for( int m = l + 1; m < 5; m++) for( int r = m + 1; r < 5; r++)
      for( int yl = 0; yl < 5; yl++) for( int yr = 0; yr < 5; yr++) for( int t = 0; t < 4; t++)
         if( ys[yl] >= -1. && ys[yr] >= -1. && vh_mine( idx++))
            {
            static const double tols[4] = { 0., 1e-6, .05, .3 };
            const double ym = -1.;
            if( ys[yl] <= ym || ys[yr] <= ym) continue;
            for( int p = 0; p < 3; p++)
               {
               brent_min_t b;
               vh_at( "game", l * 100 + m * 10 + r, yl * 10 + yr, t, p);
               vh_i( 1);
               const double x[3] = { xs[l], xs[m], xs[r] }, y[3] = { ys[yl], ym, ys[yr] };
               brent_min_init( &b, x[p], y[p], x[( p + 1) % 3], y[( p + 1) % 3], x[( p + 2) % 3], y[( p + 2) % 3]);
               b.tolerance = tols[t];
               Seen s[40];
               for( int i = 0; i < 3; i++) { s[i].x = x[i]; s[i].y = y[i]; }
               if( !in_order( b, s, 3)) vh_fail( "bracket", "at the start");
               game( b, s, 3, vh.thorough ? 7 : 5);
               if( p == 0 && idx % 5 == 1) game( b, s, 3, vh.thorough ? 8 : 6);
               }
            }
   vh.counters["minimizer states in games"] = n_games;
   /* functions */
   idx = 0;
   for( int f = 0; f < 20; f++)
      for( int ci = 0; ci < ( vh.thorough ? 401 : 101); ci++)
         for( int m = 1; m < 20; m++)
            if( vh_mine( idx++))
               for( int t = 0; t < 5; t++)
                  for( int p = 0; p < 6; p++)
                     {
                     static const double tols[5] = { 0., 1e-3, 1e-5, 1e-7, 1e-4 };
                     if( ( f == 16 || f == 17) && !tols[t]) continue;
                     const double c = ( ci % 10 == 5) ? ( ci + 5) / ( vh.thorough ? 410. : 110.) : ci / ( vh.thorough ? 400. : 100.);
                     vh_at( "function", f, ci, m, t); vh_i( p); vh_d( c); vh_d( 0);
                     minimize( f, c, 0., m * .05, 1., p, tols[t], t == 4 ? 1e-7 : 0.);
                     }
   vh.counters["most points evaluated"] = longest;
}
/* ---------------------------------------------------------------- tables */
static void splines( )
{
   int idx = 0;
   static const double vals[5] = { 0., 1., -2., 7.5, 1024. };
   for( int n = 4; n <= ( vh.thorough ? 9 : 8); n++)
      {
      int total = 1;
      const int base = n <= 6 ? 5 : n <= 8 ? 3 : 2;
      for( int i = 0; i < n; i++) total *= base;
      for( int v = 0; v < total; v++)
         if( vh_mine( idx++))
            {
            std::vector<double> tab( n + 40, NAN);           /* neighbours must not be used */
            double *t = tab.data( ) + 20;
            for( int i = 0, w = v; i < n; i++, w /= base) t[i] = vals[w % base];
            vh_at( "spline", n, v);
            for( int q = -48; q <= ( n + 2) * 16; q++)
               {
               const double x = q / 16.;
               int err = 99;
               vh.states++; vh.transitions++;
               const double got = cubic_spline_interpolate_within_table( t, n, x, &err);
               const int want_err = x < 0 || x >= n - 1 ? -2 : x < 1 || x >= n - 2 ? -1 : 0;
               int k = (int)floor( x);
               if( k < 1) k = 1;
               if( k > n - 3) k = n - 3;
               const LD u = x - k, m0 = ( t[k + 1] - t[k - 1]) / 2, m1 = ( t[k + 2] - t[k]) / 2;
               const LD want = t[k] * ( 1 + 2 * u) * ( 1 - u) * ( 1 - u) + m0 * u * ( 1 - u) * ( 1 - u) + t[k + 1] * u * u * ( 3 - 2 * u) - m1 * u * u * ( 1 - u);
               if( bad( got - want, 1e-9) || err != want_err || ( !( q & 15) && x >= 1 && x <= n - 2 && got != t[q / 16]))
                  vh_fail( "spline", "%d entries, x %g: %.15g, error %d; should be %.15Lg, error %d", n, x, got, err, want, want_err);
               else vh.validated++;
               if( cubic_spline_interpolate_within_table( t, n, x, NULL) != got) vh_fail( "spline-null", "x %g", x);
               }
            }
      }
}
static void lagrange( )
{
   static const double off[17] = { 0., .5, .25, -.25, .1, -.4, .49, 1. / 3., 1e-3, -1e-5, 1e-6, -1e-7, 1e-9, -1e-11, 1e-12, -1e-14, 1e-15 };
   int idx = 0;
   for( int n_pts = 2; n_pts <= 12; n_pts++)
      for( int n = n_pts; n <= n_pts + 8; n++)
         for( int deg = 0; deg < n_pts; deg++)
            for( int shape = 0; shape < ( vh.thorough ? 12 : 4); shape++)
               if( vh_mine( idx++))
                  {
                  std::vector<double> tab( n + 40, NAN);
                  double *t = tab.data( ) + 20;
                  /* polynomial in (x - c) / w with small coefficients */
                  const LD c = n * ( shape % 4) / 4.L, w = n / 2.L;
                  LD co[13];
                  for( int i = 0; i <= deg; i++) co[i] = ( ( i * 7 + shape * 5) % 11 - 5) / 4.L;
                  co[deg] += 3;
                  auto value = [&]( LD x, LD *d) { LD r = 0, dr = 0; const LD u = ( x - c) / w; for( int i = deg; i >= 0; i--) { dr = dr * u + r; r = r * u + co[i]; } *d = dr / w; return r; };
                  LD dummy, scale = 1;
                  for( int i = 0; i < n; i++) { t[i] = value( i, &dummy); scale = std::max( scale, fabsl( t[i])); }
                  vh_at( "lagrange", n_pts, n, deg, shape);
                  for( int i = -2; i < n + 2; i++)
                     for( int o = 0; o < 17; o++)
                        {
                        const double x = i + off[o];
                        double d = NAN;
                        vh.states++; vh.transitions += 2;
                        LD wd;
                        const LD want = value( x, &wd);
                        const double got = lagrange_interpolate_within_table( t, n, x, n_pts, &d);
                        const double alone = lagrange_interpolate_within_table( t, n, x, n_pts, NULL);
                        /* rounding of the entries is magnified away from the middle of the points used */
                        LD amp = 0;
                        int k0 = (int)floor( x - n_pts / 2.) + 1;
                        k0 = std::max( 0, std::min( k0, n - n_pts));
                        for( int a = 0; a < n_pts; a++) { LD p = 1; for( int b = 0; b < n_pts; b++) if( b != a) p *= fabsl( x - k0 - b) / abs( a - b); amp += p; }
                        const bool inside = x >= 0 && x <= n - 1;
                        const LD tol = 1e-14L * ( amp + 1) * scale * n_pts, dtol = ( inside && amp < 30 ? 3e-8L * scale : 1e-6L * scale * ( amp + 1)) * ( n_pts > 8 ? 10 : 1);
                        if( bad( got - want, tol) || got != alone) vh_fail( "lagrange", "%d of %d points, degree %d, x %.17g: %.17g (%.17g alone), should be %.17Lg", n_pts, n, deg, x, got, alone, want);
                        else if( bad( d - wd, dtol)) vh_fail( "lagrange-slope", "%d of %d points, degree %d, x %.17g: slope %.17g, should be %.17Lg", n_pts, n, deg, x, d, wd);
                        else vh.validated++;
                        if( !off[o] && i >= 0 && i < n && got != t[i]) vh_fail( "lagrange-node", "%d of %d points, at entry %d", n_pts, n, i);
                        }
                  }
}
static void parabolas( )
{
   int idx = 0;
   for( int a = -20; a <= 20; a++)
      if( vh_mine( idx++))
         for( int b = -20; b <= 20; b++)
            for( int c = -5; c <= 5; c++)
               for( int t = 0; t < 27; t++)
                  {
                  double x[3] = { t % 3 - 1.5, t / 3 % 3 + 2., t / 9 * 3. - 5.}, y[3], B = 0, C = 0;
                  for( int i = 0; i < 3; i++) y[i] = c + x[i] * ( b + x[i] * a);
                  vh_at( "parabola", a, b, c, t);
                  vh.states++; vh.transitions += 3;
                  const double A = fit_parabola( x, y, &B, &C);
                  double B2 = 0;
                  if( bad( A - a, 1e-11) || bad( B - b, 1e-10) || bad( C - c, 1e-9) || fit_parabola( x, y, NULL, NULL) != A || fit_parabola( x, y, &B2, NULL) != A || B2 != B)
                     vh_fail( "parabola", "%d %d %d: %.15g %.15g %.15g", a, b, c, A, B, C);
                  else vh.validated++;
                  }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   splines( );
   lagrange( );
   parabolas( );
   minimizer( );
   return vh_done( );
}
