/* C22: constellation of a place in the sky; variable-star designations. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
/* areas in square degrees, as published for the IAU boundaries */
static const struct { const char *n; double area; } con[88] = {
   { "And", 722.278 }, { "Ant", 238.901 }, { "Aps", 206.327 }, { "Aql", 652.473 }, { "Aqr", 979.854 }, { "Ara", 237.057 }, { "Ari", 441.395 }, { "Aur", 657.438 }, { "Boo", 906.831 }, { "Cae", 124.865 }, { "Cam", 756.828 },
   { "Cap", 413.947 }, { "Car", 494.184 }, { "Cas", 598.407 }, { "Cen", 1060.422 }, { "Cep", 587.787 }, { "Cet", 1231.411 }, { "Cha", 131.592 }, { "Cir", 93.353 }, { "CMa", 380.118 }, { "CMi", 183.367 }, { "Cnc", 505.872 },
   { "Col", 270.184 }, { "Com", 386.475 }, { "CrA", 127.696 }, { "CrB", 178.710 }, { "Crt", 282.398 }, { "Cru", 68.447 }, { "Crv", 183.801 }, { "CVn", 465.194 }, { "Cyg", 803.983 }, { "Del", 188.549 }, { "Dor", 179.173 },
   { "Dra", 1082.952 }, { "Equ", 71.641 }, { "Eri", 1137.919 }, { "For", 397.502 }, { "Gem", 513.761 }, { "Gru", 365.513 }, { "Her", 1225.148 }, { "Hor", 248.885 }, { "Hya", 1302.844 }, { "Hyi", 243.035 }, { "Ind", 294.006 },
   { "Lac", 200.688 }, { "Leo", 946.964 }, { "Lep", 290.291 }, { "Lib", 538.052 }, { "LMi", 231.956 }, { "Lup", 333.683 }, { "Lyn", 545.386 }, { "Lyr", 286.476 }, { "Men", 153.484 }, { "Mic", 209.513 }, { "Mon", 481.569 },
   { "Mus", 138.355 }, { "Nor", 165.290 }, { "Oct", 291.045 }, { "Oph", 948.340 }, { "Ori", 594.120 }, { "Pav", 377.666 }, { "Peg", 1120.794 }, { "Per", 614.997 }, { "Phe", 469.319 }, { "Pic", 246.739 }, { "PsA", 245.375 },
   { "Psc", 889.417 }, { "Pup", 673.434 }, { "Pyx", 220.833 }, { "Ret", 113.936 }, { "Scl", 474.764 }, { "Sco", 496.783 }, { "Sct", 109.114 }, { "Ser", 636.928 }, { "Sex", 313.515 }, { "Sge", 79.923 }, { "Sgr", 867.432 },
   { "Tau", 797.249 }, { "Tel", 251.512 }, { "TrA", 109.978 }, { "Tri", 131.847 }, { "Tuc", 294.557 }, { "UMa", 1279.660 }, { "UMi", 255.864 }, { "Vel", 499.649 }, { "Vir", 1294.428 }, { "Vol", 141.354 }, { "Vul", 268.165 } };
static int look( double ra, double dec)
{
   char nm[4] = "xxx"; vh.transitions++;
   const int k = constell_from_ra_dec( ra, dec, nm);
   if( k < 0 || k > 87 || strcmp( nm, con[k].n)) { vh_fail( "name", "(%.6f, %.6f) is in constellation %d '%.3s'", ra, dec, k, nm); return 0; }
   return k;
}
/* rows of one arcminute, cells of one second of right ascension: the whole sky */
static const int NR = 10800, NC = 86400;
static void sky( )
{
   /* Boundaries lie on whole seconds and arcminutes.  Each shard takes all of the sky at a coarser
      step to find which rows differ, then every cell of those that do. */
   static uint8_t row[NC], prev[NC];
   static std::vector<std::vector<uint8_t>> rows; static std::vector<int> first; static std::vector<int> which( NR);
   uint64_t h0 = 0;
   const int step = vh.thorough ? 1 : 15;
   for( int r = 0; r < NR; r++)
      {
      vh_at( "row", r);
      const double dec = (r + .5) / 60. - 90.;
      bool same = r > 0;
      for( int c = 0; c < NC; c += step)
         {
         const int off = step > 1 ? (c / step * 7 + r) % step : 0;          /* a different second of each group in each row */
         const int k = look( (c + off + .5) / 240., dec);
         if( !r || prev[c + off] != k) { same = false; if( r) break; }
         }
      if( !same)
         {
         for( int c = 0; c < NC; c++) row[c] = (uint8_t)look( (c + .5) / 240., dec);
         memcpy( prev, row, sizeof( prev));
         const uint64_t h = vh_hash( row, sizeof( row));
         if( rows.empty( ) || h != h0) { rows.push_back( std::vector<uint8_t>( row, row + NC)); first.push_back( r); h0 = h; }
         }
      which[r] = (int)rows.size( ) - 1;
      vh.states++;
      }
   if( vh.shard) return;
   double area[88] = { 0. };
   for( size_t i = 0; i < rows.size( ); i++)
      {
      const int r1 = i + 1 < rows.size( ) ? first[i + 1] : NR;
      const double d0 = (first[i] / 60. - 90.) * M_PI / 180., d1 = (r1 / 60. - 90.) * M_PI / 180.;
      for( int c = 0; c < NC; c++) area[rows[i][c]] += (sin( d1) - sin( d0)) * (1. / 240.) * 180. / M_PI;
      vh_outcome( vh_hash( rows[i].data( ), NC));
      }
   for( int k = 0; k < 88; k++)
      {
      vh_at( "area", k); vh.states++;
      if( fabs( area[k] - con[k].area) > .00075) vh_fail( "area", "%s covers %.4f square degrees, should be %.3f", con[k].n, area[k], con[k].area);
      else vh.validated++;
      }
   /* each is one piece, Serpens two */
   std::vector<std::vector<int>> runs( rows.size( )); std::vector<std::vector<std::pair<int,int>>> seg( rows.size( )); std::vector<int> parent, kind;
   auto find = [&]( int a) { while( parent[a] != a) a = parent[a] = parent[parent[a]]; return a; };
   for( size_t i = 0; i < rows.size( ); i++)
      {
      for( int c = 0; c < NC; )
         {
         int e = c; while( e < NC && rows[i][e] == rows[i][c]) e++;
         seg[i].push_back( { c, e }); runs[i].push_back( (int)parent.size( )); kind.push_back( rows[i][c]); parent.push_back( (int)parent.size( )); c = e;
         }
      if( rows[i][0] == rows[i][NC - 1]) parent[find( runs[i].back( ))] = find( runs[i][0]);
      if( i) for( size_t a = 0, b = 0; a < seg[i].size( ) && b < seg[i - 1].size( ); )
         {
         if( kind[runs[i][a]] == kind[runs[i - 1][b]]) parent[find( runs[i][a])] = find( runs[i - 1][b]);
         if( seg[i][a].second < seg[i - 1][b].second) a++; else b++;
         }
      }
   int pieces[88] = { 0 };
   for( size_t a = 0; a < parent.size( ); a++) if( find( (int)a) == (int)a) pieces[kind[a]]++;
   for( int k = 0; k < 88; k++)
      { vh_at( "pieces", k); vh.states++; if( pieces[k] != (strcmp( con[k].n, "Ser") ? 1 : 2)) vh_fail( "pieces", "%s is in %d pieces", con[k].n, pieces[k]); else vh.validated++; }
   vh.counters["distinct rows"] = rows.size( ); vh.counters["segments"] = parent.size( );
}
/* stars whose constellation everyone knows, J2000 hours and degrees; precessed to 1875 */
static void stars( )
{
   static const struct { const char *c; double ra, dec; } s[] = {
      { "And", 0.1398, 29.09 }, { "And", 1.1622, 35.62 }, { "Aql", 19.8464, 8.87 }, { "Aqr", 22.0964, -.32 }, { "Ari", 2.1196, 23.46 }, { "Aur", 5.2782, 46. }, { "Boo", 14.2610, 19.18 }, { "Cap", 21.7840, -16.13 }, { "Car", 6.3992, -52.70 }, { "Cas", 0.6751, 56.54 },
      { "Cen", 14.6600, -60.83 }, { "Cep", 21.3097, 62.59 }, { "Cet", .7265, -17.99 }, { "CMa", 6.7525, -16.72 }, { "CMi", 7.6550, 5.22 }, { "Cru", 12.4433, -63.10 }, { "CVn", 12.9338, 38.32 }, { "CrB", 15.5781, 26.71 }, { "Cyg", 20.6905, 45.28 }, { "Cyg", 19.5120, 27.96 },
      { "Dra", 17.9434, 51.49 }, { "Dra", 14.0731, 64.38 }, { "Eri", 1.6286, -57.24 }, { "Gem", 7.5766, 31.89 }, { "Gem", 7.7553, 28.03 }, { "Gru", 22.1372, -46.96 }, { "Her", 17.2444, 14.39 }, { "Hya", 9.4598, -8.66 }, { "Leo", 10.1395, 11.97 }, { "Leo", 11.8177, 14.57 },
      { "Lep", 5.5455, -17.82 }, { "Lib", 15.2834, -9.38 }, { "Lyr", 18.6156, 38.78 }, { "Oph", 17.5822, 12.56 }, { "Ori", 5.9195, 7.41 }, { "Ori", 5.2423, -8.20 }, { "Pav", 20.4275, -56.74 }, { "Peg", 23.0794, 15.21 }, { "Peg", 21.7364, 9.87 }, { "Per", 3.4054, 49.86 },
      { "Per", 3.1361, 40.96 }, { "Phe", .4381, -42.31 }, { "PsA", 22.9608, -29.62 }, { "Psc", 2.0341, 2.76 }, { "Sco", 16.4901, -26.43 }, { "Sgr", 18.4029, -34.38 }, { "Sgr", 18.9211, -26.30 }, { "Ser", 15.7378, 6.43 }, { "Ser", 18.9370, 4.20 }, { "Tau", 4.5987, 16.51 }, { "Tau", 3.7914, 24.11 },
      { "Tri", 1.8847, 29.58 }, { "Tuc", .4010, -72.08 }, { "UMa", 11.0621, 61.75 }, { "UMa", 13.7923, 49.31 }, { "UMi", 2.5303, 89.26 }, { "UMi", 14.8451, 74.16 }, { "Vel", 8.1589, -47.34 }, { "Vir", 13.4199, -11.16 }, { "Vul", 19.4784, 24.66 }, { "Oct", 21.1462, -88.96 }, { "Dor", 5.3923, -69.75 }, { "Cir", 14.7085, -64.98 }, { "Sct", 18.5868, -8.24 }, { "Del", 20.6606, 15.91 }, { "Crv", 12.2634, -17.54 } };
   for( auto &x : s)
      {
      vh_ats( "star", x.c); vh.states++;
      const double T = -1.25, zeta = (2306.2181 * T + .30188 * T * T) / 3600. * M_PI / 180., z = (2306.2181 * T + 1.09468 * T * T) / 3600. * M_PI / 180., th = (2004.3109 * T - .42665 * T * T) / 3600. * M_PI / 180.;
      const double ra = x.ra * M_PI / 12., d = x.dec * M_PI / 180.;
      const double A = cos( d) * sin( ra + zeta), B = cos( th) * cos( d) * cos( ra + zeta) - sin( th) * sin( d), C = sin( th) * cos( d) * cos( ra + zeta) + cos( th) * sin( d);
      double r2 = (atan2( A, B) + z) * 180. / M_PI; const double d2 = asin( C) * 180. / M_PI;
      for( int turn = -9; turn <= 9; turn++)
         if( strcmp( con[look( r2 + 360. * turn, d2)].n, x.c)) vh_fail( "star", "RA %.4f h dec %.3f is in %s, not %s", x.ra, x.dec, con[look( r2 + 360. * turn, d2)].n, x.c); else vh.validated++;
      }
   /* any right ascension, by whole turns, in either direction; and poles */
   for( int r = 0; r <= 10800; r += 8) for( int c = 0; c < 86400; c += vh.thorough ? 37 : 337)
      {
      if( !vh_mine( (uint64_t)r / 8)) break;
      vh_at( "turn", r, c); vh.states++;
      const double ra = (c + .37) / 240., dec = std::min( 90., r / 60. - 90. + .003);
      const int k = look( ra, dec);
      if( look( ra - 360., dec) != k || look( ra + 360., dec) != k || look( ra - 1080., dec) != k || constell_from_ra_dec( ra, dec, NULL) != k) vh_fail( "turn", "(%.5f, %.5f) is in %s, but elsewhere a turn away", ra, dec, con[k].n);
      else vh.validated++;
      }
   /* either side of 0h */
   for( int r = 0; r < 10800; r++) for( double e : { .0005, .001, .002, .004 })
      if( vh_mine( r))
         {
         vh_at( "zero", r); vh.states++;
         const double dec = (r + .5) / 60. - 90.;
         if( look( -e, dec) != look( 360. - e, dec)) vh_fail( "zero-hours", "RA -%.4f, dec %.4f: %s, should be %s", e, dec, con[look( -e, dec)].n, con[look( 360. - e, dec)].n); else vh.validated++;
         }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   if( vh.shard == 0) { sky( ); }
   stars( );
   vh_sample( "area of Hydra 1302.844 square degrees");
   vh_done( );
   return 0;
}
