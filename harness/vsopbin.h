/* vsopbin.h: a "vsop.bin" of leading terms of VSOP87 and of Meeus's theory of the Moon, the places they give,
   computed in long double, and a way to run one of the programs that read it. */
#include <sys/wait.h>
#include <fcntl.h>
#include <string>
typedef std::string S; typedef long double ld;
static const ld pi_ = 3.14159265358979323846264338327950288L, D2R = pi_ / 180.L;
struct V { int series; double a, b, c; };
static const V earth[] = { { 36, 175347046, 0, 0 }, { 36, 3341656, 4.6692568, 6283.07585 }, { 36, 34894, 4.6261, 12566.1517 }, { 36, 3497, 2.7441, 5753.3849 }, { 36, 3418, 2.8289, 3.5231 }, { 36, 3136, 3.6277, 77713.7715 }, { 36, 2676, 4.4181, 7860.4194 }, { 36, 2343, 6.1352, 3930.2097 },
   { 37, 628331966747., 0, 0 }, { 37, 206059, 2.678235, 6283.07585 }, { 37, 4303, 2.6351, 12566.1517 }, { 38, 52919, 0, 0 }, { 38, 8720, 1.0721, 6283.0758 }, { 42, 280, 3.199, 84334.662 }, { 48, 100013989, 0, 0 }, { 48, 1670700, 3.0984635, 6283.07585 }, { 48, 13956, 3.05525, 12566.1517 }, { 49, 103019, 1.10749, 6283.07585 } };
static std::vector<V> more_series;      /* of the other planets, if a harness gives any */
struct M { signed char a[4]; int32_t l, r; };
static M mlon[60] = { { { 0, 0, 1, 0 }, 6288774, -20905355 }, { { 2, 0, -1, 0 }, 1274027, -3699111 }, { { 2, 0, 0, 0 }, 658314, -2955968 }, { { 0, 0, 2, 0 }, 213618, -569925 }, { { 0, 1, 0, 0 }, -185116, 48888 }, { { 0, 0, 0, 2 }, -114332, -3149 }, { { 2, 0, -2, 0 }, 58793, 246158 }, { { 2, -1, -1, 0 }, 57066, -152138 }, { { 2, 0, 1, 0 }, 53322, -170733 }, { { 2, -1, 0, 0 }, 45758, -204586 }, { { 0, 1, -1, 0 }, -40923, -129620 }, { { 1, 0, 0, 0 }, -34720, 108743 }, { { 0, 1, 1, 0 }, -30383, 104755 } };
static M mlat[60] = { { { 0, 0, 0, 1 }, 5128122, 0 }, { { 0, 0, 1, 1 }, 280602, 0 }, { { 0, 0, 1, -1 }, 277693, 0 }, { { 2, 0, 0, -1 }, 173237, 0 }, { { 2, 0, -1, 1 }, 55413, 0 }, { { 2, 0, -1, -1 }, 46271, 0 }, { { 2, 0, 0, 1 }, 32573, 0 }, { { 0, 0, 2, 1 }, 17198, 0 } };
static double fund_[25] = { 218.3164591, 481267.88134236, -.0013268, 1. / 538841., -1. / 65194000., 297.8502042, 445267.1115168, -.00163, 1. / 545868., -1. / 113065000., 357.5291092, 35999.0502909, -.0001536, 1. / 24490000., 0., 134.9634114, 477198.8676313, .008997, 1. / 69699., -1. / 14712000., 93.2720993, 483202.0175273, -.0034029, -1. / 3526000., 1. / 863310000. };
template<class T> static void add( S &b, T v) { b.append( (const char *)&v, sizeof v); }
static S vsop_bin( )
{
   int start[145]; std::vector<V> t( 2430, V{ 0, 0., 0., 0. }); int n = 0;
   for( int i = 0; i < 145; i++) { start[i] = !i ? 0 : i == 1 ? 38 : i <= 36 ? 120 : 0; if( i >= 36 && i < 134) { start[i] = 120 + n; for( const V &e : earth) if( e.series == i) t[120 + n++] = e; for( const V &e : more_series) if( e.series == i) t[120 + n++] = e; } if( i == 134) start[i] = 2366; if( i > 134) start[i] = 2430; }
   S b; for( int s : start) add<int16_t>( b, (int16_t)s); for( const V &e : t) { add( b, e.a); add( b, e.b); add( b, e.c); }
   b.resize( 59354, '\0'); for( int i = 13; i < 60; i++) mlon[i].a[0] = 4; mlon[46].r = 'q'; for( int i = 8; i < 60; i++) mlat[i].a[0] = 4;
   for( const M &m : mlon) { b.append( (const char *)m.a, 4); add( b, m.l); add( b, m.r); } for( const M &m : mlat) { b.append( (const char *)m.a, 4); add( b, m.l); }
   uint32_t low = 0x6ed5a0b1u; memcpy( fund_, &low, 4); for( double f : fund_) add( b, f); b.resize( 60874, (char)0); return b;
}
static void spit( const char *fn, const S &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); }
static S data_; static const char *vs;
static ld norm( ld x) { x = fmodl( x, 2. * pi_); return x < 0. ? x + 2. * pi_ : x; }
/* apparent place as the programs take it: no light-time, geocentric, mean equinox of date */
struct Place { ld lon, lat, r, eq[3], ecl[3]; };
static Place place( int body, ld jd)
{
   const ld T = (jd - 2451545.L) / 36525.L, t = T / 10.L; Place p;
   if( body == 3)
      { ld v[3] = { 0., 0., 0. }; for( const V &e : earth) v[(e.series - 36) / 6] += e.a * 1e-8L * powl( t, e.series % 6) * cosl( fmodl( e.b + (ld)e.c * t, 2. * pi_)); p.lon = v[0] + pi_; p.lat = -v[1]; p.r = v[2]; }
   else
      {
      ld f[5], e = 1.L - .002516L * T - .0000074L * T * T, sl = 0., sr = 0., sb = 0.; for( int i = 0; i < 5; i++) { const double *c = fund_ + 5 * i; f[i] = D2R * fmodl( c[0] + T * (c[1] + T * (c[2] + T * (c[3] + T * (ld)c[4]))), 360.L); }
      for( int i = 0; i < 60; i++) for( int k = 0; k < 2; k++) { const M &m = (k ? mlat : mlon)[i]; if( !m.l && !m.r) continue; const ld arg = m.a[0] * f[1] + m.a[1] * f[2] + m.a[2] * f[3] + m.a[3] * f[4], w = m.a[1] ? e : 1.L; if( k) sb += m.l * w * sinl( arg); else { sl += m.l * w * sinl( arg); sr += m.r * w * cosl( arg); } }
      const ld a1 = D2R * (119.75L + 131.849L * T), a2 = D2R * (53.09L + 479264.29L * T), a3 = D2R * (313.45L + 481266.484L * T);
      sl += 3958 * sinl( a1) + 1962 * sinl( f[0] - f[4]) + 318 * sinl( a2); sb += -2235 * sinl( f[0]) + 382 * sinl( a3) + 175 * sinl( a1 - f[4]) + 175 * sinl( a1 + f[4]) + 127 * sinl( f[0] - f[3]) - 115 * sinl( f[0] + f[3]);
      p.lon = f[0] + sl * 1e-6L * D2R; p.lat = sb * 1e-6L * D2R; p.r = 385000.56L + sr / 1000.L;
      }
   p.lon = norm( p.lon); const ld ob = D2R * (84381.448L - 46.815L * T - .00059L * T * T + .001813L * T * T * T) / 3600.L;
   p.ecl[0] = cosl( p.lat) * cosl( p.lon); p.ecl[1] = cosl( p.lat) * sinl( p.lon); p.ecl[2] = sinl( p.lat);
   p.eq[0] = p.ecl[0]; p.eq[1] = p.ecl[1] * cosl( ob) - p.ecl[2] * sinl( ob); p.eq[2] = p.ecl[1] * sinl( ob) + p.ecl[2] * cosl( ob); return p;
}
static S out;
static int run( const char *env, const std::vector<S> &args)
{
   const char *p = getenv( env); if( !p) { fprintf( stderr, "no %s\n", env); exit( 3); }
   const pid_t pid = fork( );
   if( !pid) { const int fd = open( "out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2( fd, 1); dup2( fd, 2); std::vector<char *> v; v.push_back( (char *)"tool"); for( const S &a : args) v.push_back( (char *)a.c_str( )); v.push_back( NULL); alarm( 60); execv( p, v.data( )); _exit( 127); }
   int st = 0; waitpid( pid, &st, 0); vh.transitions++; out.clear( ); FILE *f = fopen( "out.txt", "rb"); char b[2000]; size_t n; while( f && (n = fread( b, 1, sizeof b, f)) > 0) out.append( b, n); if( f) fclose( f); return WIFEXITED( st) ? WEXITSTATUS( st) : 1000 + WTERMSIG( st);
}
static std::vector<S> lines( ) { std::vector<S> r; size_t i = 0; while( i < out.size( )) { size_t e = out.find( '\n', i); if( e == S::npos) e = out.size( ); r.push_back( out.substr( i, e - i)); i = e + 1; } return r; }
