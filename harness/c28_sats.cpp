/* C28: the moons of Jupiter, Saturn and Neptune move as gravity makes them, and keep one face to their planet. */
#include "vh.h"
#include <functional>
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"
#include "gust86.h"
typedef std::vector<double> V;
static const double AU = 149597870.7, PI_ = 3.14159265358979323846, R2D = 180. / PI_;
static double dot( const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross( const double *a, const double *b, double *c) { double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; c[0] = x; c[1] = y; c[2] = z; }
/* ecliptic of date -> J2000: written out here (IAU 1976, Lieske), independent of precess.cpp */
static void to_j2000( double jd, const double *v, double *o)
{
   const double T = (jd - 2451545.) / 36525., as = PI_ / 180. / 3600.;
   const double eta = (47.0029 * T - .03302 * T * T + .00006 * T * T * T) * as, Pi = (174.876384 * 3600. - 869.8089 * T + .03536 * T * T) * as,
                p = (5029.0966 * T + 1.11113 * T * T - .000006 * T * T * T) * as;
   /* of date: longitude from the node of the two ecliptics is L - (Pi + p) */
   double a = -(Pi + p), x = v[0] * cos( a) - v[1] * sin( a), y = v[0] * sin( a) + v[1] * cos( a), z = v[2], t;
   t = y * cos( eta) - z * sin( eta); z = y * sin( eta) + z * cos( eta); y = t;      /* tilt by eta about the node */
   o[0] = x * cos( Pi) - y * sin( Pi); o[1] = x * sin( Pi) + y * cos( Pi); o[2] = z;
}
static void kepler_sun( double jd, int planet, double *s)    /* heliocentric place of the planet, JPL's mean elements */
{
   static const double E[5][12] = {
      { 5.20288700, -.00011607, .04838624, -.00013253, 1.30439695, -.00183714, 34.39644051, 3034.74612775, 14.72847983, .21252668, 100.47390909, .20469106 },
      { 9.53667594, -.00125060, .05386179, -.00050991, 2.48599187, .00193609, 49.95424423, 1222.49362201, 92.59887831, -.41897216, 113.66242448, -.28867794 },
      { 30.06992276, .00026291, .00859048, .00005105, 1.77004347, .00035372, -55.12002969, 218.45945325, 44.96476227, -.32241464, 131.78422574, -.00508664 },
      { 1.52371034, .00001847, .09339410, .00007882, 1.84969142, -.00813131, -4.55343205, 19140.30268499, -23.94362959, .44441088, 49.55953891, -.29257343 },
      { 19.18916464, -.00196176, .04725744, -.00004397, .77263783, -.00242939, 313.23810451, 428.48202785, 170.95427630, .40805281, 74.01692503, .04240589 } };
   const double *e = E[planet], T = (jd - 2451545.) / 36525.;
   const double a = e[0] + e[1] * T, ec = e[2] + e[3] * T, in = (e[4] + e[5] * T) / R2D, L = e[6] + e[7] * T, w = e[8] + e[9] * T, O = (e[10] + e[11] * T) / R2D;
   const double M = fmod( L - w, 360.) / R2D; double An = M; for( int k = 0; k < 12; k++) An = M + ec * sin( An);
   const double x = a * (cos( An) - ec), y = a * sqrt( 1 - ec * ec) * sin( An), ww = w / R2D - O, X = x * cos( ww) - y * sin( ww), Y = x * sin( ww) + y * cos( ww);
   s[0] = (cos( O) * X - sin( O) * cos( in) * Y) * AU; s[1] = (sin( O) * X + cos( O) * cos( in) * Y) * AU; s[2] = sin( in) * Y * AU;
}
/* published facts: periods (days), GM (km3/s2), mean eccentricity and inclination to the Laplace plane, COSPAR's number */
struct Moon { const char *name; int src, sys, idx; double period, gm, a, ecc; int cospar; double rad, tan, z, eslow, nslow, lock, dper, ddist; };
static const double D2 = 86400. * 86400.;
struct Sys { const char *name; double gm, J2, J4, R, ra, dec; } static const sys[5] = {
   { "Jupiter", 126686534., .014736, -.000587, 71492., 268.057, 64.495 },
   { "Saturn", 37931207.8, .01629071, -.00093583, 60330., 40.589, 83.537 },
   { "Neptune", 6835099.97, .0034084, -.0000334, 25225., 299.36, 43.46 },
   { "Mars", 42828.376, .0019566, -.0000155, 3396.19, 317.681, 52.886 },
   { "Uranus", 5793951.3, .00351068, -.0000342, 25559., 77.311, 15.175 } };
enum { JSAT, SSAT, TRITON, ROCK, GUST };
/* limits: radial, tangential and polar misfit of the acceleration, as a part of the planet's pull; misfit of the slow
   turning of the ellipse (radians x eccentricity) and of the plane (radians); degrees from facing the planet */
static const Moon moons[] = {
   { "Io", JSAT, 0, 0, 1.769138, 5959.9, 421800, 0.0041, 11, 0.00052, 0.00026, 2.1e-06, 0.00022, 0.00017, 1.5, 1e-05, 0.00018 },
   { "Europa", JSAT, 0, 1, 3.551181, 3202.7, 671100, 0.0094, 12, 0.00046, 0.00035, 7.2e-06, 0.00021, 6.5e-05, 3.4, 1e-05, 0.00013 },
   { "Ganymede", JSAT, 0, 2, 7.154553, 9887.8, 1070400, 0.0013, 13, 0.00024, 0.00017, 5.6e-06, 7.8e-05, 3.1e-05, 3.4, 1e-05, 0.00014 },
   { "Callisto", JSAT, 0, 3, 16.689017, 7179.3, 1882700, 0.0074, 14, 0.00066, 0.0015, 1.6e-05, 6.4e-05, 3.2e-05, 2.3, 1e-05, 0.00017 },
   { "Mimas", SSAT, 1, 0, 0.942422, 2.5026, 185539, 0.0196, 15, 0.0004, 0.00016, 1.6e-05, 0.0021, 0.00014, 10, 1e-05, 0.00031 },
   { "Enceladus", SSAT, 1, 1, 1.370218, 7.2027, 238042, 0.0047, 16, 0.0032, 3.6e-05, 4.8e-06, 9.2e-05, 0.00035, 2.2, 1e-05, 0.00097 },
   { "Tethys", SSAT, 1, 2, 1.887802, 41.2067, 294672, 0.0001, 17, 0.0049, 3e-05, 4.2e-06, 8.7e-05, 0.00049, 3.2, 1e-05, 0.0015 },
   { "Dione", SSAT, 1, 3, 2.736915, 73.1146, 377415, 0.0022, 18, 0.0029, 4.9e-05, 3.4e-06, 9.3e-05, 0.00046, 0.8, 1e-05, 0.00093 },
   { "Rhea", SSAT, 1, 4, 4.5175, 153.9426, 527068, 0.001, 19, 0.0027, 0.00011, 4e-06, 2.1e-05, 0.00034, 3.7, 1e-05, 0.00084 },
   { "Titan", SSAT, 1, 5, 15.945421, 8978.1382, 1221865, 0.0288, 20, 0.00035, 9.4e-05, 4.2e-06, 0.00029, 0.00093, 6.6, 1e-05, 0.00059 },
   { "Hyperion", SSAT, 1, 6, 21.276609, 0.3727, 1481009, 0.105, 0, 0.007, 0.0018, 0.00021, 0.0051, 0.0006, 4e+02, 7.3e-05, 0.0069 },
   { "Iapetus", SSAT, 1, 7, 79.3302, 120.5038, 3560854, 0.0293, 22, 0.004, 0.0066, 0.00046, 0.00025, 0.00066, 7.7, 1.1e-05, 0.0007 },
   { "Phoebe", SSAT, 1, 8, 550.31, 0.55, 12947913, 0.1634, 0, 0.015, 0.011, 0.0044, 0.055, 0.0075, 4e+02, 0.00015, 0.018 },
   { "Triton", TRITON, 2, 0, 5.876854, 1428.0, 354759, 0, 30, 0.006, 6.4e-06, 2.8e-06, 2e-09, 0.00051, 4.6, 1e-05, 0.0018 },
   { "Miranda", GUST, 4, 4, 1.413479, 4.4, 129900, 0.0013, 27, 0.00012, 6.3e-05, 2.1e-05, 3e-05, 0.00054, 2.3, 1.4e-05, 0.00063 },
   { "Ariel", GUST, 4, 0, 2.520379, 86.4, 190900, 0.0012, 23, 0.00018, 9.9e-05, 1.2e-06, 2.8e-05, 0.00066, 1.4, 1e-05, 0.0003 },
   { "Umbriel", GUST, 4, 1, 4.144177, 81.5, 266000, 0.0039, 24, 0.00044, 0.00036, 2.3e-06, 2.2e-05, 0.00011, 1.7, 1e-05, 0.00019 },
   { "Titania", GUST, 4, 2, 8.705872, 228.2, 436300, 0.0011, 25, 0.00039, 0.00033, 4.6e-06, 7.6e-06, 9.8e-05, 1.5, 1e-05, 0.0001 },
   { "Oberon", GUST, 4, 3, 13.463239, 192.4, 583500, 0.0014, 26, 0.00086, 0.00071, 7.1e-06, 1e-05, 0.00014, 1.5, 1e-05, 0.00016 },
   { "Phobos", ROCK, 3, 401, 0.31891, 0, 9376, 0.0151, 28, 0.00066, 6e-05, 1.3e-06, 0.0001, 0.00028, 6, 1e-05, 0.00027 },
   { "Deimos", ROCK, 3, 402, 1.262441, 0, 23458, 0.0002, 29, 3.3e-05, 9.3e-06, 5e-06, 3.3e-06, 0.0011, 0.7, 1e-05, 0.00012 },
   { "Amalthea", ROCK, 0, 505, 0.498179, 0, 181366, 0.0031, 47, 8.9e-05, 4.9e-05, 1.3e-06, 3.1e-05, 7.4e-05, 8.2, 1e-05, 0.0001 },
   { "Thebe", ROCK, 0, 514, 0.674536, 0, 221888, 0.0176, 48, 0.00035, 0.00019, 9.4e-06, 0.00012, 0.00021, 6.4, 1e-05, 0.00031 },
   { "Adrastea", ROCK, 0, 515, 0.29826, 0, 129000, 0.0018, 49, 0.00018, 2e-05, 8.4e-07, 1.1e-05, 0.00011, 6.1, 1e-05, 0.00026 },
   { "Metis", ROCK, 0, 516, 0.29478, 0, 128000, 0.0012, 50, 0.00075, 2.1e-05, 5.3e-07, 2.5e-05, 6e-05, 2.1, 1e-05, 0.0001 },
   { "Janus", ROCK, 1, 610, 0.69466, 0, 151460, 0.0068, 175, 0.00026, 7.6e-05, 1.4e-06, 8.8e-05, 3.5e-05, 4e+02, 0.00018, 0.00019 },
   { "Epimetheus", ROCK, 1, 611, 0.69433, 0, 151410, 0.0098, 176, 0.00042, 0.00013, 3.3e-06, 0.00012, 3.8e-05, 4e+02, 0.00019, 0.0001 },
   { "Helene", ROCK, 1, 612, 2.736915, 0, 377420, 0.007, 177, 8.7e-05, 4.6e-05, 2.6e-06, 0.015, 0.00035, 4e+02, 1e-05, 0.00011 },
   { "Telesto", ROCK, 1, 613, 1.887802, 0, 294710, 0.0002, 178, 5.7e-05, 3.1e-05, 3.4e-06, 7.4e-05, 0.00014, 6.6, 1e-05, 0.00026 },
   { "Calypso", ROCK, 1, 614, 1.887802, 0, 294710, 0.0005, 179, 4.7e-05, 2.7e-05, 4.2e-06, 7.4e-05, 0.00015, 4e+02, 1e-05, 0.00026 },
   { "Atlas", ROCK, 1, 615, 0.60169, 0, 137670, 0.0012, 51, 7.2e-06, 1.7e-06, 3e-06, 8e-07, 2.2e-05, 4e+02, 2.1e-05, 0.00013 },
   { "Prometheus", ROCK, 1, 616, 0.61299, 0, 139380, 0.0022, 52, 5.9e-05, 2.8e-05, 3.7e-07, 2.4e-05, 2.3e-05, 4e+02, 1e-05, 0.00012 },
   { "Pandora", ROCK, 1, 617, 0.628504, 0, 141720, 0.0042, 53, 0.00013, 6.2e-05, 3.7e-07, 5.5e-05, 2.8e-05, 4e+02, 1e-05, 0.00015 },
   { "Pan", ROCK, 1, 618, 0.575051, 0, 133584, 0, 54, 4.2e-06, 1.6e-06, 2.8e-07, 8.3e-07, 2e-05, 4e+02, 1e-05, 0.0001 },
   { "Daphnis", ROCK, 1, 635, 0.59408, 0, 136505, 0, 0, 6.4e-05, 1.8e-06, 2.8e-07, 8.3e-07, 2.1e-05, 4e+02, 1e-05, 0.00012 },
   { "Cordelia", ROCK, 4, 706, 0.335034, 0, 49800, 0.0003, 55, 9.9e-05, 2.2e-06, 1.9e-07, 8.8e-07, 1.2e-06, 4e+02, 1e-05, 0.0013 },
   { "Ophelia", ROCK, 4, 707, 0.3764, 0, 53800, 0.0099, 56, 0.0008, 3.7e-05, 2.3e-07, 3.9e-05, 2.5e-06, 4e+02, 1e-05, 0.00071 },
   { "Bianca", ROCK, 4, 708, 0.434579, 0, 59200, 0.0009, 57, 4.1e-05, 4.4e-06, 1.6e-07, 2.3e-06, 2.2e-06, 4e+02, 1e-05, 0.00084 },
   { "Cressida", ROCK, 4, 709, 0.46357, 0, 61800, 0.0004, 58, 2.3e-05, 3.3e-06, 1.3e-07, 1.1e-06, 7e-07, 4e+02, 1e-05, 0.00079 },
   { "Desdemona", ROCK, 4, 710, 0.47365, 0, 62700, 0.0001, 59, 3e-05, 2.9e-06, 1.3e-07, 5.1e-07, 1.3e-06, 4e+02, 1e-05, 0.00097 },
   { "Juliet", ROCK, 4, 711, 0.493065, 0, 64400, 0.0007, 60, 2.5e-05, 4.2e-06, 1.2e-07, 1.6e-06, 9.1e-07, 4e+02, 1e-05, 0.00094 },
   { "Portia", ROCK, 4, 712, 0.513196, 0, 66100, 0.0001, 61, 2.4e-05, 3.3e-06, 1.2e-07, 6.1e-07, 1.2e-06, 3.9, 1e-05, 0.00016 },
   { "Rosalind", ROCK, 4, 713, 0.55846, 0, 69900, 0.0001, 62, 1.7e-05, 4.4e-06, 1.2e-07, 9.8e-07, 3e-06, 4e+02, 1e-05, 0.00061 },
   { "Belinda", ROCK, 4, 714, 0.623527, 0, 75300, 0.0001, 63, 2.7e-05, 5.4e-06, 1e-07, 1.4e-06, 2.1e-06, 4e+02, 1e-05, 0.00085 },
   { "Puck", ROCK, 4, 715, 0.761833, 0, 86000, 0.0001, 64, 3.8e-05, 8.8e-06, 1.8e-07, 2.8e-06, 2.6e-05, 4e+02, 1e-05, 0.00018 },
   { "Perdita", ROCK, 4, 725, 0.638021, 0, 76417, 0.0116, 0, 0.05, 7.8e-05, 1.1e-05, 0.027, 0.029, 4e+02, 3.3e-05, 0.014 },
   { "Mab", ROCK, 4, 726, 0.922958, 0, 97736, 0.0025, 0, 0.00094, 1.9e-05, 5.7e-07, 0.0035, 0.0014, 4e+02, 1e-05, 0.00037 },
   { "Cupid", ROCK, 4, 727, 0.612825, 0, 74392, 0.0013, 0, 0.0067, 8.2e-06, 8.8e-07, 0.00045, 0.0019, 4e+02, 1e-05, 0.0021 },
   { "Triton (rock)", ROCK, 2, 801, 5.876854, 0, 354759, 0, 30, 0.00033, 6.2e-06, 7.7e-07, 1.6e-07, 8.1e-05, 3, 1e-05, 0.0001 },
   { "Naiad", ROCK, 2, 803, 0.294396, 0, 48227, 0.0004, 66, 4e-05, 1.7e-05, 1.9e-06, 1e-06, 0.00049, 4e+02, 1e-05, 0.0001 },
   { "Thalassa", ROCK, 2, 804, 0.311485, 0, 50074, 0.0002, 67, 3.9e-05, 2.5e-06, 1.4e-06, 6.5e-07, 2.8e-05, 4e+02, 1e-05, 0.00012 },
   { "Despina", ROCK, 2, 805, 0.334655, 0, 52526, 0.0002, 68, 1e-05, 2.6e-06, 1.6e-06, 4.2e-07, 1.6e-05, 4e+02, 1e-05, 0.0001 },
   { "Galatea", ROCK, 2, 806, 0.428745, 0, 61953, 0, 69, 2.9e-05, 3.2e-06, 2.4e-06, 1e-07, 3.4e-05, 4e+02, 1e-05, 0.0001 },
   { "Larissa", ROCK, 2, 807, 0.554654, 0, 73548, 0.0014, 70, 3.6e-05, 7.9e-06, 4.5e-06, 1.3e-05, 9.1e-05, 4e+02, 1e-05, 0.0001 },
   { "Proteus", ROCK, 2, 808, 1.122315, 0, 117646, 0.0005, 71, 3.8e-05, 2.7e-05, 2.5e-05, 1.9e-05, 0.00061, 4e+02, 1e-05, 0.00011 } };
static const int NM = (int)( sizeof( moons) / sizeof( moons[0]));
static const double RJ = 71418.;
static void place( const Moon &m, double jd, double *p)
{
   double v[15];
   vh_at( m.name); vh_d( jd);
   if( m.src == JSAT) { calc_jsat_loc( jd, v, 1 << m.idx, 0L); to_j2000( jd, v + 3 * m.idx, p); for( int k = 0; k < 3; k++) p[k] *= RJ; }
   else if( m.src == SSAT) { calc_ssat_loc( jd, v, m.idx, 0L); to_j2000( jd, v, p); for( int k = 0; k < 3; k++) p[k] *= AU; }
   else
      {
      const double ob = 23.4392911 / R2D; double unit = AU;
      if( m.src == TRITON) calc_triton_loc( jd, v);
      else if( m.src == GUST) gust86_posn( jd, m.idx, v), unit = 149597870.;
      else { if( evaluate_rock( jd, m.idx, v)) vh_fail( "unknown", "moon %d is not known", m.idx); unit = 1.; }
      p[0] = v[0] * unit; p[1] = (v[1] * cos( ob) + v[2] * sin( ob)) * unit; p[2] = (v[2] * cos( ob) - v[1] * sin( ob)) * unit;
      }
   vh.transitions++;
}
static void pole_of( int s, double *p)
{ const double ra = sys[s].ra / R2D, de = sys[s].dec / R2D, ob = 23.4392911 / R2D; double e[3] = { cos( ra) * cos( de), sin( ra) * cos( de), sin( de) }; p[0] = e[0]; p[1] = e[1] * cos( ob) + e[2] * sin( ob); p[2] = e[2] * cos( ob) - e[1] * sin( ob); }
/* everything that pulls on the moon except the planet's own mass, relative to the planet */
static void perturb( const Moon &m, double jd, const double *p, double *f)
{
   const Sys &s = sys[m.sys]; double pole[3]; pole_of( m.sys, pole);
   const double r2 = dot( p, p), rr = sqrt( r2), sn = dot( p, pole) / rr, q2 = s.J2 * s.R * s.R / r2, q4 = s.J4 * pow( s.R, 4) / (r2 * r2), g = (s.gm + m.gm) * D2 / r2;
   for( int x = 0; x < 3; x++)
      f[x] = -g * p[x] / rr * 1.5 * q2 * (1 - 5 * sn * sn) - g * 3 * q2 * sn * pole[x] + g * q4 * (15. / 8. * (1 - 14 * sn * sn + 21 * pow( sn, 4)) * p[x] / rr + 2.5 * (3 * sn - 7 * sn * sn * sn) * pole[x]);
   double h[3], d[3]; kepler_sun( jd, m.sys, h); for( int x = 0; x < 3; x++) d[x] = -h[x] - p[x];
   const double gs = 132712440041.9 * D2, d3 = pow( dot( d, d), 1.5), h3 = pow( dot( h, h), 1.5);
   for( int x = 0; x < 3; x++) f[x] += gs * (d[x] / d3 + h[x] / h3);
   for( int k = 0; k < NM; k++) if( moons[k].sys == m.sys && &moons[k] != &m && m.idx != 801 && moons[k].gm > 40. && strcmp( m.name, "Phoebe"))
      {
      double q[3]; place( moons[k], jd, q); for( int x = 0; x < 3; x++) d[x] = q[x] - p[x];
      const double e3 = pow( dot( d, d), 1.5), q3 = pow( dot( q, q), 1.5);
      for( int x = 0; x < 3; x++) f[x] += moons[k].gm * D2 * (d[x] / e3 - q[x] / q3);
      }
}
struct Worst { double rad, tan, z, vel, lock; } static worst[80];
static bool show;
/* acceleration along the path less what pulls, as a part of the planet's pull: outward, forward, up */
static void misfit( const Moon &m, double jd, double *out)
{
   const double h = .01 * m.period; double p[7][3], a[3], f[3];
   for( int k = -3; k <= 3; k++) place( m, jd + k * h, p[k + 3]);
   static const double c[7] = { 1. / 90., -3. / 20., 1.5, -49. / 18., 1.5, -3. / 20., 1. / 90. };
   for( int x = 0; x < 3; x++) { a[x] = 0; for( int k = 0; k < 7; k++) a[x] += c[k] * p[k][x]; a[x] /= h * h; }
   const double *r = p[3], rr = sqrt( dot( r, r)), g = (sys[m.sys].gm + m.gm) * D2 / (rr * rr);
   perturb( m, jd, r, f);
   double nrm[3], u[3], w[3], res[3]; double vel[3]; for( int x = 0; x < 3; x++) vel[x] = p[4][x] - p[2][x];
   cross( r, vel, nrm); const double nl = sqrt( dot( nrm, nrm)); for( int x = 0; x < 3; x++) { nrm[x] /= nl; u[x] = r[x] / rr; } cross( nrm, u, w);
   for( int x = 0; x < 3; x++) res[x] = (a[x] - f[x]) / g + u[x];
   out[0] = dot( res, u); out[1] = dot( res, w); out[2] = dot( res, nrm);
   vh.states++; vh.validated++;
}
static void motion( const Moon &m, double jd)
{
   double e[3]; misfit( m, jd, e); const double R = e[0], T = e[1], Z = e[2];
   Worst &W = worst[&m - moons]; W.rad = fmax( W.rad, fabs( R)); W.tan = fmax( W.tan, fabs( T)); W.z = fmax( W.z, fabs( Z));
   if( !(fabs( R) < m.rad)) vh_fail( "radial", "%s at JD %.4f: acceleration off by %.2e of the planet's pull, radially (limit %.1e)", m.name, jd, R, m.rad);
   if( !(fabs( T) < m.tan)) vh_fail( "tangential", "%s at JD %.4f: acceleration off by %.2e of the planet's pull, along the orbit (limit %.1e)", m.name, jd, T, m.tan);
   if( !(fabs( Z) < m.z)) vh_fail( "polar", "%s at JD %.4f: acceleration off by %.2e of the planet's pull, across the orbit (limit %.1e)", m.name, jd, Z, m.z);
   vh_outcome( (uint64_t)( (&m - moons) * 1000003 + (long)( R * 1e6) * 1009 + (long)( T * 1e6)));
}
/* the slow turning of ellipse and plane: Gauss's equations summed along the path against the path's own ellipse and plane */
static void slow( const Moon &m, double jd0, int orbits, int win)
{
   const int S = 24; const double hh = m.period / S, dv = m.period / 500.; const long N = (long)orbits * S;
   std::vector<double> P[3], I[3], H[3], K[3]; for( int x = 0; x < 3; x++) { P[x].resize( N); I[x].resize( N); H[x].resize( N); K[x].resize( N); }
   double Is[3] = { 0, 0, 0 }, Ks[3] = { 0, 0, 0 };
   const double mu = (sys[m.sys].gm + m.gm) * D2; double am = 0;
   for( long i = 0; i < N; i++)
      {
      const double jd = jd0 + i * hh; double p[3], a[3], b[3], v[3], h[3], f[3], t[3], w1[3], w2[3];
      place( m, jd, p); place( m, jd - dv, a); place( m, jd + dv, b); for( int x = 0; x < 3; x++) v[x] = (b[x] - a[x]) / (2 * dv);
      perturb( m, jd, p, f); cross( p, v, h); cross( f, h, w1); cross( p, f, t); cross( v, t, w2);
      const double hm = sqrt( dot( h, h)), tn = dot( t, h) / hm;
      for( int x = 0; x < 3; x++) { P[x][i] = p[x]; I[x][i] = Is[x]; K[x][i] = Ks[x]; H[x][i] = h[x] / hm; Is[x] += (w1[x] + w2[x]) / mu * hh; Ks[x] += (t[x] - tn * h[x] / hm) / hm * hh; }
      am += sqrt( dot( p, p)) / N;
      }
   const long W = (long)win * S; std::vector<double> w( W); double ws = 0; for( long i = 0; i < W; i++) ws += (w[i] = 1 - cos( 2 * PI_ * (i + .5) / W));
   std::vector<double> T, rE[3], rN[3], sE[3], sN[3];
   for( long o = 0; o + W <= N; o += W / 2)
      {
      double e[3] = { 0 }, ie[3] = { 0 }, n[3] = { 0 }, k[3] = { 0 };
      for( long i = 0; i < W; i++) for( int x = 0; x < 3; x++) { const double q = w[i] / ws; e[x] += q * P[x][o + i] / (-1.5 * am); ie[x] += q * I[x][o + i]; n[x] += q * H[x][o + i]; k[x] += q * K[x][o + i]; }
      T.push_back( (double)o / N - .5); for( int x = 0; x < 3; x++) { rE[x].push_back( e[x] - ie[x]); rN[x].push_back( n[x] - k[x]); sE[x].push_back( e[x]); sN[x].push_back( n[x]); }
      vh.states++; vh.validated++;
      }
   /* a straight line is removed: it stands for the constant tilt between the theory's reference plane and the planet's equator */
   auto rms = [&]( std::vector<double> *r) { double tot = 0; const double n = T.size( ); for( int x = 0; x < 3; x++) { double mt = 0, my = 0, a = 0, b = 0; for( size_t i = 0; i < T.size( ); i++) { mt += T[i] / n; my += r[x][i] / n; }
      for( size_t i = 0; i < T.size( ); i++) { a += (T[i] - mt) * (r[x][i] - my); b += (T[i] - mt) * (T[i] - mt); } for( size_t i = 0; i < T.size( ); i++) { const double d = r[x][i] - my - a / b * (T[i] - mt); tot += d * d / n; } } return sqrt( tot); };
   auto slope = [&]( std::vector<double> *r) { double tot = 0; const double n = T.size( ); for( int x = 0; x < 3; x++) { double mt = 0, my = 0, a = 0, b = 0; for( size_t i = 0; i < T.size( ); i++) { mt += T[i] / n; my += r[x][i] / n; }
      for( size_t i = 0; i < T.size( ); i++) { a += (T[i] - mt) * (r[x][i] - my); b += (T[i] - mt) * (T[i] - mt); } tot += a / b * a / b; } return sqrt( tot); };
   const double yrs = N * hh / 365.25;
   if( show) printf( "%-10s from %.1f, %.0f yr: ellipse misfit %.2e (turning %.2e) drift %.2e/yr; plane misfit %.2e (turning %.2e) drift %.2e/yr\n", m.name, jd0, yrs, rms( rE), rms( sE), slope( rE) / yrs, rms( rN), rms( sN), slope( rN) / yrs);
   if( !(rms( rE) < m.eslow)) vh_fail( "ellipse", "%s from JD %.1f: its ellipse turns %.2e off what the forces make of it (limit %.1e)", m.name, jd0, rms( rE), m.eslow);
   if( !(rms( rN) < m.nslow)) vh_fail( "plane", "%s from JD %.1f: its plane turns %.2e off what the forces make of it (limit %.1e)", m.name, jd0, rms( rN), m.nslow);
   vh_outcome( (uint64_t)( rms( rE) * 1e12));
}
/* goes round in the published time at the published distance; the planet's and moon's masses agree with both (Kepler's third law) */
static double third( const Moon &m)
{
   const double jd0 = 2447000.; const long N = 400 * 12; double last[3], p[3], turn = 0, av = 0, mean = 0, e[3];
   for( long i = 0; i <= N; i++)
      {
      double c[3]; place( m, jd0 + i * m.period / 12., p); av += sqrt( dot( p, p)) / (N + 1);
      if( i) { cross( last, p, c); turn += atan2( sqrt( dot( c, c)), dot( last, p)); }
      memcpy( last, p, sizeof( p));
      }
   const double per = N * m.period / 12. * 2 * PI_ / turn;
   for( int i = 0; i < 997; i++) { misfit( m, jd0 + i * (17.77 + m.period * .61803), e); mean += e[0] / 997; }
   if( show) printf( "%-10s period %.6f (published %.6f: %.1e), distance %.0f (published %.0f: %.1e), third law %.2e\n", m.name, per, m.period, per / m.period - 1, av, m.a, av / m.a - 1, mean);
   if( !(fabs( per / m.period - 1) < m.dper)) vh_fail( "period", "%s goes round in %.6f days; published %.6f", m.name, per, m.period);
   if( !(fabs( av / m.a - 1) < m.ddist)) vh_fail( "distance", "%s is on average %.0f km from its planet; published %.0f", m.name, av, m.a);
   vh_outcome( (uint64_t)( per * 1e9));
   return mean;
}
/* one face to the planet, by the IAU's model of the moon's rotation */
static void facing( const Moon &m, double jd)
{
   double p[3], q[3], mat[9]; place( m, jd, p); const double ob = 23.4392911 / R2D;
   q[0] = -p[0]; q[1] = -(p[1] * cos( ob) - p[2] * sin( ob)); q[2] = -(p[1] * sin( ob) + p[2] * cos( ob));
   const double ut = jd - td_minus_ut( jd) / 86400.;
   if( calc_planet_orientation( m.cospar, 0, ut, mat)) { vh_fail( "unmodelled", "no rotation model for %s (%d)", m.name, m.cospar); return; }
   const double r = sqrt( dot( q, q)), lon = atan2( dot( q, mat + 3), dot( q, mat)) * R2D, lat = asin( dot( q, mat + 6) / r) * R2D, off = hypot( lon, lat);
   worst[&m - moons].lock = fmax( worst[&m - moons].lock, off); vh.states++; vh.validated++;
   if( !(off < m.lock)) vh_fail( "facing", "%s at JD %.4f: its planet is over longitude %.3f latitude %.3f of its face, not the middle (limit %.1f)", m.name, jd, lon, lat, m.lock);
}
/* Uranus' moons come with velocities */
static void velocity( const Moon &m, double jd)
{
   double a[6], b[6], v[6], d[3]; const double h = m.period / 2000.;
   gust86_posn( jd - h, m.idx, a); gust86_posn( jd + h, m.idx, b); gust86_posn( jd, m.idx, v); vh.transitions += 3; vh.states++; vh.validated++;
   for( int x = 0; x < 3; x++) d[x] = (b[x] - a[x]) / (2 * h * 86400.) - v[x + 3];
   const double e = sqrt( dot( d, d) / dot( v + 3, v + 3)); worst[&m - moons].vel = fmax( worst[&m - moons].vel, e);
   if( !(e < 6e-4)) vh_fail( "velocity", "%s at JD %.4f: its velocity is %.2e off the rate at which its place changes", m.name, jd, e);
}
static bool same( const double *a, const double *b, int n) { return !memcmp( a, b, n * sizeof( double)); }
/* what is asked for is what is given: any choice of moons, in any order, and refusals leave the output alone */
static void asked( double jd)
{
   double all[15], v[15], old[15];
   calc_jsat_loc( jd, all, 31, 0L);
   for( int mask = 0; mask < 32; mask++)
      {
      for( int k = 0; k < 15; k++) old[k] = v[k] = 1e30 + k;
      vh_at( "calc_jsat_loc", mask, 0); vh_d( jd);
      const int rv = calc_jsat_loc( jd, v, mask, 0L); vh.states++; vh.transitions++; vh.validated++;
      if( rv != mask) vh_fail( "jsat-return", "asked for moons %d, answered %d", mask, rv);
      for( int k = 0; k < 5; k++)
         if( (mask >> k) & 1) { if( !same( v + 3 * k, all + 3 * k, 3)) vh_fail( "jsat-subset", "moon %d differs when moons %d are asked for at JD %.4f", k + 1, mask, jd); }
         else if( k == 4) { if( !same( v + 12, old + 12, 3)) vh_fail( "jsat-unasked", "the pole was written, not being asked for (%d)", mask); }
         else for( int x = 0; x < 3; x++) if( v[3 * k + x] != 0. && v[3 * k + x] != old[3 * k + x]) vh_fail( "jsat-unasked", "moon %d, not asked for, got a place", k + 1);
      }
   double pole[3], pj[3]; to_j2000( jd, all + 12, pj); pole_of( 0, pole);
   const double off = acos( fmin( 1., dot( pj, pole) / sqrt( dot( pj, pj)))) * R2D;
   worst[0].vel = fmax( worst[0].vel, off);
   if( !(off < .05)) vh_fail( "jsat-pole", "Jupiter's pole is %.3f degrees from the IAU's at JD %.4f", off, jd);
   for( int k = 0; k < 4; k++) { const double d = fabs( dot( all + 3 * k, all + 12)) / sqrt( dot( all + 3 * k, all + 3 * k)); if( d > .013) vh_fail( "jsat-plane", "moon %d is %.4f off Jupiter's equator", k + 1, d); }
   const int bad[] = { -1, -2, 9, 10, 100, 32767, -32768 };
   for( int b : bad)
      {
      for( int k = 0; k < 3; k++) old[k] = v[k] = 1e30 + k;
      vh_at( "calc_ssat_loc", b, 0); vh.states++; vh.transitions++; vh.validated++;
      if( calc_ssat_loc( jd, v, b, 0L) != -1 || !same( v, old, 3)) vh_fail( "ssat-refusal", "moon %d of Saturn was not refused", b);
      }
   for( int id = 0; id < 1000; id++)
      {
      bool known = false; for( auto &m : moons) if( m.src == ROCK && m.idx == id) known = true;
      for( int k = 0; k < 3; k++) old[k] = v[k] = 1e30 + k;
      vh_at( "evaluate_rock", id, 0); const int rv = evaluate_rock( jd, id, v); vh.states++; vh.transitions++; vh.validated++;
      if( known ? rv != 0 || same( v, old, 1) : rv != -1 || !same( v, old, 3)) vh_fail( "rock-refusal", "moon %d: answered %d", id, rv);
      }
}
/* the published theories: places recorded from the code when everything else here had been found right */
static const double ref_jd[] = {
#define DATES
#include "c28_ref.h"
#undef DATES
};
static const double ref_place[] = {
#define PLACES
#include "c28_ref.h"
};
static void theory( )
{
   const int nd = (int)( sizeof( ref_jd) / sizeof( double));
   for( int i = 0; i < NM; i++) for( int j = 0; j < nd; j++)
      {
      const double *r = ref_place + 3 * (i * nd + j); double p[3], d[3]; place( moons[i], ref_jd[j], p); for( int x = 0; x < 3; x++) d[x] = p[x] - r[x];
      const double e = sqrt( dot( d, d) / dot( r, r)); vh.states++; vh.validated++;
      if( !(e < 2e-7)) vh_fail( "theory", "%s at JD %.4f: %.2e of its distance from where its published theory has it", moons[i].name, ref_jd[j], e);
      }
}
/* places don't depend on what was asked before: every ordered pair of moons */
static void order( double jd)
{
   static std::vector<V> first; if( first.empty( )) for( auto &m : moons) { V p( 3); place( m, jd, p.data( )); first.push_back( p); }
   for( int i = 0; i < NM; i++) for( int j = 0; j < NM; j++)
      {
      double p[3], q[3]; place( moons[i], jd + 1000. * j, q); place( moons[j], jd, p); vh.states++; vh.validated++;
      if( !same( p, first[j].data( ), 3)) vh_fail( "history", "%s is elsewhere after %s was asked for", moons[j].name, moons[i].name);
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv); show = getenv( "C28_SHOW");
   if( getenv( "C28_RECORD"))
      {
      std::vector<double> jds; for( int j = 0; j < 30; j++) jds.push_back( 2415020.5 + 2463.7183 * j); jds.push_back( 2086302.5); jds.push_back( 2816787.5);
      printf( "#ifdef DATES\n"); for( double j : jds) printf( "%.4f,\n", j); printf( "#endif\n#ifdef PLACES\n");
      for( auto &m : moons) { printf( "/* %s */\n", m.name); for( double j : jds) { double p[3]; place( m, j, p); printf( "%.9g,%.9g,%.9g,\n", p[0], p[1], p[2]); } }
      printf( "#endif\n"); fflush( stdout); return 0;
      }
   uint64_t idx = 0;
   for( auto &m : moons) for( double jd = 2415020.5; jd < 2488070.; jd += (vh.thorough ? (m.src == ROCK || m.src == GUST ? 3.137 : .6137) : m.src == ROCK || m.src == GUST ? 31.37 : 6.137)) if( vh_mine( idx++)) motion( m, jd + m.period * .37);
   for( double jd = 2415020.5; jd < 2488070.; jd += (vh.thorough ? 50. : 500.)) if( vh_mine( idx++)) asked( jd);
   for( auto &m : moons) if( m.src == GUST) for( double jd = 2415020.5; jd < 2488070.; jd += (vh.thorough ? 3.7 : 37.1)) if( vh_mine( idx++)) velocity( m, jd);
   const std::string cosp = std::string( getenv( "LUNAR_REPO") ? getenv( "LUNAR_REPO") : "/repo") + "/cospar.txt";
   if( load_cospar_file( cosp.c_str( ))) vh_fail( "cospar", "cospar.txt could not be loaded");
   for( auto &m : moons) if( m.cospar) for( double jd = 2433282.5; jd < 2469807.5; jd += (vh.thorough ? 7.31 : 73.1)) if( vh_mine( idx++)) facing( m, jd + m.period * .37);
   if( vh_mine( idx++)) order( 2451545.);
   if( vh_mine( idx++)) theory( );
   double inner[3] = { 0, 0, 0 };
   for( auto &m : moons) { const bool in = (m.src == GUST && (m.idx == 4 || m.idx < 2)); if( vh_mine( in ? 0 : idx++)) { const double t = third( m); if( in) inner[m.idx == 4 ? 2 : m.idx] = t; } }
   for( int k = 0; k < 3; k++) if( !(fabs( inner[k] - inner[(k + 1) % 3]) < 4e-6)) vh_fail( "masses", "the mass of Uranus with Miranda, Ariel and Umbriel, by their periods and distances, differs by %.2e", inner[k] - inner[(k + 1) % 3]);
   if( show) for( int i = 0; i < NM; i++) printf( "%-10s %.2e %.2e %.2e vel %.2e lock %.2f\n", moons[i].name, worst[i].rad, worst[i].tan, worst[i].z, worst[i].vel, worst[i].lock);
   for( auto &m : moons)
      {
      const int win = (int)( m.sys == 1 && m.idx == 8 ? 3 : m.period > 50. ? 10 : 40), seg = (int)( fmin( 30. * 365.25 / m.period, m.src == ROCK ? 3000. : 9000.));
      if( seg < 4 * win) continue;
      for( int k = 0; k < (vh.thorough ? 6 : 1); k++) if( vh_mine( idx++)) slow( m, 2444239.5 + (k - 3) * seg * m.period * (vh.thorough ? 1 : 0), seg, win);
      }
   return vh_done( );
}
