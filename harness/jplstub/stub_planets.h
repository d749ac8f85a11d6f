/* A made-up solar system : fixed Kepler ellipses for Mercury, Venus, the
   earth-moon barycentre, Mars ... Pluto, and a circular geocentric lunar orbit.
   Positions are in AU, heliocentric (the Moon's geocentric), J2000 ecliptic. */
#ifndef STUB_PLANETS_H
#define STUB_PLANETS_H
#include <math.h>
static const double stub_el[9][6] = {      /* a, e, i, node, peri, mean longitude at J2000 (degrees) */
   { .387098, .20563, 7.0050, 48.331, 77.456, 252.251 }, { .723330, .00677, 3.3947, 76.680, 131.564, 181.980 },
   { 1.000001, .01671, .0002, 0., 102.937, 100.466 }, { 1.523679, .09340, 1.8497, 49.558, 336.060, 355.433 },
   { 5.202603, .04849, 1.3033, 100.464, 14.331, 34.351 }, { 9.554910, .05551, 2.4889, 113.666, 93.057, 50.077 },
   { 19.218446, .04630, .7732, 74.006, 173.005, 314.055 }, { 30.110387, .00899, 1.7700, 131.784, 48.124, 304.349 },
   { 39.48, .2488, 17.14, 110.3, 224.07, 238.93 } };
static void stub_planet( int i, double jd, double *v)       /* 0..8; 9 = the Moon from the Earth's centre */
{
   const double d2r = acos( -1.) / 180.;
   if( i == 9)
      {
      const double l = d2r * (218.3 + 13.176396 * (jd - 2451545.)), b = d2r * 5.145 * sin( d2r * (93.27 + 13.229350 * (jd - 2451545.))), r = .00257;
      v[0] = r * cos( l) * cos( b); v[1] = r * sin( l) * cos( b); v[2] = r * sin( b); return;
      }
   const double *e = stub_el[i], n = .01720209895 / (e[0] * sqrt( e[0]));
   double M = d2r * (e[5] - e[4]) + n * (jd - 2451545.), E = M;
   for( int k = 0; k < 60; k++) { const double dE = (E - e[1] * sin( E) - M) / (1. - e[1] * cos( E)); E -= dE; if( fabs( dE) < 1e-15 * (1. + fabs( E))) break; }
   const double x = e[0] * (cos( E) - e[1]), y = e[0] * sqrt( 1. - e[1] * e[1]) * sin( E), w = d2r * (e[4] - e[3]), O = d2r * e[3], I = d2r * e[2];
   const double x1 = x * cos( w) - y * sin( w), y1 = x * sin( w) + y * cos( w);
   v[0] = x1 * cos( O) - y1 * cos( I) * sin( O); v[1] = x1 * sin( O) + y1 * cos( I) * cos( O); v[2] = y1 * sin( I);
}
#endif
