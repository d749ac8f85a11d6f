/* Stand-in for the 'jpl_eph' library's header (that library and its
   multi-megabyte ephemerides are not available here) : the few functions
   'integrat' uses, answered by the made-up solar system of stub_planets.h. */
#ifndef JPLEPH_STUB_H
#define JPLEPH_STUB_H
#define JPL_EPHEM_EARTH_MOON_RATIO 0x10001
void *jpl_init_ephemeris( const char *ephemeris_filename, char nam[][6], double *val);
void jpl_close_ephemeris( void *ephem);
double jpl_get_double( const void *ephem, const int value);
int jpl_state( void *ephem, const double et, const int list[14], double pv[][6], double nut[4], const int bary);
#endif
