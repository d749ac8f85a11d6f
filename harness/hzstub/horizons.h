/* The made-up ephemeris server, shared by the stub and the harness. */
#ifndef HORIZONS_H
#define HORIZONS_H
#include <math.h>
#include <stdint.h>
enum { HZ_GOOD, HZ_ALL_OR_NONE, HZ_ROWS, HZ_NO_SERVER };
static inline int hz_kind( int id) { return id == -139089 ? HZ_ALL_OR_NONE : id == -128485 ? HZ_ROWS : id == -141043 ? HZ_NO_SERVER : HZ_GOOD; }
static inline bool hz_covers( int id, double mjd) { return hz_kind( id) == HZ_GOOD || (mjd > 57000. && mjd < 58500.); }
static inline void hz_state( int id, const char *mjd, double *st)
{
   static const double size[] = { .4, 31., 4321., 9999., 10001., 54321., 99998.5, 100001., 345678., 999998.9, 1000002., 7654321., 9999998.7, 10000001., 1.2e8, 1.4e9, 1.49e9, 1.62e9, 9.7e9 };
   uint64_t h = (uint64_t)( id + 20000000) * 0x9e3779b97f4a7c15ull; while( *mjd) { h ^= (unsigned char)*mjd++; h *= 0x100000001b3ull; h ^= h >> 29; }
   const int cls = (int)( (h >> 7) % 19);
   for( int i = 0; i < 6; i++)
      {
      h = h * 6364136223846793005ull + 1442695040888963407ull; const double u = (double)( h >> 11) / 9007199254740992.;
      st[i] = (h & 1024 ? 1. : -1.) * (i >= 3 ? 40. * u * u : i == (int)( h % 3) || i == cls % 3 ? size[cls] * (.999999 + .0000019 * u) : size[cls] * u);
      }
}
#endif
