/* C03: packing and unpacking of MPC designations are mutually inverse and
   follow the MPC scheme.  The reference packer below is written from
   https://www.minorplanetcenter.org/iau/info/PackedDes.html.            */
#include "vh.h"
#include "watdefs.h"
#include "mpc_func.h"

static const char *B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static uint64_t idx = 0;

static void chk( const char *name, const char *packed, int type, bool canonical = true, const char *unpacked = NULL)
{
   char p[64], u[64];
   vh_ats( "desig", name, packed);
   vh.states++;
   memset( p, '#', sizeof( p));
   const int rv = create_mpc_packed_desig( p, name);
   vh.transitions++;
   if( rv != 0 || memcmp( p, packed, 12) || p[12])
      vh_fail( "pack", "'%s' packs to '%.13s' (return %d); MPC scheme: '%s'", name, p, rv, packed);
   if( !canonical) return;
   memset( u, '#', sizeof( u)); u[63] = 0;
   const int t = unpack_mpc_desig( u, packed);
   vh.transitions++;
   if( t != type || strcmp( u, unpacked ? unpacked : name))
      vh_fail( "unpack", "'%s' unpacks to '%.40s' type %d; should be '%s' type %d", packed, u, t, name, type);
   else vh.validated++;
   if( (vh.states & 7) == 0)
      {
      const int t2 = unpack_mpc_desig( NULL, packed);
      if( t2 != t) vh_fail( "null-type", "'%s': type %d with no output buffer, %d with one", packed, t2, t);
      /* misaligned copy */
      const char *s = packed; while( *s == ' ') s++;
      const char *e = packed + 12; while( e > s && e[-1] == ' ') e--;
      if( !memchr( s, ' ', (size_t)( e - s)) && strlen( packed) == 12)
         {
         char m[40]; memset( m, ' ', 2); memcpy( m + 2, s, (size_t)( e - s)); m[2 + (e - s)] = 0;
         memset( u, '#', sizeof( u)); u[63] = 0;
         const int t3 = unpack_unaligned_mpc_desig( u, m);
         if( t3 != type || strcmp( u, unpacked ? unpacked : name))
            vh_fail( "unaligned", "misaligned '%s' unpacks to '%.40s' type %d; should be '%s' type %d", m, u, t3, name, type);
         }
      }
}
static int half_ok( char c) { return c != 'I' && c != 'Z'; }

static const char *roman( int n)
{
   static char b[40]; *b = 0;
   static const int v[] = { 1000, 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1 };
   static const char *s[] = { "M", "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I" };
   for( int i = 0; i < 13; i++) while( n >= v[i]) { strcat( b, s[i]); n -= v[i]; }
   return b;
}

static void prov( int year, char half, char second, int num)
{
   char name[30], packed[14];
   if( num) snprintf( name, sizeof( name), "%d %c%c%d", year, half, second, num);
   else snprintf( name, sizeof( name), "%d %c%c", year, half, second);
   snprintf( packed, sizeof( packed), "     %c%02d%c%c%d%c", B62[year / 100], year % 100, half, B62[num / 10], num % 10, second);
   chk( name, packed, OBJ_DESIG_ASTEROID_PROVISIONAL);
}
static void ext( int year, char half, int n, const char *pre)
{
   char name[40], packed[14], second = (char)( 'A' + n % 25);
   if( second >= 'I') second++;
   snprintf( name, sizeof( name), "%s%s%d %c%c%d", pre, *pre ? "/" : "", year, half, second, 620 + n / 25);
   snprintf( packed, sizeof( packed), "    %c_%c%c%c%c%c%c", *pre ? *pre : ' ', B62[year - 2000], half, B62[n / 238328], B62[n / 3844 % 62], B62[n / 62 % 62], B62[n % 62]);
   chk( name, packed, (*pre && *pre != 'A') ? OBJ_DESIG_COMET_PROVISIONAL : OBJ_DESIG_ASTEROID_PROVISIONAL);
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   char name[60], packed[40];
   /* (a) every numbered asteroid that the scheme can express */
   for( int n = 1; n < 620000 + 14776336; n++)
      if( vh_mine( (uint64_t)n))
         {
         snprintf( name, sizeof( name), "(%d)", n);
         if( n < 620000)
            snprintf( packed, sizeof( packed), "%c%04d       ", B62[n / 10000], n % 10000);
         else
            { const int k = n - 620000; snprintf( packed, sizeof( packed), "~%c%c%c%c       ", B62[k / 238328], B62[k / 3844 % 62], B62[k / 62 % 62], B62[k % 62]); }
         chk( name, packed, OBJ_DESIG_ASTEROID_NUMBERED);
         if( n == 433 || n == 620000 || n == 15396335) vh_sample( "%s <-> '%s'", name, packed);
         if( n >= 10000 && n < 1000000 && (n % 9) == 0)       /* bare numbers of five or six digits */
            { snprintf( name, sizeof( name), "%d", n); chk( name, packed, 1, false); }
         vh_outcome( (uint64_t)n);
         }
   if( vh.shard == 0)
      for( int n : { 15396336, 15396337, 16000000, 99999999 })       /* beyond the scheme: refused, kept as a literal */
         {
         char p[40];
         snprintf( name, sizeof( name), "(%d)", n);
         vh_ats( "too large", name);
         if( create_mpc_packed_desig( p, name) == 0) vh_fail( "too-large", "'%s' packs to '%s'", name, p);
         }
   /* (b) provisional asteroid designations */
   static const int few[] = { 0, 1, 9, 10, 11, 61, 99, 100, 101, 109, 110, 359, 360, 361, 599, 600, 610, 619 };
   for( int year = 1600; year <= 2099; year++)
      for( char h = 'A'; h <= 'Y'; h++) if( half_ok( h))
         {
         idx++;
         if( !vh_mine( idx)) continue;
         for( char s = 'A'; s <= 'Z'; s++) if( s != 'I')
            {
            const bool all = vh.thorough || year == 1801 || year == 1999 || year == 2000 || year == 2024;
            if( all) for( int n = 0; n < 620; n++) prov( year, h, s, n);
            else for( int n : few) prov( year, h, s, n);
            }
         }
   /* (c) extended provisional designations, all of 62^4 for a few half-months */
   static const int fewn[] = { 0, 1, 7, 8, 9, 24, 25, 61, 62, 63, 3843, 3844, 238327, 238328, 14776334, 14776335 };
   for( int year = 2000; year <= 2061; year++)
      for( char h = 'A'; h <= 'Y'; h++) if( half_ok( h))
         {
         idx++;
         if( vh_mine( idx))
            {
            for( int n : fewn) { ext( year, h, n, ""); ext( year, h, n, "C"); ext( year, h, n, "A"); }
            for( int n = 0; n < 14776336; n += 9973) ext( year, h, n, "");
            }
         }
   for( int n = 0; n < 14776336; n++)
      if( vh_mine( (uint64_t)n))
         { ext( 2026, 'C', n, ""); if( vh.thorough) { ext( 2061, 'Y', n, "P"); ext( 2000, 'A', n, "C"); } }
   /* (d) survey designations */
   for( int n = 1000; n <= 9999; n++)
      if( vh_mine( idx++))
         for( int s = 0; s < 4; s++)
            {
            static const char *sv[4] = { "P-L", "T-1", "T-2", "T-3" }, *sp[4] = { "PLS", "T1S", "T2S", "T3S" };
            snprintf( name, sizeof( name), "%d %s", n, sv[s]);
            snprintf( packed, sizeof( packed), "     %s%d", sp[s], n);
            chk( name, packed, OBJ_DESIG_ASTEROID_PROVISIONAL);
            }
   /* (e) numbered comets and their fragments */
   for( int n = 1; n <= 9999; n++)
      if( vh_mine( idx++))
         for( const char *t = "PDI"; *t; t++)
            {
            snprintf( name, sizeof( name), "%d%c", n, *t);
            snprintf( packed, sizeof( packed), "%04d%c       ", n, *t);
            chk( name, packed, OBJ_DESIG_COMET_NUMBERED);
            for( char f = 'A'; f <= 'Z'; f++)
               {
               snprintf( name, sizeof( name), "%d%c-%c", n, *t, f);
               snprintf( packed, sizeof( packed), "%04d%c      %c", n, *t, f + 32);
               chk( name, packed, OBJ_DESIG_COMET_NUMBERED);
               if( n < 200 || vh.thorough || n % 1000 == 73)
                  for( char g = 'A'; g <= 'Z'; g++)
                     {
                     snprintf( name, sizeof( name), "%d%c-%c%c", n, *t, f, g);
                     snprintf( packed, sizeof( packed), "%04d%c     %c%c", n, *t, f + 32, g + 32);
                     chk( name, packed, OBJ_DESIG_COMET_NUMBERED);
                     }
               }
            if( *t != 'I')                   /* P/41, P/41-B style */
               {
               snprintf( name, sizeof( name), "%c/%d-B", *t, n);
               snprintf( packed, sizeof( packed), "%04d%c      b", n, *t);
               if( n < 1000) chk( name, packed, 0, false);
               }
            }
   /* (f) provisional comets, with fragments, and asteroidal-style comet designations */
   for( int year = 1600; year <= 2099; year++)
      for( char h = 'A'; h <= 'Y'; h++) if( half_ok( h) && vh_mine( idx++))
         for( const char *t = "CPDXA"; *t; t++)
            {
            const int ty = (*t == 'A') ? OBJ_DESIG_ASTEROID_PROVISIONAL : OBJ_DESIG_COMET_PROVISIONAL;
            const bool all = vh.thorough || year == 1994 || year == 2019;
            for( int n = 1; n < 620; n += (all ? 1 : (n < 12 ? 1 : 11)))
               {
               snprintf( name, sizeof( name), "%c/%d %c%d", *t, year, h, n);
               snprintf( packed, sizeof( packed), "    %c%c%02d%c%c%d0", *t, B62[year / 100], year % 100, h, B62[n / 10], n % 10);
               chk( name, packed, ty);
               for( char f = 'A'; f <= 'Z'; f += (all || n < 4) ? 1 : 25)
                  {
                  snprintf( name, sizeof( name), "%c/%d %c%d-%c", *t, year, h, n, f);
                  packed[11] = (char)( f + 32);
                  chk( name, packed, ty);
                  }
               if( n < 200)
                  for( char s = 'A'; s <= 'Z'; s += all ? 1 : 5) if( s != 'I')
                     {
                     snprintf( name, sizeof( name), "%c/%d %c%c%d", *t, year, h, s, n);
                     packed[11] = s;
                     chk( name, packed, ty);
                     }
               }
            }
   /* (g) natural satellites */
   static const char *pl[8] = { "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto" };
   for( int p = 0; p < 8; p++)
      for( int n = 1; n < 1000; n++) if( vh_mine( idx++))
         {
         snprintf( packed, sizeof( packed), "%c%03dS       ", *pl[p], n);
         snprintf( name, sizeof( name), "%s %s", pl[p], roman( n));
         chk( name, packed, OBJ_DESIG_NATSAT_NUMBERED);
         snprintf( name, sizeof( name), "%s %d", pl[p], n);
         chk( name, packed, OBJ_DESIG_NATSAT_NUMBERED, false);
         }
   for( int year = 1901; year < 2100; year++)
      for( const char *p = "MVEJSUNP"; *p; p++)
         if( vh_mine( idx++))
            for( int n = 1; n < 620; n++)
               {
               snprintf( name, sizeof( name), "S/%d %c %d", year, *p, n);
               snprintf( packed, sizeof( packed), "    S%c%02d%c%c%d0", B62[year / 100], year % 100, *p, B62[n / 10], n % 10);
               chk( name, packed, OBJ_DESIG_NATSAT_PROVISIONAL);
               }
   /* earlier and later centuries are only ever read */
   for( int year = 1700; year < 3600; year++)
      if( (year < 1901 || year >= 2100) && vh_mine( idx++))
         for( const char *p = "MVEJSUNP"; *p; p++)
            for( int n = 1; n < 620; n += 7)
               {
               char u[64]; memset( u, '#', sizeof( u)); u[63] = 0;
               snprintf( name, sizeof( name), "S/%d %c %d", year, *p, n);
               snprintf( packed, sizeof( packed), "    S%c%02d%c%c%d0", B62[year / 100], year % 100, *p, B62[n / 10], n % 10);
               vh_ats( "read-only", packed); vh.states++; vh.transitions++;
               const int t = unpack_mpc_desig( u, packed);
               if( t != OBJ_DESIG_NATSAT_PROVISIONAL || strcmp( u, name)) vh_fail( "unpack", "'%s' unpacks to '%.40s' type %d; should be '%s'", packed, u, t, name);
               else vh.validated++;
               }
   /* twelve characters with nothing around them are aligned as they stand */
   if( !vh.shard)
      for( int n = 1; n < 10000; n += 13) for( const char *c = "IJK"; *c; c++) for( const char *x = "0aZ"; *x; x++)
         {
         char u[64], v[64]; memset( u, '#', sizeof( u)); memset( v, '#', sizeof( v)); u[63] = v[63] = 0;
         snprintf( packed, sizeof( packed), "%04dP%c%02dA%02d%c", n, *c, n % 100, n / 100, *x);
         packed[12] = 0;
         vh_ats( "twelve", packed); vh.states++; vh.transitions += 2;
         const int t = unpack_mpc_desig( u, packed), t2 = unpack_unaligned_mpc_desig( v, packed);
         if( t != t2 || strcmp( u, v)) vh_fail( "unaligned", "'%s' unpacks to '%.40s' type %d, as unaligned text to '%.40s' type %d", packed, u, t, v, t2);
         else vh.validated++;
         if( n == 1) vh_sample( "'%s' is '%s', type %d", packed, u, t);
         }
   /* (h) artificial satellites */
   for( int year = 1957; year < 2100; year++)
      for( int n = 0; n < 1000; n++) if( vh_mine( idx++))
         {
         const bool all = (n == 67 && (year == 1998 || vh.thorough));
         static const char *some[] = { "A", "B", "Z", "AA", "AZ", "ZZ", "AAA", "KHG", "ZZZ", NULL };
         for( int k = 0; all ? k < 26 + 676 + 17576 : some[k] != NULL; k++)
            {
            char l[5];
            if( !all) strcpy( l, some[k]);
            else if( k < 26) snprintf( l, sizeof( l), "%c", 'A' + k);
            else if( k < 702) snprintf( l, sizeof( l), "%c%c", 'A' + (k - 26) / 26, 'A' + (k - 26) % 26);
            else snprintf( l, sizeof( l), "%c%c%c", 'A' + (k - 702) / 676, 'A' + (k - 702) / 26 % 26, 'A' + (k - 702) % 26);
            snprintf( name, sizeof( name), "%d-%03d%s", year, n, l);
            snprintf( packed, sizeof( packed), "%-12s", name);
            chk( name, packed, OBJ_DESIG_ARTSAT);
            }
         }
   /* (h2) near misses: without three digits and a letter it is no artificial satellite, and is kept literally */
   {
   static const char al[] = "0A7-az"; long total = 1; for( int i = 0; i < 6; i++) total *= 6;
   for( long k = 0; k < total; k++) for( int len = 9; len <= 11; len++) if( vh_mine( idx++))
      {
      long v = k; strcpy( name, "1998-"); for( int i = 5; i < 11; i++, v /= 6) name[i] = al[v % 6];
      if( len < 11 && v) continue; name[len] = 0; if( isdigit( (unsigned char)name[5]) && isdigit( (unsigned char)name[6]) && isdigit( (unsigned char)name[7]) && isupper( (unsigned char)name[8])) continue;
      char p[64], want[20]; memset( p, '#', sizeof( p)); vh_ats( "near miss", name); const int rv = create_mpc_packed_desig( p, name); vh.states++; vh.transitions++; snprintf( want, sizeof want, "$%-11.11s", name);
      if( !rv || strnlen( p, 40) != 12 || strcmp( p, want)) vh_fail( "near-miss", "'%s' is packed as '%.20s' (%d)", name, p, rv); else vh.validated++;
      }
   }
   /* (h3) nothing was launched before 1957, and no other year than 1957 to 2099 makes an artificial satellite */
   for( int year = 1000; year < 3000; year++) if( year < 1957 || year > 2099) for( int n = 1; n < 1000; n += 37) if( vh_mine( idx++))
      {
      char u[64]; snprintf( packed, sizeof( packed), "%d-%03dA   ", year, n); memset( u, '#', sizeof( u)); u[63] = 0; vh_ats( "year", packed);
      const int t = unpack_mpc_desig( u, packed); vh.states++; vh.transitions++;
      if( t == OBJ_DESIG_ARTSAT) vh_fail( "launch-year", "'%s' is taken for an artificial satellite", packed); else vh.validated++;
      }
   /* (i) observer-assigned names: up to seven bytes stored literally in columns 6-12,
          longer ones as '$' and the first eleven bytes.  All strings over an alphabet
          that collides with every branch of the packer. */
   {
   static const char *al = "A2z0-_ P";
   const int na = 8, maxlen = vh.thorough ? 9 : 7;
   for( int len = 1; len <= maxlen; len++)
      {
      long total = 1; for( int i = 0; i < len; i++) total *= na;
      for( long k = 0; k < total; k++)
         if( vh_mine( idx++))
            {
            long v = k;
            for( int i = 0; i < len; i++, v /= na) name[i] = al[v % na];
            name[len] = 0;
            if( *name == ' ' || name[len - 1] == ' ') continue;
            char p[64], u[64];
            vh_ats( "literal", name);
            memset( p, '#', sizeof( p));
            const int rv = create_mpc_packed_desig( p, name);
            vh.states++; vh.transitions++;
            if( strnlen( p, 40) != 12) { vh_fail( "length", "'%s' packs to '%.20s', not twelve bytes", name, p); continue; }
            if( rv)
               {
               char want[20];
               if( len <= 7) snprintf( want, sizeof( want), "     %-7s", name);
               else snprintf( want, sizeof( want), "$%-11.11s", name);
               if( strcmp( p, want))
                  vh_fail( "literal", "unrecognised name '%s' is stored as '%s'; should be '%s'", name, p, want);
               memset( u, '#', sizeof( u)); u[63] = 0;
               const int t = unpack_mpc_desig( u, p);
               char *e = u + strlen( u); while( e > u && e[-1] == ' ') *--e = 0;
               if( t == OBJ_DESIG_OTHER && strcmp( u, name))
                  vh_fail( "literal", "name '%s' comes back from '%s' as '%.30s'", name, p, u);
               vh_outcome( vh_hash( p, 12));
               }
            else
               {
               memset( u, '#', sizeof( u)); u[63] = 0;
               unpack_mpc_desig( u, p);
               char p2[64];
               create_mpc_packed_desig( p2, u);
               if( strcmp( p, p2))
                  vh_fail( "repack", "'%s' packs to '%s', which unpacks to '%.30s', which packs to '%.12s'", name, p, u, p2);
               }
            vh.validated++;
            }
      }
   }
   /* (j) designations that the scheme cannot express are refused */
   for( int year = 1900; year < 2100; year += 1)
      for( int n = 1; n < 700; n += (n < 600 ? 7 : 1)) if( vh_mine( idx++))
         {
         char p[64], u[64];
         static const char *fmt[] = { "%d XA%d", "C/%d X%d", "C/%d XA%d-B", "C/%d X%d-B" };
         for( int k = 0; k < 4; k++)
            {
            snprintf( name, sizeof( name), fmt[k], year, n);
            vh_ats( "inexpressible", name);
            const int rv = create_mpc_packed_desig( p, name);
            vh.states++; vh.transitions++;
            if( !rv)
               {
               memset( u, '#', sizeof( u)); u[63] = 0;
               unpack_mpc_desig( u, p);
               if( strcmp( u, name))
                  vh_fail( "inexpressible", "'%s' is said to pack to '%.12s', which unpacks to '%.30s'", name, p, u);
               }
            }
         }
   /* (k) number and provisional designation together, as in "U4330K06SL7X" */
   for( int n = 1; n < 620000; n += (vh.thorough ? 1 : 7)) if( vh_mine( (uint64_t)n / 7))
      {
      const int year = 1800 + n % 300, num = n % 620;
      const char h = "ABCDEFGHJKLMNOPQRSTUVWXY"[n % 24], s = "ABCDEFGHJKLMNOPQRSTUVWXYZ"[n % 25];
      char u[64], np[20];
      if( num) snprintf( np, sizeof( np), "%d", num); else *np = 0;
      snprintf( packed, sizeof( packed), "%c%04d%c%02d%c%c%d%c", B62[n / 10000], n % 10000, B62[year / 100], year % 100, h, B62[num / 10], num % 10, s);
      snprintf( name, sizeof( name), "(%d) = %d %c%c%s", n, year, h, s, np);
      vh_ats( "both", packed, name);
      memset( u, '#', sizeof( u)); u[63] = 0;
      const int t = unpack_mpc_desig( u, packed);
      vh.states++; vh.transitions++;
      if( t != OBJ_DESIG_ASTEROID_NUMBERED || strcmp( u, name))
         vh_fail( "both", "'%s' unpacks to '%.40s' type %d; should be '%s'", packed, u, t, name);
      else vh.validated++;
      const int e = (int)( (n * 23L) % 14776336);
      char l2 = (char)( 'A' + e % 25); if( l2 >= 'I') l2++;
      snprintf( packed, sizeof( packed), "%c%04d_%c%c%c%c%c%c", B62[n / 10000], n % 10000, B62[n % 62], h, B62[e / 238328], B62[e / 3844 % 62], B62[e / 62 % 62], B62[e % 62]);
      snprintf( name, sizeof( name), "(%d) = %d %c%c%d", n, 2000 + n % 62, h, l2, 620 + e / 25);
      vh_ats( "both ext", packed, name);
      memset( u, '#', sizeof( u)); u[63] = 0;
      const int t2 = unpack_mpc_desig( u, packed);
      vh.states++; vh.transitions++;
      if( t2 != OBJ_DESIG_ASTEROID_NUMBERED || strcmp( u, name))
         vh_fail( "both", "'%s' unpacks to '%.40s' type %d; should be '%s'", packed, u, t2, name);
      else vh.validated++;
      }
   /* (l) overlong misaligned text is stored, terminated, as its first twelve bytes */
   if( vh.shard == 0)
      for( int len = 13; len < 30; len++)
         {
         char m[64], u[64];
         memset( m, 'x', 64); m[len] = 0; memset( u, '#', sizeof( u)); u[63] = 0;
         vh_ats( "overlong", m);
         const int t = unpack_unaligned_mpc_desig( u, m);
         vh.states++; vh.transitions++;
         if( t != OBJ_DESIG_OTHER || strcmp( u, "xxxxxxxxxxxx")) vh_fail( "overlong", "'%s' unpacks to '%.40s' type %d", m, u, t);
         }
   return vh_done( );
}
