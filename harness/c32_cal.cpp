/* C32: the calendar programs.  easter_date( ) for every year of the 5.7 million
   year cycle, easter_date_julian( ) for many 532-year cycles, and the programs
   'easter', 'calendar' and 'jd' run as black boxes on enumerated command lines;
   everything printed is compared with an independent computation.            */
#include "vh.h"
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"

void easter_date( const long year, int *month, int *day);
void easter_date_julian( const long year, int *month, int *day);
typedef long long ll;
typedef std::string S;

static ll fdiv( ll a, ll b) { ll q = a / b; return ( a % b && ( a % b < 0) != ( b < 0)) ? q - 1 : q; }
static ll fmod_( ll a, ll b) { return a - fdiv( a, b) * b; }
static ll jdn( ll y, int m, int d, bool greg)
{
   const ll a = ( 14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   const ll base = d + ( 153 * mm + 2) / 5 + 365 * yy + fdiv( yy, 4);
   return greg ? base - fdiv( yy, 100) + fdiv( yy, 400) - 32045 : base - 32083;
}
static void civil( ll j, bool greg, ll &y, int &m, int &d)
{
   y = greg ? fdiv( ( j - 1721426) * 400, 146097) + 1 : fdiv( ( j - 1721424) * 4, 1461) + 1;
   while( jdn( y, 1, 1, greg) > j) y--;
   while( jdn( y + 1, 1, 1, greg) <= j) y++;
   m = 12; while( jdn( y, m, 1, greg) > j) m--;
   d = (int)( j - jdn( y, m, 1, greg)) + 1;
}
static const ll SWITCH = 2299161;                    /* 15 Oct 1582, Gregorian */
static void jg( ll j, ll &y, int &m, int &d) { civil( j, j >= SWITCH, y, m, d); }
/* JDN of the first of a month in the everyday (Julian, then Gregorian) calendar */
static ll first_of( ll y, int m) { return jdn( y, m, 1, y > 1582 || ( y == 1582 && m > 10)); }

/* The computus from its definition: golden number -> epact (with the solar and
   lunar equations of 1582) -> 14th day of the moon on or after 21 March -> Sunday. */
static void computus( ll year, int &mon, int &day)
{
   const int golden = (int)( year % 19) + 1;
   const ll cent = year / 100 + 1;
   const ll solar = 3 * cent / 4 - 12, lunar = ( 8 * cent + 5) / 25 - 5;
   int epact = (int)fmod_( 11LL * golden + 20 + lunar - solar, 30);
   if( epact == 24 || ( epact == 25 && golden > 11)) epact++;
   int n = 44 - epact; if( n < 21) n += 30;          /* full moon is 'March n' */
   ll j = jdn( year, 3, 1, true) + n - 1;
   do j++; while( fmod_( j + 1, 7) != 0);            /* next Sunday */
   const int k = (int)( j - jdn( year, 3, 1, true)) + 1;
   mon = k > 31 ? 4 : 3; day = k > 31 ? k - 31 : k;
}
static void computus_julian( ll year, int &mon, int &day)
{
   static const int pfm[19] = { 36, 25, 44, 33, 22, 41, 30, 49, 38, 27, 46, 35, 24, 43, 32, 21, 40, 29, 48 };   /* 5 Apr, 25 Mar, 13 Apr ... */
   ll j = jdn( year, 3, 1, false) + pfm[year % 19] - 1;
   do j++; while( fmod_( j + 1, 7) != 0);
   const int k = (int)( j - jdn( year, 3, 1, false)) + 1;
   mon = k > 31 ? 4 : 3; day = k > 31 ? k - 31 : k;
}

static S run( const S &cmd)
{
   S r; char b[4096];
   FILE *p = popen( ( "ulimit -t 20; " + cmd + " 2>/dev/null").c_str( ), "r");
   if( !p) return "popen failed";
   size_t n; while( ( n = fread( b, 1, sizeof( b), p)) > 0 && r.size( ) < 50000000) r.append( b, n);      /* a program gone wild isn't waited for */
   const int rc = pclose( p);
   if( WIFSIGNALED( rc) || ( WIFEXITED( rc) && WEXITSTATUS( rc) > 125 && WEXITSTATUS( rc) != 255 && WEXITSTATUS( rc) != 254)) r += "\n*died*\n";
   return r;
}
static std::vector<S> lines( const S &s)
{
   std::vector<S> r; size_t i = 0;
   while( i < s.size( )) { size_t k = s.find( '\n', i); if( k == S::npos) k = s.size( ); r.push_back( s.substr( i, k - i)); i = k + 1; }
   return r;
}
static const char *MON[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };

/* ---- phases of our own making, in the table the program reads ---- */
static const int K0 = -9000, K1 = 100000;           /* lunations in the table */
static int32_t phase_dt( int q)                       /* q: quarter number from K0 */
{
   const double k = K0 + q * .25;
   const double m = ( 2.5534 + 29.10535669 * k) * M_PI / 180., mp = ( 201.5643 + 385.81693528 * k) * M_PI / 180.;
   double t = 1.337e-4 * ( k / 1236.85) * ( k / 1236.85);
   t += ( q & 1) ? -.62801 * sin( mp) + .17172 * sin( m) : -.4072 * sin( mp) + .17241 * sin( m);
   return (int32_t)( t * 86400.);
}
static double phase_utc( int q)
{
   const double mean = 2451550.09765 + 29.530588853 * ( K0 + q * .25);
   return mean + ( (double)phase_dt( q) - td_minus_utc( mean)) / 86400.;
}
static void write_phases( const char *name)
{
   FILE *f = fopen( name, "wb"); const int32_t k = K0; fwrite( &k, 4, 1, f);
   for( int q = 0; q < ( K1 - K0) * 4; q++) { const int32_t d = phase_dt( q); fwrite( &d, 4, 1, f); }
   fclose( f);
}
/* which phases fall on JDN j (UTC) */
static std::vector<int> phases_on( ll j)
{
   std::vector<int> r;
   const int q = (int)floor( ( j - 2451550.) / 29.530588853 * 4.) - K0 * 4;
   for( int i = q - 4; i <= q + 4; i++) if( i >= 0 && i < ( K1 - K0) * 4 && (ll)floor( phase_utc( i) + .5) == j) r.push_back( i & 3);
   return r;
}

struct Txt { int x, y; S s; };
static std::vector<Txt> texts( const std::vector<S> &l, size_t from, size_t to)
{
   std::vector<Txt> r;
   for( size_t i = from; i < to; i++)
      { int x, y, n = 0; if( sscanf( l[i].c_str( ), "%d %d moveto %n", &x, &y, &n) == 2 && n && l[i].find( " show") != S::npos && l[i][n] == '(') r.push_back( Txt { x, y, l[i].substr( n) }); }
   return r;
}
static S shown( const char *s) { return S( "(") + s + ") show"; }

/* what one page must say, as a set of "x y text" lines with the grid position of each */
static void check_page( const std::vector<Txt> &t, ll year, int month, int jdmode, bool wrap, bool have_phases, int width, const S &opt)
{
   const int xs = ( width - 60) / 7;
   const ll d1 = first_of( year, month), d2 = month == 12 ? first_of( year + 1, 1) : first_of( year, month + 1);
   const int n = (int)( d2 - d1), w = (int)fmod_( d1 + 1, 7);                  /* weekday of the first: 0 = Sunday */
   auto label = [&]( int i) { ll y; int m, d; jg( d1 + i, y, m, d); return d; };   /* i = 0 based */
   std::vector<S> want, got;
   char b[200];
   bool used[35] = { };
   auto cell = [&]( int i, bool &shared, bool &under) { int c = i + w; shared = under = false; if( c >= 35) { if( wrap) return c - 35; under = true; return c - 7; } if( c >= 28 && i + 7 < n && !wrap) shared = true; return c; };
   for( int i = 0; i < n; i++)
      {
      bool shared, under; const int c = cell( i, shared, under), row = c / 7, col = c % 7; used[c] = true;
      if( under) continue;
      if( shared) snprintf( b, sizeof b, "D %d %d (%d/%d) show", col, row, label( i), label( i + 7)); else snprintf( b, sizeof b, "D %d %d (%d) show", col, row, label( i));
      want.push_back( b);
      }
   auto event = [&]( int i, const char *text) { bool shared, under; const int c = cell( i, shared, under); if( shared || under) snprintf( b, sizeof b, "E %d %d ((%d) ) show (%s) show", c % 7, c / 7, label( i), text); else snprintf( b, sizeof b, "E %d %d (%s) show", c % 7, c / 7, text); want.push_back( b); };
   static const char *pn[4] = { "New moon", "First quarter", "Full moon", "Last quarter" };
   for( int i = 0; i < n; i++)
      {
      if( have_phases) for( int p : phases_on( d1 + i)) event( i, pn[p]);
      int hd, hm; long hy; day_to_dmy( (long)( d1 + i), &hd, &hm, &hy, CALENDAR_HEBREW);
      if( hm == 1 && hd == 1) event( i, "Rosh Hashanah");
      if( hm == 1 && hd == 10) event( i, "Yom Kippur");
      }
   if( jdmode == 0) snprintf( b, sizeof b, "H (%s %lld) show", MON[month - 1], year);
   else if( jdmode == 1) snprintf( b, sizeof b, "H (%s %lld (JD %lld.5)) show", MON[month - 1], year, d1 - 2);
   else snprintf( b, sizeof b, "H (%s %lld (MJD %lld)) show", MON[month - 1], year, d1 - 2 - 2400000);
   want.push_back( b);
   static const char *wd[7] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
   for( int i = 0; i < 7; i++) { snprintf( b, sizeof b, "W %d (%s) show", i, wd[i]); want.push_back( b); }
   for( int c = 0, j = -2; c < 35; c++) if( !used[c])
      {
      ll y = year; int m = month + j; while( m < 1) { m += 12; y--; } while( m > 12) { m -= 12; y++; }
      const ll e1 = first_of( y, m), e2 = m == 12 ? first_of( y + 1, 1) : first_of( y, m + 1); const int ww = (int)fmod_( e1 + 1, 7);
      snprintf( b, sizeof b, "S %d (%s %lld) show", c, MON[m - 1], y); want.push_back( b);
      for( int r = 0; r < 6; r++)
         {
         S row( 20, ' '); bool any = false;
         for( int k = 0; k < 7; k++)
            {
            const int i = r * 7 + k - ww;
            if( i < 0 || i >= e2 - e1) continue;
            ll yy; int mm, dd; jg( e1 + i, yy, mm, dd); any = true; snprintf( b, 8, "%2d", dd); memcpy( &row[k * 3], b, 2);
            if( have_phases) for( int p : phases_on( e1 + i)) memcpy( &row[k * 3], &"NM1QFM3Q"[p * 2], 2);
            }
         while( !row.empty( ) && row.back( ) == ' ') row.pop_back( );
         if( any) { snprintf( b, sizeof b, "S %d r%d (%s) show", c, r, row.c_str( )); want.push_back( b); }
         }
      if( jdmode == 1) { snprintf( b, sizeof b, "S %d ((JD %lld.5)) show", c, e1 - 2); want.push_back( b); }
      if( jdmode == 2) { snprintf( b, sizeof b, "S %d ((MJD %lld)) show", c, e1 - 2 - 2400000); want.push_back( b); }
      if( ++j == 0) j = 1;
      }
   for( auto &k : t)
      {
      const int top = 20 + 5 * 104;
      if( k.y >= top + 20) { got.push_back( "H " + k.s); continue; }
      if( k.y >= top) { int c = ( k.x - 20) / xs; snprintf( b, sizeof b, "W %d %s", c, k.s.c_str( )); got.push_back( b); continue; }
      const int col = ( k.x - 20) / xs, row = ( top - k.y) / 104, dx = k.x - 20 - col * xs, dy = top - row * 104 - k.y;
      if( row < 0 || row > 4 || col < 0 || col > 6) { got.push_back( "off the page: " + k.s); continue; }
      const bool num = k.s.size( ) > 2 && isdigit( (unsigned char)k.s[1]) && k.s.find_first_not_of( "0123456789/()", 0) == k.s.find( ' ');
      if( dx == 3 && dy == 15 && num) snprintf( b, sizeof b, "D %d %d %s", col, row, k.s.c_str( ));
      else if( used[row * 7 + col]) snprintf( b, sizeof b, "E %d %d %s", col, row, k.s.c_str( ));
      else if( dx == 1 && dy % 12 == 0 && dy >= 24 && k.s.find( "JD ") == S::npos) snprintf( b, sizeof b, "S %d r%d %s", row * 7 + col, dy / 12 - 2, k.s.c_str( ));
      else snprintf( b, sizeof b, "S %d %s", row * 7 + col, k.s.c_str( ));
      got.push_back( b);
      }
   std::sort( want.begin( ), want.end( )); std::sort( got.begin( ), got.end( ));
   if( want != got)
      {
      S miss = "-", extra = "-";
      std::vector<S> d;
      std::set_difference( want.begin( ), want.end( ), got.begin( ), got.end( ), std::back_inserter( d)); if( d.size( )) miss = d[0];
      d.clear( ); std::set_difference( got.begin( ), got.end( ), want.begin( ), want.end( ), std::back_inserter( d)); if( d.size( )) extra = d[0];
      vh_fail( "calendar", "calendar %lld %d %s: lacks \"%s\", has \"%s\"", year, month, opt.c_str( ), miss.c_str( ), extra.c_str( ));
      }
   else vh.validated++;
   vh.transitions += want.size( );
   vh_outcome( (uint64_t)w * 64 + n + jdmode * 1024 + wrap * 4096 + have_phases * 8192);
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   const char *pe = getenv( "PROG_EASTER"), *pc = getenv( "PROG_CALENDAR"), *pj = getenv( "PROG_JD"), *pja = getenv( "PROG_JDASAN");
   if( !pe || !pc || !pj || !pja) { fprintf( stderr, "programs missing\n"); return 3; }
   uint64_t n = 0;
   /* (1) Easter, every year of the cycle */
   std::map<int, uint64_t> freq;
   for( ll y = 0; y < 5700000; y++)
      {
      if( !vh_mine( (uint64_t)y / 1000)) continue;
      int m, d, m2, d2; vh_at( "easter", (long)y, 0); vh.states++; vh.transitions++;
      easter_date( (long)y, &m, &d); computus( y, m2, d2);
      if( m != m2 || d != d2) vh_fail( "easter", "Easter of %lld: %d/%d, should be %d/%d", y, m, d, m2, d2); else vh.validated++;
      }
   for( ll y = 0; y < ( vh.thorough ? 532000 : 53200); y++)
      {
      if( !vh_mine( n++ / 100)) continue;
      int m, d, m2, d2; vh_at( "easter-julian", (long)y, 0); vh.states++; vh.transitions++;
      easter_date_julian( (long)y, &m, &d); computus_julian( y, m2, d2);
      if( m != m2 || d != d2) vh_fail( "easter-julian", "Julian Easter of %lld: %d/%d, should be %d/%d", y, m, d, m2, d2); else vh.validated++;
      }
   vh_outcome( 5700000u);
   /* (2) the easter program: tables of 75 years, days, frequencies */
   for( ll y0 = 100; y0 < 10000; y0 += vh.thorough ? 75 : 300)
      {
      if( !vh_mine( n++)) continue;
      char b[400], cmd[600]; vh_at( "easter-table", (long)y0, 0); vh.states++;
      snprintf( cmd, sizeof cmd, "%s %lld", pe, y0);
      const std::vector<S> l = lines( run( cmd));
      std::map<ll, S> tab;
      for( auto &s : l) for( const char *p = s.c_str( ); *p; ) { ll y; char mo[8]; int d, k; if( sscanf( p, "%lld %3s %d%n", &y, mo, &d, &k) != 3) break; snprintf( b, sizeof b, "%s %d", mo, d); tab[y] = b; p += k; }
      bool ok = tab.size( ) == 75;
      for( ll y = y0; y < y0 + 75; y++) { int m, d; if( y >= 1583) computus( y, m, d); else computus_julian( y, m, d); snprintf( b, sizeof b, "%s %d", m == 3 ? "Mar" : "Apr", d); vh.transitions++; if( tab[y] != b) { ok = false; vh_fail( "easter-table", "'easter %lld': %lld is '%s', should be %s", y0, y, tab[y].c_str( ), b); } }
      if( !ok) vh_fail( "easter-table", "'easter %lld' lists %zu years", y0, tab.size( )); else vh.validated++;
      }
   for( int m = 3; m <= 4; m++) for( int d = 1; d <= 31; d++)
      {
      if( !vh_mine( n++)) continue;
      char cmd[600]; snprintf( cmd, sizeof cmd, "%s %d %d", pe, m, d); vh_at( "easter-years", m, d); vh.states++;
      const S out = run( cmd); std::vector<ll> got, want;
      for( auto &s : lines( out)) { if( s.find( "found") != S::npos) break; for( const char *p = s.c_str( ); *p; ) { ll y; int k; if( sscanf( p, "%lld%n", &y, &k) != 1) break; got.push_back( y); p += k; } }
      for( ll y = 1583; y < 10000; y++) { int mm, dd; computus( y, mm, dd); if( mm == m && dd == d) want.push_back( y); vh.transitions++; }
      char tail[60]; snprintf( tail, sizeof tail, "\n%zu found over 8417 years\n", want.size( ));
      if( got != want || out.find( tail) == S::npos) vh_fail( "easter-years", "'easter %d %d' lists %zu years, should be %zu", m, d, got.size( ), want.size( )); else vh.validated++;
      }
   if( vh_mine( n++))
      {
      vh_at( "easter-freq", 0, 0); vh.states++;
      for( ll y = 0; y < 5700000; y++) { int m, d; computus( y, m, d); freq[( m - 3) * 31 + d]++; }
      const S out = run( pe); S flat; for( char c : out) flat += c == '\n' ? ' ' : c;
      for( auto &k : freq)
         {
         uint64_t a = k.second, b2 = 57000, g = std::__gcd( a, b2); char want[80];
         snprintf( want, sizeof want, "%s %2d: %7.5f = %u/%u ", k.first > 31 ? "Apr" : "Mar", k.first > 31 ? k.first - 31 : k.first, (double)a / 57000., (unsigned)( a / g), (unsigned)( b2 / g));
         if( flat.find( want) == S::npos) vh_fail( "easter-freq", "the frequency table lacks '%s'", want); else vh.validated++;
         }
      }
   /* (3) the calendar program */
   write_phases( "phases.dat");
   struct { const char *opt; int jd; bool wrap; int width; } opts[] = { { "", 0, false, 792 }, { "-w", 0, true, 792 }, { "-j -s", 1, false, 792 }, { "-m -l -w", 2, true, 1008 }, { "-s -j -w", 1, true, 792 } };
   std::vector<ll> years;
   for( ll y = vh.thorough ? 14 : 1500; y < ( vh.thorough ? 4000 : 2160); y++) years.push_back( y);
   for( ll y = 20; y < 9999; y += vh.thorough ? 7 : 101) years.push_back( y);
   for( ll y : years) for( int m = 1; m <= 12; m++) for( size_t o = 0; o < 5; o++)
      {
      const uint64_t idx = n++;
      if( !vh.thorough && o > 1 && ( y + m) % 5 != 0 && y != 1582) continue;
      if( vh.thorough && o > 1 && ( y + m) % 3 != 0) continue;
      if( !vh_mine( idx / 5)) continue;
      char cmd[600]; vh_at( "calendar", (long)y, m); vh.states++;
      if( ( y + m) & 1) snprintf( cmd, sizeof cmd, "%s %lld %d %s", pc, y, m, opts[o].opt); else snprintf( cmd, sizeof cmd, "%s %d %lld %s", pc, m, y, opts[o].opt);
      const std::vector<S> l = lines( run( cmd));
      check_page( texts( l, 0, l.size( )), y, m, opts[o].jd, opts[o].wrap, true, opts[o].width, opts[o].opt);
      const bool single = strstr( opts[o].opt, "-s") != NULL; int pages = 0; for( auto &s : l) pages += s.compare( 0, 7, "%%Page:") == 0;
      if( pages != ( single ? 1 : 7)) vh_fail( "calendar-pages", "%s: %d pages", cmd, pages);
      }
   /* the whole year on one page; with only a year, and with the -d option */
   unlink( "phases.dat");
   for( ll y : years)
      {
      if( !vh.thorough && y % 3) continue;
      for( int form = 0; form < 3; form++)
         {
         if( !vh_mine( n++)) continue;
         char cmd[600]; vh_at( "calendar-year", (long)y, form); vh.states++;
         snprintf( cmd, sizeof cmd, form == 0 ? "%s %lld" : form == 1 ? "%s %lld -d" : "%s %lld -w -d", pc, y);
         const std::vector<S> l = lines( run( cmd)); size_t at = 0; int seen = 0;
         for( int m = 1; m <= 12; m++)
            {
            char h[40]; snprintf( h, sizeof h, "/calendar_%d {", m);
            while( at < l.size( ) && l[at] != h) at++;
            if( at >= l.size( )) break;
            size_t e = at; while( e < l.size( ) && l[e].compare( 0, 7, "stroke ")) e++;
            check_page( texts( l, at, e), y, m, 0, form == 2, false, 792, form ? "-d" : "(year only)"); seen++;
            }
         if( seen != 12) vh_fail( "calendar-year", "%s: %d months", cmd, seen);
         }
      }
   /* (4) the jd program: one day in every calendar */
   for( ll j = vh.thorough ? -1500000 : -200000; j < 5000000; j += vh.thorough ? 13 : 173)
      {
      if( !vh_mine( n++)) continue;
      const int frac = (int)( ( j % 4 + 4) % 4); const double t = j - .5 + frac * .25;
      char cmd[600], b[300]; vh_at( "jd", (long)j, frac); vh.states++;
      snprintf( cmd, sizeof cmd, "%s JD %.2f", pj, t);
      const S out = run( cmd);
      auto want = [&]( const char *s) { vh.transitions++; if( ( "\n" + out).find( s) == S::npos) vh_fail( "jd", "'jd JD %.2f' lacks \"%s\"", t, s); else vh.validated++; };
      ll y; int m, d; jg( j, y, m, d);
      static const char *dow[7] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
      snprintf( b, sizeof b, "\n%s %lld %.3s %2d %2d:00:00.000000000000 = JD %.8f\n", dow[fmod_( j + 1, 7)], y, MON[m - 1], d, frac * 6, t);
      if( y >= 1000 && y <= 9999) want( b);
      ll jan1 = first_of( y, 1);
      if( y >= 1000 && y <= 9999) { snprintf( b, sizeof b, "\nDay of year = %03lld.%s", j - jan1 + 1, frac == 0 ? "000" : frac == 1 ? "250" : frac == 2 ? "500" : "750"); want( b); }
      civil( j, true, y, m, d); snprintf( b, sizeof b, "\n%-20s %4lld%3d %3d\n", "Gregorian", y, m, d); want( b);
      snprintf( b, sizeof b, "\n%-20s %4lld%3d %3d\n", "New greg", y, m, d); want( b);
      civil( j, false, y, m, d); snprintf( b, sizeof b, "\n%-20s %4lld%3d %3d\n", "Julian", y, m, d); want( b);
      static const struct { int c; const char *nm; } cals[] = { { CALENDAR_HEBREW, "Hebrew" }, { CALENDAR_ISLAMIC, "Islamic" }, { CALENDAR_REVOLUTIONARY, "Revolutionary" }, { CALENDAR_PERSIAN, "Persian (Jalali)" }, { CALENDAR_JULIAN_GREGORIAN, "Greg/Jul" }, { CALENDAR_CHINESE, "Chinese" }, { CALENDAR_MODERN_PERSIAN, "Modern Persian" } };
      for( auto &c : cals)
         {
         int dd, mm; long yy; day_to_dmy( (long)j, &dd, &mm, &yy, c.c); char inter = ' ';
         if( c.c == CALENDAR_CHINESE) { const int im = get_chinese_intercalary_month( ); if( im) { if( mm == im) inter = 'i'; if( mm >= im) mm--; } }
         snprintf( b, sizeof b, "\n%-20s %4ld%3d%c%3d\n", c.nm, yy, mm, inter, dd);
         if( c.c == CALENDAR_CHINESE && dd < 1) continue;
         if( c.c == CALENDAR_PERSIAN && dd < 1) continue;
         want( b);
         }
      snprintf( b, sizeof b, "\nDelta-T = TD - UT1 = %.7f; TD - UTC = %.7f; UT1 - UTC = DUT1 = %.7f\n", td_minus_ut( t), td_minus_utc( t), td_minus_utc( t) - td_minus_ut( t)); want( b);
      snprintf( b, sizeof b, "TAI-UTC = %.3f    GPS-UTC = %.3f\n", td_minus_utc( t) - 32.184, td_minus_utc( t) - 51.184); want( b);
      vh_outcome( (uint64_t)( j / 100000 + 50) + frac * 1000);
      }
   /* command lines of any length are answered or refused */
   for( int len = 1; len < 400; len++) for( int kind = 0; kind < 6; kind++)
      {
      if( !vh_mine( n++)) continue;
      vh_at( "jd-length", len, kind); vh.states++; vh.transitions++;
      S arg;
      for( int i = 0; i < len; i++) arg += kind == 0 ? "1" : kind == 1 ? " 2" : kind == 2 ? "x" : kind == 3 ? " +1d" : kind == 4 ? " 12:" : " 2020-6-1";
      const S out = run( S( "ASAN_OPTIONS=detect_leaks=0:exitcode=177 ") + pja + " " + arg);
      if( out.find( "*died*") != S::npos) vh_fail( "jd-length", "'jd' with %d times '%s' dies", len, kind == 0 ? "1" : kind == 1 ? " 2" : kind == 2 ? "x" : kind == 3 ? " +1d" : kind == 4 ? " 12:" : " 2020-6-1"); else vh.validated++;
      }
   vh_sample( "calendar 1582 10"); vh_sample( "easter 2038 -> Apr 25"); vh_sample( "jd JD 2451545.25");
   return vh_done( );
}
