/* C20: variable-star designations. */
#include "vh.h"
#include "watdefs.h"
#include "afuncs.h"
static std::vector<std::string> names;          /* names[n-1] is that of the nth */
static void build( )
{
   const std::string L = "ABCDEFGHIKLMNOPQRSTUVWXYZ";        /* no J */
   for( char c = 'R'; c <= 'Z'; c++) names.push_back( std::string( 1, c));
   for( char a = 'R'; a <= 'Z'; a++) for( char b = a; b <= 'Z'; b++) names.push_back( std::string( 1, a) + b);
   for( char a : L) if( a < 'R') for( char b : L) if( b >= a) names.push_back( std::string( 1, a) + b);
   while( names.size( ) < 9999) names.push_back( "V" + std::to_string( names.size( ) + 1));
}
static int dec( const std::string &s)
{
   char *p = (char *)malloc( s.size( ) + 1); memcpy( p, s.c_str( ), s.size( ) + 1);
   vh_ats( "decipher_var_desig", s.c_str( )); vh.states++; vh.transitions++;
   const int k = decipher_var_desig( p);
   free( p);
   return k;
}
static const int NONE = -1;
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   build( );
   if( names[333] != "QZ" || names[9] != "RR" || names.size( ) != 9999) vh_fail( "model", "the reference list is wrong");
   std::map<std::string, int> idx;
   for( int n = 1; n <= 9999; n++)
      {
      idx[names[n - 1]] = n;
      if( !vh_mine( n)) continue;
      char *b = (char *)malloc( names[n - 1].size( ) + 1);
      vh_at( "make_var_desig", n); vh.states++; vh.transitions++;
      make_var_desig( b, n);
      if( names[n - 1] != b) vh_fail( "make", "variable %d is '%s', should be '%s'", n, b, names[n - 1].c_str( )); else vh.validated++;
      vh_outcome( b);
      free( b);
      static const char *tails[] = { "", " ", " Lyr", "  ", " 12" };
      for( const char *t : tails) for( int lower = 0; lower < 2; lower++)
         {
         std::string s = names[n - 1] + t;
         if( lower) { if( n == 4) continue; for( char &c : s) c = (char)tolower( c); }        /* 'u' is a letter of its own */
         const int k = dec( s);
         if( k != n) vh_fail( "decipher", "'%s' is variable %d, should be %d", s.c_str( ), k, n); else vh.validated++;
         }
      }
   /* the numbers V1... mean the same stars */
   for( int n = 1; n <= 9999; n++) if( vh_mine( n))
      { const std::string s = "V" + std::to_string( n); if( s.size( ) < 3) continue; if( dec( s) != n) vh_fail( "decipher-v", "'%s' is variable %d", s.c_str( ), dec( s)); else vh.validated++; }
   /* lettered stars have ranges of their own */
   for( char c = 'A'; c <= 'Q'; c++) { const int k = dec( std::string( 1, c)), l = dec( std::string( 1, (char)tolower( c)) + " Car"); if( k != 9201 + c - 'A' || l != 9101 + c - 'A') vh_fail( "letters", "'%c' %d %d", c, k, l); else vh.validated++; }
   if( dec( "u Her") != 9101 + 'u' - 'a') vh_fail( "letters", "'u' is %d", dec( "u Her"));
   /* everything else of up to three bytes is none */
   uint64_t m = 0;
   for( int len = 0; len <= 3; len++)
      {
      const int lo = len == 3 ? 32 : 1, hi = len == 3 ? 126 : 255;
      for( int a = len > 0 ? lo : 0; a <= (len > 0 ? hi : 0); a++) for( int b = len > 1 ? lo : 0; b <= (len > 1 ? hi : 0); b++) for( int c = len > 2 ? lo : 0; c <= (len > 2 ? hi : 0); c++)
         {
         if( !vh_mine( m++)) continue;
         std::string s; if( len > 0) s += (char)a; if( len > 1) s += (char)b; if( len > 2) s += (char)c;
         const std::string w = s.substr( 0, s.find( ' '));
         std::string u = w; for( char &x : u) x = (char)toupper( x);
         int want = NONE;
         if( w.size( ) == 1 && ((w[0] >= 'a' && w[0] <= 'q') || w[0] == 'u')) want = 9101 + w[0] - 'a';
         else if( w.size( ) == 1 && w[0] >= 'A' && w[0] <= 'Q') want = 9201 + w[0] - 'A';
         else if( idx.count( u)) want = idx[u];
         else if( u.size( ) == 3 && u[0] == 'V' && isdigit( (unsigned char)u[1]) && isdigit( (unsigned char)u[2])) want = atoi( u.c_str( ) + 1);
         else if( u.size( ) == 3 && u[0] == 'V') continue;            /* V and not a number: unspecified */
         const int k = dec( s);
         if( k != want) vh_fail( want == NONE ? "not-a-variable" : "decipher-text", "'%s' is variable %d, should be %d", s.c_str( ), k, want); else vh.validated++;
         }
      }
   vh_sample( "10 'RR', 54 'ZZ', 55 'AA', 334 'QZ', 335 'V335'");
   vh_done( );
   return 0;
}
