/* C04: base-62 ("mutant hex") digits and numbers, and the one-byte catalogue codes. */
#include "vh.h"
#include "watdefs.h"
#include "mpc_func.h"

static const char *B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

static char variant( const std::string &base, const char *t, char want, const char *how)
{
   vh_ats( "catalogue", t, how);
   const char got = net_name_to_byte_code( t);
   vh.states++; vh.transitions++;
   if( got != want)
      vh_fail( "catalogue", "'%s' (%s of '%s') gets code '%c', should be '%c'", t, how, base.c_str( ), got, want);
   else vh.validated++;
   return got;
}

int main( int argc, char **argv)
{
   vh_init( argc, argv);
   if( vh.shard == 0)
      {
      for( int c = -128; c < 128; c++)             /* every char */
         {
         vh_at( "char", c);
         const char *p = c ? strchr( B62, c) : NULL;
         const int want = p ? (int)( p - B62) : -1, got = mutant_hex_char_to_int( (char)c);
         vh.states++; vh.transitions++;
         if( want != got) vh_fail( "digit", "character %d ('%c') has value %d, should be %d", c, c, got, want);
         else vh.validated++;
         }
      for( int v = -70000; v < 70000; v++)
         {
         vh_at( "int", v);
         const char want = (v >= 0 && v < 62) ? B62[v] : '\0', got = int_to_mutant_hex_char( v);
         vh.states++; vh.transitions++;
         if( want != got) vh_fail( "digit", "value %d gives character %d, should be %d", v, got, want);
         else vh.validated++;
         }
      }
   for( int nd = 1; nd <= 5; nd++)                 /* every number of up to five digits */
      {
      long lim = 1; for( int i = 0; i < nd; i++) lim *= 62;
      const long step = (nd == 5 && !vh.thorough) ? 97 : 1;
      for( long v = 0; v < lim; v += step)
         if( vh_mine( (uint64_t)( v / step)))
            {
            char b[16], ref[16]; long w = v;
            vh_at( "number", nd, v);
            memset( b, '#', sizeof( b));
            for( int i = nd - 1; i >= 0; i--, w /= 62) ref[i] = B62[w % 62];
            const int rv = encode_value_in_mutant_hex( b, (size_t)nd, (int)v);
            vh.states++; vh.transitions += 2;
            if( rv || memcmp( b, ref, nd) || b[nd] != '#')
               vh_fail( "encode", "%ld in %d digits: '%.6s' return %d, should be '%.*s'", v, nd, b, rv, nd, ref);
            const int back = get_mutant_hex_value( ref, (size_t)nd);
            if( back != (int)v)
               vh_fail( "decode", "'%.*s' has value %d, should be %ld", nd, ref, back, v);
            else vh.validated++;
            }
      /* too large for the field: non-zero return */
      if( nd < 5 && vh.shard == 1 % vh.nshards)
         for( long v = lim; v < lim * 4 && v < lim + 100000; v++)
            {
            char b[16];
            vh_at( "overflow", nd, v);
            vh.states++; vh.transitions++;
            if( !encode_value_in_mutant_hex( b, (size_t)nd, (int)v))
               vh_fail( "overflow", "%ld does not fit %d digits, but success is reported", v, nd);
            else vh.validated++;
            }
      /* an illegal character anywhere makes the number illegal */
      if( vh.shard == 2 % vh.nshards)
         for( int pos = 0; pos < nd; pos++)
            for( int c = -128; c < 128; c++)
               {
               char b[8]; memset( b, '7', 8); b[pos] = (char)c;
               vh_at( "illegal", nd, pos, c);
               const int v = get_mutant_hex_value( b, (size_t)nd);
               const bool legal = c && strchr( B62, c) != NULL;
               vh.states++; vh.transitions++;
               if( legal != (v >= 0)) vh_fail( "illegal", "char %d at %d of %d digits: value %d", c, pos, nd, v);
               else vh.validated++;
               }
      }
   /* catalogue codes: every byte */
   if( vh.shard == 3 % vh.nshards)
      {
      /* the table as published by the MPC (catalogue names as the program spells them are taken from the
         forward table; codes and a core of names below are independent of it) */
      static const char *core[] = { "aUSNO-A1", "bUSNO-SA1", "cUSNO-A2", "dUSNO-SA2", "eUCAC-1", "fTycho-1", "gTycho-2",
         "hGSC-1.0", "iGSC-1.1", "jGSC-1.2", "kGSC-2.2", "lACT", "mGSC-ACT", "nSDSS-DR8", "oUSNO-B1", "pPPM", "qUCAC-4",
         "rUCAC-2", "sUSNO-B2", "tPPMXL", "uUCAC-3", "vNOMAD", "wCMC-14", "xHIP-2", "yHIP-1", "zGSC-?", "AAC", "BSAO 1984",
         "CSAO", "DAGK 3", "EFK4", "FACRS", "GLick Gaspra Catalogue", "HIda93 Catalogue", "IPerth 70",
         "JCOSMOS/UKST Southern Sky Catalogue", "KYale", "L2MASS", "MGSC-2.3", "NSDSS-DR7", "OSST-RC1", "PMPOSC3", "QCMC-15",
         "RSST-RC4", "SURAT-1", "TURAT-2", "UGaia-DR1", "VGaia-DR2", "WGaia-DR3", "XGaia-EDR3", "YUCAC-5", "ZATLAS-2", NULL };
      for( int c = -128; c < 128; c++)
         {
         vh_at( "byte", c);
         const char *n = byte_code_to_net_name( (char)c), *want = NULL;
         for( int i = 0; core[i]; i++) if( core[i][0] == (char)c) want = core[i] + 1;
         vh.states++; vh.transitions++;
         if( (n == NULL) != (want == NULL) || (n && strcmp( n, want)))
            { vh_fail( "catalogue-table", "code '%c': name '%s', published '%s'", c, n ? n : "(none)", want ? want : "(none)"); continue; }
         if( !n) continue;
         vh_outcome( n);
         const std::string s = n;
         std::string t;
         variant( s, n, (char)c, "itself");
         t = s; for( char &x : t) x = (char)toupper( x); variant( s, t.c_str( ), (char)c, "upper case");
         if( s.find( "DR") == std::string::npos)
            { t = s; for( char &x : t) x = (char)tolower( x); variant( s, t.c_str( ), (char)c, "lower case"); }
         /* every subset of the '-' and ' ' separators dropped or exchanged */
         std::vector<size_t> sep;
         for( size_t i = 0; i < s.size( ); i++) if( s[i] == '-' || s[i] == ' ') sep.push_back( i);
         int n3 = 1; for( size_t i = 0; i < sep.size( ); i++) n3 *= 3;
         for( int m = 0; m < n3; m++)
            {
            t.clear( ); int mm = m; size_t k = 0;
            for( size_t i = 0; i < s.size( ); i++)
               if( k < sep.size( ) && sep[k] == i) { const int a = mm % 3; mm /= 3; k++; if( a == 1) t += ' '; else if( a == 2) t += '-'; }
               else t += s[i];
            variant( s, t.c_str( ), (char)c, "other separators");
            }
         /* a separator inserted at every place */
         for( size_t i = 0; i <= s.size( ); i++)
            if( !(i && s[i - 1] == 'D') && !(i && s[i - 1] == '.'))
               { t = s; t.insert( i, "-"); variant( s, t.c_str( ), (char)c, "separator inserted"); }
         t = s + ".0"; if( s.find( '.') == std::string::npos) variant( s, t.c_str( ), (char)c, "'.0' appended");
         /* '.0' after any letter or digit, alone and followed by each separator; runs of separators; every pair of places */
         for( size_t i = 1; i <= s.size( ); i++)
            if( s[i - 1] != '.' && !(s[i - 1] == 'D' && s[i] == 'R') && s.find( "1.0") == std::string::npos)
               for( const char *ins : { ".0", ".0 ", ".0-", " .0", "-.0 -" })
                  { t = s; t.insert( i, ins); variant( s, t.c_str( ), (char)c, "'.0' inserted"); }
         for( size_t i = 0; i <= s.size( ); i++)
            for( size_t j = i; j <= s.size( ); j++)
               if( !(i && s[i - 1] == 'D') && !(i && s[i - 1] == '.') && !(j && s[j - 1] == 'D') && !(j && s[j - 1] == '.'))
                  for( const char *ins : { " ", "-", "  ", "- " })
                     { t = s; t.insert( j, ins); t.insert( i, ins); variant( s, t.c_str( ), (char)c, "separators inserted"); }
         const size_t dr = s.find( "-DR"); if( dr != std::string::npos && s[0] == 'G')
            { t = s; t.erase( dr, 3); variant( s, t.c_str( ), (char)c, "without DR"); }
         /* a changed name never gets this code */
         for( size_t i = 0; i < s.size( ); i++)
            if( isalnum( (unsigned char)s[i]) && !(s[i] == '0' && i && s[i - 1] == '.'))
               { t = s; t[i] = '#'; vh_ats( "altered", t.c_str( )); vh.states++; vh.transitions++;
                 if( net_name_to_byte_code( t.c_str( )) != '?') vh_fail( "catalogue", "altered name '%s' gets code '%c'", t.c_str( ), net_name_to_byte_code( t.c_str( ))); else vh.validated++; }
         }
      variant( "Gaia-3E", "Gaia-3E", 'X', "synonym");
      for( const char *bad : { "", "Gai", "UCAC", "USNO", "Gaia-DR9", "nothing" }) variant( bad, bad, '?', "unknown name");
      vh_sample( "'V' <-> %s", byte_code_to_net_name( 'V'));
      }
   vh_sample( "shard %d of the base-62 numbers", vh.shard);
   return vh_done( );
}
