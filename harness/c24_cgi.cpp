/* C24: form data from a web server, url-encoded and multipart. */
#include "vh.h"
#include "cgi_func.h"
static std::string fmt( const char *f, ...) { char b[600]; va_list ap; va_start( ap, f); vsnprintf( b, sizeof( b), f, ap); va_end( ap); return b; }
struct Buf
{
   char *p; size_t n;
   Buf( size_t k) : n( k) { p = (char *)malloc( k ? k : 1); memset( p, 'x', k ? k : 1); }
   ~Buf( ) { free( p); }
   bool ended( ) const { return memchr( p, 0, n) != NULL; }
};
/* ---- reference reader of url-encoded text ---- */
static int hexv( int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
enum { R_END, R_SEP, R_FULL, R_BAD };
static int piece( const std::string &s, size_t &pos, size_t max, char sep, std::string &out)
{
   out.clear( );
   for( size_t p = pos; ; )
      {
      const int c = p < s.size( ) ? (unsigned char)s[p] : 0;
      if( c <= 13) { pos = p; return R_END; }
      if( c == sep) { pos = p + 1; return R_SEP; }
      if( out.size( ) + 1 >= max) { pos = p; return R_FULL; }
      if( c == '%')
         {
         const int a = p + 1 < s.size( ) ? hexv( (unsigned char)s[p + 1]) : -1, b = a >= 0 && p + 2 < s.size( ) ? hexv( (unsigned char)s[p + 2]) : -1;
         if( b < 0) return R_BAD;
         out += (char)(a * 16 + b); p += 3;
         }
      else { out += c == '+' ? ' ' : (char)c; p++; }
      }
}
static bool same( const Buf &b, const std::string &w) { return b.ended( ) && !memcmp( b.p, w.c_str( ), std::min( w.size( ) + 1, b.n)); }
static void url_case( const std::string &s, size_t mf, size_t md)
{
   char *copy = (char *)malloc( s.size( ) + 1); memcpy( copy, s.c_str( ), s.size( ) + 1);
   const char *ptr = copy; size_t pos = 0;
   vh_ats( "url", s.c_str( )); vh_i( (long)mf); vh_i( (long)md); vh.states++;
   bool ok = true;
   for( int k = 0; k < 12; k++)
      {
      Buf f( mf), d( md); std::string wf, wd;
      vh.transitions++;
      const int rc = get_urlencoded_form_data( &ptr, f.p, mf, d.p, md);
      const int a = piece( s, pos, mf, '=', wf);
      if( ptr < copy || ptr > copy + s.size( )) { vh_fail( "url-pointer", "the pointer leaves the text"); ok = false; break; }
      if( !f.ended( )) { vh_fail( "url-unterminated", "the field name isn't terminated"); ok = false; }
      if( a != R_SEP) { if( rc != -1) { vh_fail( "url-field", "pair %d: returns %d", k, rc); ok = false; } break; }
      const int b = piece( s, pos, md, '&', wd);
      if( !d.ended( )) { vh_fail( "url-unterminated", "the value isn't terminated"); ok = false; }
      if( !same( f, wf)) { vh_fail( "url-name", "pair %d: field '%.20s', should be '%s'", k, f.p, wf.c_str( )); ok = false; break; }
      if( b == R_BAD) { if( !rc) { vh_fail( "url-bad-escape", "pair %d: a malformed escape is accepted", k); ok = false; } break; }
      if( !same( d, wd)) { vh_fail( "url-value", "pair %d: value '%.30s', should be '%s'", k, d.p, wd.c_str( )); ok = false; break; }
      if( (rc != 0) != (b == R_FULL) || rc < 0) { vh_fail( "url-overrun", "pair %d: returns %d", k, rc); ok = false; break; }
      if( (size_t)( ptr - copy) != pos) { vh_fail( "url-position", "pair %d: continues at %ld, should be %zu", k, (long)( ptr - copy), pos); ok = false; break; }
      vh_outcome( vh_hash( wf + "=" + wd));
      if( b == R_FULL) break;
      }
   if( ok) vh.validated++;
   free( copy);
}
static void url( )
{
   static const char *tok[] = { "a", "Z", "=", "&", "+", "%41", "%26", "%3d", "%e9", "%0A", "%", "%4", "%g1", "\xe9", "\n" };
   const int nt = 15, depth = vh.thorough ? 6 : 5;
   static const size_t sizes[][2] = { { 30, 60 }, { 3, 3 }, { 2, 4 }, { 1, 1 } };
   uint64_t total = 1, idx = 0;
   for( int d = 0; d <= depth; d++, total *= nt)
      for( uint64_t n = 0; n < total; n++)
         {
         if( !vh_mine( idx++)) continue;
         std::string s; uint64_t m = n; for( int i = 0; i < d; i++) { s += tok[m % nt]; m /= nt; }
         for( int k = 0; k < (d < 5 ? 4 : 1 + (int)(n & 1)); k++) url_case( s, sizes[d < 5 ? k : (k + n) & 3][0], sizes[d < 5 ? k : (k + n) & 3][1]);
         url_case( "q=1&" + s, 30, 60);
         }
   /* encode and decode every pair of bytes */
   for( int a = 1; a < 256; a++) for( int b = 1; b < 256; b++)
      {
      if( !vh_mine( idx++)) continue;
      const unsigned char raw[3] = { (unsigned char)a, (unsigned char)b, 0 };
      std::string e;
      for( int i = 0; i < 2; i++)
         {
         if( raw[i] == ' ' && (a & 1)) e += '+';
         else if( isalnum( raw[i]) && raw[i] < 128 && (b & 3)) e += (char)raw[i];
         else e += fmt( (a + b) & 4 ? "%%%02X" : "%%%02x", raw[i]);
         }
      const std::string s = "f=" + e + "&" + e + "=" + "x";
      char *copy = strdup( s.c_str( )); const char *p = copy; Buf f( 30), d( 30);
      vh_ats( "bytes", s.c_str( )); vh.states++; vh.transitions += 2;
      if( get_urlencoded_form_data( &p, f.p, 30, d.p, 30) || !same( f, "f") || !same( d, (const char *)raw)) vh_fail( "url-bytes", "value of bytes %d %d is changed", a, b);
      else if( get_urlencoded_form_data( &p, f.p, 30, d.p, 30) || !same( f, (const char *)raw) || !same( d, "x")) vh_fail( "url-bytes", "name of bytes %d %d is changed", a, b);
      else vh.validated++;
      free( copy);
      }
}
/* ---- multipart ---- */
struct Part { const char *name; const char *filename; bool type; const char *data; };
static const Part parts[] = {
   { "a", NULL, false, "" }, { "time", NULL, false, "2024 Jan 1" }, { "TextArea", NULL, false, "line 1\nline 2\n\nline 4" }, { "abcdefghijklmnopqrstuvwxyz012", NULL, false, "29 letters" },
   { "file", "obs.txt", true, "     K24A00A  C2024\n--not the boundary\n" }, { "file", "", true, "" }, { "u", "x y.z", true, "\n\nblank lines first" }, { "b", NULL, false, "name=\"x\" & = %41 \xe9" } };
static std::vector<size_t> starts;         /* of each part's data in the body */
static std::string body( const std::vector<int> &seq, const std::string &bound, const char *eol, std::vector<std::string> *datas, std::vector<size_t> *ends)
{
   std::string s = bound + eol;
   starts.clear( );
   for( int k : seq)
      {
      const Part &p = parts[k]; std::string d;
      s += fmt( "Content-Disposition: form-data; name=\"%s\"", p.name) + (p.filename ? fmt( "; filename=\"%s\"", p.filename) : "") + eol;
      if( p.type) s += std::string( "Content-Type: text/plain") + eol;
      s += eol;
      starts.push_back( s.size( ));
      for( const char *q = p.data; *q; q++) if( *q == '\n') d += eol; else d += *q;
      s += d + eol;
      ends->push_back( s.size( ) + bound.size( ));
      s += bound + eol;
      while( d.size( ) && (d.back( ) == '\n' || d.back( ) == '\r')) d.pop_back( );
      datas->push_back( d);
      }
   s.resize( s.size( ) - strlen( eol)); s += std::string( "--") + eol;
   return s;
}
static FILE *real_stdin;
static std::string held;
static void set_stdin( const std::string &s) { held = s; stdin = held.empty( ) ? fopen( "/dev/null", "rb") : fmemopen( (void *)held.data( ), held.size( ), "rb"); }
static void reset_stdin( ) { fclose( stdin); stdin = real_stdin; }
static void multi_case( const std::vector<int> &seq, int eolk, int bk, size_t max, size_t cut, bool want_filename)
{
   static const char *eols[] = { "\r\n", "\n" };
   static const char *bounds[] = { "------WebKitFormBoundary7MA4YWxkTrZu0gW", "--x", "-----------------------------9051914041544843365972754266" };
   std::vector<std::string> datas; std::vector<size_t> ends;
   std::string s = body( seq, bounds[bk], eols[eolk], &datas, &ends);
   const bool whole = cut >= s.size( );
   if( !whole) s.resize( cut);
   const std::string line1 = s.substr( 0, s.find( '\n') == std::string::npos ? s.size( ) : s.find( '\n') + 1);
   if( line1.size( ) < strlen( bounds[bk])) return;
   char *bnd = strdup( line1.c_str( ));
   set_stdin( s.substr( line1.size( )));
   bool ok = true;
   vh_at( "multipart", seq.size( ) > 0 ? seq[0] : -1, seq.size( ) > 1 ? seq[1] : -1, seq.size( ) > 2 ? seq[2] : -1, (long)cut); vh_i( eolk); vh_i( bk); vh_i( (long)max); vh.states++;
   for( size_t k = 0; k <= seq.size( ); k++)
      {
      Buf f( 30), d( max), fn( 300);
      memset( f.p, 0, 30);
      vh.transitions++;
      const int rc = get_multipart_form_data( bnd, f.p, d.p, want_filename ? fn.p : NULL, max);
      if( k == seq.size( )) { if( rc != -1) { vh_fail( "multi-end", "returns %d after the last part", rc); ok = false; } break; }
      const Part &p = parts[seq[k]];
      const bool complete = s.size( ) >= ends[k], fits = datas[k].size( ) + 80 < max;
      if( !complete)
         {
         if( rc != -1 && rc != -3 && (rc < 0 || !d.ended( ) || (rc && starts[k] + rc > s.size( )) || (rc && s.compare( starts[k], rc, d.p, rc)))) { vh_fail( "multi-cut", "part %zu, cut: returns %d '%.40s'", k, rc, d.p); ok = false; }
         break;
         }
      if( (rc == -3 || rc == -1) && !fits) break;
      if( rc == -1) { vh_fail( "multi-lost", "part %zu is lost", k); ok = false; break; }
      if( rc != (int)datas[k].size( ) || !same( d, datas[k])) { vh_fail( fits ? "multi-value" : "multi-truncated", "part %zu, space for %zu: returns %d '%.60s', should be %zu '%.60s'", k, max, rc, d.p, datas[k].size( ), datas[k].c_str( )); ok = false; break; }
      if( !same( f, p.name) || (want_filename && !same( fn, p.filename ? p.filename : ""))) { vh_fail( "multi-name", "part %zu: name '%s' file name '%s'", k, f.p, want_filename ? fn.p : ""); ok = false; break; }
      vh_outcome( vh_hash( datas[k]) + k);
      }
   if( ok) vh.validated++;
   reset_stdin( ); free( bnd);
}
static void multipart( )
{
   uint64_t idx = 0;
   for( int a = -1; a < 8; a++) for( int b = -1; b < 8; b++) for( int c = -1; c < 8; c++)
      {
      if( (a < 0 && (b >= 0 || c >= 0)) || (b < 0 && c >= 0)) continue;
      std::vector<int> seq; for( int k : { a, b, c }) if( k >= 0) seq.push_back( k);
      for( int eol = 0; eol < 2; eol++) for( int bk = 0; bk < 3; bk++)
         {
         if( !vh_mine( idx++)) continue;
         for( size_t max = 100; max <= 300; max += 200) multi_case( seq, eol, bk, max, 1000000, max & 4);
         if( seq.size( ) <= (vh.thorough ? 3u : 2u)) for( size_t cut = 0; cut < 700; cut++) multi_case( seq, eol, bk, 400, cut, cut & 1);
         if( seq.size( ) == 1) for( size_t max = 2; max < 300; max++) multi_case( seq, eol, bk, max, 1000000, true);
         }
      }
   /* names of every length: fit or are refused */
   for( int n = 0; n < 90; n++) if( vh_mine( idx++))
      {
      const std::string nm( n, 'n');
      set_stdin( "Content-Disposition: form-data; name=\"" + nm + "\"\r\n\r\nv\r\n--x\r\n");
      Buf f( 30), d( 300), fn( 300); vh_at( "long name", n); vh.states++; vh.transitions++;
      const int rc = get_multipart_form_data( "--x", f.p, d.p, fn.p, 300);
      if( n < 30 ? rc != 1 || !same( f, nm) : rc >= 0) vh_fail( "multi-long-name", "a name of %d letters: returns %d", n, rc); else vh.validated++;
      reset_stdin( );
      }
}
/* ---- whole requests, one after another ---- */
static const int NR = 10;
static void request( int kind)
{
   unsetenv( "QUERY_STRING"); unsetenv( "CONTENT_TYPE"); unsetenv( "CONTENT_LENGTH");
   static const char *url = "a=1&b=two+words&c=%2b&d=";
   std::vector<std::string> datas; std::vector<size_t> ends;
   const std::vector<int> seq = { 1, 4, 0 };
   std::string mp = body( seq, "--bound", "\r\n", &datas, &ends), in;
   int want = 0, n_pairs = 0; bool multi = false;
   switch( kind)
      {
      case 0: setenv( "QUERY_STRING", url, 1); want = 1; n_pairs = 4; break;
      case 1: setenv( "QUERY_STRING", "", 1); setenv( "CONTENT_TYPE", "application/x-www-form-urlencoded", 1); in = url; want = 2; n_pairs = 4; break;
      case 2: setenv( "CONTENT_TYPE", "multipart/form-data; boundary=bound", 1); in = mp; want = 3; multi = true; n_pairs = 3; break;
      case 3: want = -1; break;
      case 4: setenv( "CONTENT_TYPE", "text", 1); want = -2; break;
      case 5: setenv( "CONTENT_TYPE", "application/x-www-form-urlencoded; charset=UTF-8", 1); in = std::string( url) + "\n"; want = 2; n_pairs = 4; break;
      case 6: setenv( "CONTENT_TYPE", "application/x-www-form-urlencoded", 1); in = ""; want = -3; break;
      case 7: setenv( "QUERY_STRING", "a", 1); want = 1; n_pairs = 0; break;
      case 8: setenv( "CONTENT_TYPE", "multipart/form-data", 1); want = -2; break;
      case 9: setenv( "CONTENT_TYPE", "", 1); want = -2; break;
      }
   if( kind != 0 && kind != 7) setenv( "CONTENT_LENGTH", fmt( "%zu", in.size( ) ? in.size( ) : 100).c_str( ), 1);
   set_stdin( in);
   vh.transitions++;
   const int rc = initialize_cgi_reading( );
   if( rc != want) { vh_fail( "request-kind", "request %d: returns %d, should be %d", kind, rc, want); reset_stdin( ); return; }
   if( rc < 0) { vh.validated++; reset_stdin( ); return; }
   static const char *un[] = { "a", "b", "c", "d" }, *uv[] = { "1", "two words", "+", "" };
   for( int k = 0; k <= n_pairs; k++)
      {
      Buf f( 30), d( 300), fn( 300); vh.transitions++;
      memset( f.p, 0, 30);
      const int r = get_cgi_data( f.p, d.p, (kind + k) & 1 ? fn.p : (kind == 2 ? fn.p : NULL), 300);
      if( k == n_pairs) { if( r != -1) vh_fail( "request-end", "request %d: returns %d after the last field", kind, r); }
      else if( r || !same( f, multi ? parts[seq[k]].name : un[k]) || !same( d, multi ? datas[k].c_str( ) : uv[k])) vh_fail( "request-value", "request %d, field %d: returns %d, '%s'='%s'", kind, k, r, f.p, d.p);
      else vh.validated++;
      }
   reset_stdin( );
}
static void requests( )
{
   const int depth = vh.thorough ? 4 : 3; uint64_t total = 1;
   for( int d = 0; d < depth; d++) total *= NR * 3;
   for( uint64_t n = 0; n < total; n++)
      {
      if( !vh_mine( n)) continue;
      vh_at( "requests"); vh_i( (long)n); vh.states++;
      uint64_t m = n;
      for( int d = 0; d < depth; d++, m /= NR * 3)
         {
         request( (int)(m % NR));
         for( int k = 0; k < (int)(m / NR % 3); k++) free_cgi_data( );       /* never, once or twice */
         }
      free_cgi_data( );
      }
}
int main( int argc, char **argv)
{
   vh_init( argc, argv);
   real_stdin = stdin;
   url( ); multipart( ); requests( );
   vh_sample( "'q=1&a%%26%%3d+=Z' read pair by pair");
   vh_done( );
   return 0;
}
