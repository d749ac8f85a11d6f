/* Linked into 'add_off' : system( ) answers the query as the ephemeris server
   would, from made-up positions; the file it is told to write in /tmp lands in
   the current folder.  Each query, and each opening of an answer, is a
   scheduling point. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/types.h>
#include "../jplstub/sched.h"
#include "horizons.h"

static Sched *sch; static int slot;
static void leave( void)
{
   if( sch) { sch->s[slot].state = GONE; if( sch->controlled) sem_post( &sch->to_ctl); sch = NULL; }
}
__attribute__(( constructor)) static void setup( void)
{
   const char *f = getenv( "VH_SCHED"), *s = getenv( "VH_SLOT");
   if( !f || !s) return;
   slot = atoi( s);
   const int fd = open( f, O_RDWR);
   if( fd < 0) abort( );
   sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   close( fd);
   atexit( leave);
   if( sch->controlled) sem_wait( &sch->s[slot].go);
}
static void point( void)
{
   if( !sch) return;
   ++sch->s[slot].points;
   if( !sch->controlled) return;
   sch->s[slot].state = READY; sem_post( &sch->to_ctl); sem_wait( &sch->s[slot].go); sch->s[slot].state = RUNNING;
}
static void here( char *out, const char *name)
{
   if( !strncmp( name, "/tmp/", 5)) name += 5;
   if( strchr( name, '/') || strlen( name) > 100) abort( );
   strcpy( out, name);
}
extern "C" {
FILE *fopen( const char *name, const char *mode)
{
   static FILE *(*r)( const char *, const char *);
   if( !r) r = (FILE *(*)( const char *, const char *))dlsym( RTLD_NEXT, "fopen");
   if( strncmp( name, "/tmp/", 5)) return r( name, mode);
   char b[120]; here( b, name); point( );
   return r( b, mode);
}
int unlink( const char *name)
{
   static int (*r)( const char *);
   if( !r) r = (int (*)( const char *))dlsym( RTLD_NEXT, "unlink");
   char b[120]; here( b, name); point( );
   return r( b);
}
int remove( const char *name) { return unlink( name); }
int system( const char *cmd)
{
   const char *o = strstr( cmd, "-o "), *c = strstr( cmd, "COMMAND='"), *t = strstr( cmd, "TLIST="), *e = strstr( cmd, "&VEC_TABLE='2'&VEC_LABELS='N'\"");
   char name[120], b[130]; int id;
   if( getenv( "VH_QUERIES")) { static FILE *(*r)( const char *, const char *); r = (FILE *(*)( const char *, const char *))dlsym( RTLD_NEXT, "fopen"); FILE *q = r( getenv( "VH_QUERIES"), "ab"); fprintf( q, "%s\n", cmd); fclose( q); }
   if( memcmp( cmd, "curl ", 5) || !o || !c || !t || !e || strlen( cmd) > 8000 || e[strlen( "&VEC_TABLE='2'&VEC_LABELS='N'\"")] || !strstr( cmd, "&REF_PLANE='FRAME'&") || !strstr( cmd, "&TABLE_TYPE='V'&") || sscanf( o + 3, "%100s", name) != 1 || sscanf( c + 9, "%d'&", &id) != 1) abort( );
   point( );
   const int kind = hz_kind( id);
   if( kind == HZ_NO_SERVER) return 7 << 8;
   here( b, name);
   static FILE *(*r)( const char *, const char *); r = (FILE *(*)( const char *, const char *))dlsym( RTLD_NEXT, "fopen");
   FILE *f = r( b, "wb"); if( !f) abort( );
   fprintf( f, "*******\nEphemeris / API_USER\nTarget body name: %d\n", id);
   bool bad = false; int n = 0;
   for( const char *p = t + 6; p < e; n++) { double mjd; int len = 0; if( sscanf( p, "'%lf'%n", &mjd, &len) != 1 || !len) abort( ); if( !hz_covers( id, mjd)) bad = true; p += len; if( *p == ',') p++; else if( p != e) abort( ); }
   if( !n || n > 540) abort( );
   if( bad && kind != HZ_ROWS) fprintf( f, "No ephemeris for target \"%d\" after A.D. 2018\n", id);
   else
      {
      fprintf( f, "$$SOE\n");
      for( const char *p = t + 6; p < e; )
         {
         double mjd, st[6]; int len; sscanf( p, "'%lf'%n", &mjd, &len); char txt[40]; snprintf( txt, sizeof txt, "%.*s", len - 2, p + 1);
         if( hz_covers( id, mjd))
            { hz_state( id, txt, st); fprintf( f, "%.9f = A.D. 2019-Dec-26 10:06:30.0384 TDB \n %.15E %.15E %.15E\n %.15E %.15E %.15E\n", mjd + 2400000.5, st[0], st[1], st[2], st[3], st[4], st[5]); }
         p += len; if( *p == ',') p++;
         }
      fprintf( f, "$$EOE\n*******\n");
      }
   fclose( f);
   return 0;
}
}
