/* Linked into 'astcheck' : whatever it does with .chk files (shared between
   instances) is a scheduling point and a place where it may be killed, and
   sleeping takes no time.  Without VH_SCHED in the environment everything but
   the sleep passes straight through. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/types.h>
#include "../jplstub/sched.h"

static Sched *sch; static int slot, n_sleeps;
static void leave( void)
{
   if( sch) { sch->s[slot].state = GONE; if( sch->controlled) sem_post( &sch->to_ctl); sch = NULL; }
}
__attribute__(( constructor)) static void setup( void)
{
   const char *f = getenv( "VH_SCHED"), *s = getenv( "VH_SLOT");
   if( !f || !s) return;
   slot = atoi( s);
   const int fd = open( f, O_RDWR);
   if( fd < 0) abort( );
   sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   close( fd);
   atexit( leave);
   if( sch->controlled) sem_wait( &sch->s[slot].go);
}
static void point( int kind = READY)
{
   if( !sch) return;
   ++sch->s[slot].points;
   if( sch->die_slot == slot && sch->s[slot].points == sch->die_point) { leave( ); raise( SIGKILL); }
   if( !sch->controlled) return;
   sch->s[slot].state = kind;
   sem_post( &sch->to_ctl);
   sem_wait( &sch->s[slot].go);
   sch->s[slot].state = RUNNING;
}
static FILE *chk[8];
static int is_chk( FILE *f) { for( int i = 0; i < 8; i++) if( chk[i] == f) return 1; return 0; }
template<class F> static F real( const char *name) { return (F)dlsym( RTLD_NEXT, name); }
extern "C" {
FILE *fopen( const char *name, const char *mode)
{
   static auto r = real<FILE *(*)( const char *, const char *)>( "fopen");
   const size_t n = strlen( name);
   if( n < 4 || strcmp( name + n - 4, ".chk")) return r( name, mode);
   point( );
   FILE *f = r( name, mode);
   if( f) for( int i = 0; i < 8; i++) if( !chk[i]) { chk[i] = f; break; }
   return f;
}
int fclose( FILE *f)
{
   static auto r = real<int (*)( FILE *)>( "fclose");
   if( f && is_chk( f)) { point( ); for( int i = 0; i < 8; i++) if( chk[i] == f) chk[i] = NULL; }
   return r( f);
}
int fflush( FILE *f)
{
   static auto r = real<int (*)( FILE *)>( "fflush");
   if( f && is_chk( f)) point( );
   return r( f);
}
size_t fread( void *p, size_t a, size_t b, FILE *f)
{
   static auto r = real<size_t (*)( void *, size_t, size_t, FILE *)>( "fread");
   if( is_chk( f)) point( );
   return r( p, a, b, f);
}
int usleep( useconds_t t)
{
   if( ++n_sleeps > 200) abort( );
   point( WAITING);
   return 0;
}
}
