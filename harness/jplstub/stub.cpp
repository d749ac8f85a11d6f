/* Linked into 'integrat' : the stand-in ephemeris, and fork, wait, fopen,
   fputs and unlink as scheduling points and places where a process may be
   killed or a fork may fail.  Without VH_SCHED in the environment everything
   passes straight through. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "jpleph.h"
#include "stub_planets.h"
#include "sched.h"

static int open_ephems;
void *jpl_init_ephemeris( const char *name, char nam[][6], double *val)
{
   if( access( name, R_OK)) return NULL;
   open_ephems++;
   return malloc( 1);
}
void jpl_close_ephemeris( void *ephem) { open_ephems--; free( ephem); }
double jpl_get_double( const void *ephem, const int value) { if( value != JPL_EPHEM_EARTH_MOON_RATIO) abort( ); return 81.30056; }
int jpl_state( void *ephem, const double et, const int list[14], double pv[][6], double nut[4], const int bary)
{
   const double se = .397777155931913701597179975942380896684, ce = .917482062069181825744000384639406458043;
   if( bary || !ephem || open_ephems < 1) abort( );
   for( int i = 0; i < 10; i++) if( list[i])
      { double v[3]; stub_planet( i, et, v); pv[i][0] = v[0]; pv[i][1] = v[1] * ce - v[2] * se; pv[i][2] = v[1] * se + v[2] * ce; }
   return 0;
}

static Sched *sch; static int slot;
static void leave( void)
{
   if( sch) { sch->s[slot].state = GONE; if( sch->controlled) sem_post( &sch->to_ctl); sch = NULL; }
}
static void setup( void)
{
   static int done;
   if( done) return;
   done = 1;
   const char *f = getenv( "VH_SCHED");
   if( !f) return;
   const int fd = open( f, O_RDWR);
   if( fd < 0) abort( );
   sch = (Sched *)mmap( NULL, sizeof( Sched), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
   close( fd);
   atexit( leave);
   if( sch->controlled) sem_wait( &sch->s[0].go);
}
static void point( int kind = READY)
{
   setup( );
   if( !sch) return;
   if( sch->die_slot == slot && ++sch->s[slot].points == sch->die_point) { leave( ); raise( SIGKILL); }
   if( !sch->controlled) return;
   sch->s[slot].state = kind;
   sem_post( &sch->to_ctl);
   sem_wait( &sch->s[slot].go);
   sch->s[slot].state = RUNNING;
}
extern "C" {
FILE *fopen( const char *name, const char *mode)
{
   static FILE *(*real)( const char *, const char *);
   if( !real) real = (FILE *(*)( const char *, const char *))dlsym( RTLD_NEXT, "fopen");
   if( strchr( mode, 'w') || strchr( mode, 'a') || slot || strstr( name, ".ugh")) point( );
   return real( name, mode);
}
int fputs( const char *s, FILE *f)
{
   static int (*real)( const char *, FILE *);
   if( !real) real = (int (*)( const char *, FILE *))dlsym( RTLD_NEXT, "fputs");
   point( );
   return real( s, f);
}
int unlink( const char *s)
{
   static int (*real)( const char *);
   if( !real) real = (int (*)( const char *))dlsym( RTLD_NEXT, "unlink");
   point( );
   return real( s);
}
pid_t fork( void)
{
   static pid_t (*real)( void);
   if( !real) real = (pid_t (*)( void))dlsym( RTLD_NEXT, "fork");
   point( );
   if( !sch) return real( );
   if( ++sch->n_forks == sch->fork_fail) { errno = EAGAIN; return -1; }
   const int child = slot + 1;
   sch->s[slot].child = child; sch->s[child].state = READY;
   const pid_t p = real( );
   if( !p) { slot = child; if( sch->controlled) sem_wait( &sch->s[slot].go); sch->s[slot].state = RUNNING; }
   return p;
}
pid_t wait( int *status)
{
   static pid_t (*real)( int *);
   if( !real) real = (pid_t (*)( int *))dlsym( RTLD_NEXT, "wait");
   point( WAITING);
   return real( status);
}
pid_t waitpid( pid_t p, int *status, int opt)
{
   static pid_t (*real)( pid_t, int *, int);
   if( !real) real = (pid_t (*)( pid_t, int *, int))dlsym( RTLD_NEXT, "waitpid");
   point( WAITING);
   return real( p, status, opt);
}
}
