/* Forced into a program by -include: every call that can change a file is a point where the program may be killed.
   CRASH_AT=k kills it just before the k-th such call (k from 0); CRASH_FLUSH=1 first writes out what is buffered.
   */
#ifndef CRASHPT_H
#define CRASHPT_H
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
static inline void crash_point( void)
{
   static long n = 0, at = -2; if( at == -2) { const char *e = getenv( "CRASH_AT"); at = e ? atol( e) : -1; }
   if( n++ == at) { if( getenv( "CRASH_FLUSH")) fflush( NULL); kill( getpid( ), SIGKILL); }
}
#define fopen( a, b) (crash_point( ), fopen( a, b))
#define fclose( a) (crash_point( ), fclose( a))
#define fflush( a) (crash_point( ), fflush( a))
#define fputs( a, b) (crash_point( ), fputs( a, b))
#define fwrite( a, b, c, d) (crash_point( ), fwrite( a, b, c, d))
#define fprintf( ...) (crash_point( ), fprintf( __VA_ARGS__))
#define unlink( a) (crash_point( ), unlink( a))
#define remove( a) (crash_point( ), remove( a))
#define rename( a, b) (crash_point( ), rename( a, b))
#endif
