/* link-time interposition (-Wl,--wrap=...): environment answers, fault injection,
   annotations for the happens-before detector */
#define _GNU_SOURCE
#include "mcenv.h"
#include "mcomp.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>

/* ---- memory probe */
long long mcenv_membytes = -1 ;
long mcenv_probes = 0 ;
long __real_sysconf( int name ) ;
long __wrap_sysconf( int name )
{
  if( mcenv_membytes >= 0 ) {
    if( name == _SC_PAGESIZE ) return 1 ;
    if( name == _SC_PHYS_PAGES || name == _SC_AVPHYS_PAGES ) { mcenv_probes++ ; return (long)mcenv_membytes ; }
  }
  return __real_sysconf( name ) ;
}

/* ---- allocation faults */
long mcenv_allocs = 0 , mcenv_failat = -1 , mcenv_failed = 0 ; volatile int mcenv_counting = 0 ;
static unsigned long pc0 ; unsigned long *mcenv_failpc = &pc0 ; /* who asked for what was refused */
/* the call chain of every request, when wanted */
unsigned long *mcenv_chain ; long mcenv_chainmax ;
#include <execinfo.h>
static void chain( void )
{
  void *b[ 8 ] ; int n , i ; unsigned long h = 1469598103934665603UL ; const int c = mcenv_counting ; if( mcenv_allocs >= mcenv_chainmax ) return ;
  mcenv_counting = 0 ; n = backtrace( b , 8 ) ; mcenv_counting = c ;
  for( i = 0 ; i < n ; i++ ) h = ( h ^ (unsigned long)b[i] )*1099511628211UL ;
  mcenv_chain[ mcenv_allocs ] = h ;
}
static inline __attribute__((always_inline)) int inject( void )
{
  if( !mcenv_counting ) return 0 ;
  if( mcenv_chain ) chain( ) ;
  if( mcenv_allocs++ == mcenv_failat ) { mcenv_failed = 1 ; *mcenv_failpc = (unsigned long)__builtin_return_address( 0 ) ; errno = ENOMEM ; return 1 ; }
  return 0 ;
}
void mcomp_range( const void *a , size_t n , int w , unsigned long pc ) ;
void mcomp_forget( const void *a , size_t n ) ;
void *__real_malloc( size_t ) ; void __real_free( void * ) ; void *__real_calloc( size_t , size_t ) ;
void *__real_realloc( void * , size_t ) ; int __real_posix_memalign( void ** , size_t , size_t ) ;
/* freshly allocated memory is filled with a recognisable pattern so that reading
   it before writing shows up deterministically */
int mcenv_poison = 1 ;
/* what fresh memory holds: a huge number in any type and no valid address */
unsigned char mcenv_pattern = 0x7F ;
static void poison( void *p , size_t n ) { if( p && mcenv_poison ) memset( p , mcenv_pattern , n ) ; }
void *__wrap_malloc( size_t n ) { if( inject() ) return NULL ; void *p = __real_malloc( n ) ; poison( p , n ) ; mcomp_forget( p , n ) ; return p ; }
void *__wrap_calloc( size_t a , size_t b ) { if( inject() ) return NULL ; void *p = __real_calloc( a , b ) ; mcomp_forget( p , a*b ) ; return p ; }
void *__wrap_realloc( void *q , size_t n ) { if( inject() ) return NULL ; void *p = __real_realloc( q , n ) ; mcomp_forget( p , n ) ; return p ; }
int __wrap_posix_memalign( void **p , size_t a , size_t n ) { if( inject() ) return ENOMEM ; int r = __real_posix_memalign( p , a , n ) ; if( !r ) { poison( *p , n ) ; mcomp_forget( *p , n ) ; } return r ; }
void __wrap_free( void *p ) { __real_free( p ) ; }
#ifdef HAVE_FFTW3_H
void *__real_fftw_malloc( size_t n ) ;
void *__wrap_fftw_malloc( size_t n ) { if( inject() ) return NULL ; void *p = __real_fftw_malloc( n ) ; poison( p , n ) ; mcomp_forget( p , n ) ; return p ; }
#endif

/* ---- file creation faults */
long mcenv_fopens = 0 , mcenv_fopen_failat = -1 ;
FILE *__real_fopen( const char * , const char * ) ;
/* the process dies just before a given file-system event: buffers are lost */
long mcenv_events = 0 , mcenv_killat = -1 ;
static void event( void ) { if( mcenv_events++ == mcenv_killat ) { _exit( 137 ) ; } }
FILE *__wrap_fopen( const char *p , const char *m )
{
  if( mcenv_counting && m[0] == 'w' ) { if( mcenv_fopens++ == mcenv_fopen_failat ) { *mcenv_failpc = (unsigned long)__builtin_return_address( 0 ) ; errno = EACCES ; mcenv_failed = 1 ; return NULL ; } }
  if( m[0] == 'w' ) event( ) ;
  return __real_fopen( p , m ) ;
}
int __real_fclose( FILE *f ) ; int __wrap_fclose( FILE *f ) { event( ) ; return __real_fclose( f ) ; }
int __real_rename( const char *a , const char *b ) ; int __wrap_rename( const char *a , const char *b ) { event( ) ; return __real_rename( a , b ) ; }
int __real_remove( const char *a ) ; int __wrap_remove( const char *a ) { event( ) ; return __real_remove( a ) ; }

/* ---- the date written to file headers does not move */
#include <time.h>
time_t __wrap_time( time_t *t ) { if( t ) *t = 1700000000 ; return 1700000000 ; }

/* uniform deviates supplied by a harness instead of the generator */
double (*mcenv_draw)( uint32_t ) = NULL ;
double __real_par_rng_dbl( const uint32_t t ) ;
double _Complex (*mcenv_gauss)( unsigned t , double _Complex z ) = NULL ;
double _Complex __real_par_polar_box( const uint32_t t ) ;
double _Complex __wrap_par_polar_box( const uint32_t t ) { const double _Complex z = __real_par_polar_box( t ) ; return mcenv_gauss ? mcenv_gauss( t , z ) : z ; }
double __wrap_par_rng_dbl( const uint32_t t ) { return mcenv_draw ? mcenv_draw( t ) : __real_par_rng_dbl( t ) ; }
