/* extra interposition for the instrumented build: bulk memory functions and FFTs */
#define _GNU_SOURCE
#include "mcomp.h"
#include <string.h>
#include <stdint.h>
#include <complex.h>
#ifdef HAVE_FFTW3_H
#include <fftw3.h>
#endif
void mcomp_range( const void *a , size_t n , int w , uintptr_t pc ) ;
#define PC ((uintptr_t)__builtin_return_address(0))
void *__real_memcpy( void * , const void * , size_t ) ;
void *__real_memmove( void * , const void * , size_t ) ;
void *__real_memset( void * , int , size_t ) ;
void *__wrap_memcpy( void *d , const void *s , size_t n ) { mcomp_range( s , n , 0 , PC ) ; mcomp_range( d , n , 1 , PC ) ; return __real_memcpy( d , s , n ) ; }
void *__wrap_memmove( void *d , const void *s , size_t n ) { mcomp_range( s , n , 0 , PC ) ; mcomp_range( d , n , 1 , PC ) ; return __real_memmove( d , s , n ) ; }
void *__wrap_memset( void *d , int c , size_t n ) { mcomp_range( d , n , 1 , PC ) ; return __real_memset( d , c , n ) ; }
#ifdef HAVE_FFTW3_H
#define NPL 4096
static struct { fftw_plan p ; void *in , *out ; size_t n ; } pl[ NPL ] ;
static int npl = 0 ;
fftw_plan __real_fftw_plan_dft( int , const int * , fftw_complex * , fftw_complex * , int , unsigned ) ;
fftw_plan __wrap_fftw_plan_dft( int r , const int *n , fftw_complex *in , fftw_complex *out , int s , unsigned f )
{
  fftw_plan p = __real_fftw_plan_dft( r , n , in , out , s , f ) ;
  size_t v = 1 ; int i ; for( i = 0 ; i < r ; i++ ) v *= n[i] ;
  pl[npl].p = p ; pl[npl].in = in ; pl[npl].out = out ; pl[npl].n = v*sizeof( fftw_complex ) ; npl = ( npl + 1 ) % NPL ;
  return p ;
}
void __real_fftw_execute( const fftw_plan ) ;
void __wrap_fftw_execute( const fftw_plan p )
{
  int i ;
  for( i = NPL-1 ; i >= 0 ; i-- ) if( pl[i].p == p ) {
      mcomp_range( pl[i].in , pl[i].n , 0 , PC ) ; mcomp_range( pl[i].out , pl[i].n , 1 , PC ) ; break ;
    }
  __real_fftw_execute( p ) ;
}
#endif
