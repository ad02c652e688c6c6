#pragma GCC diagnostic ignored "-Wmisleading-indentation"
/* C18: quenched U(1): phases, couplings, propagator of the field, reported observables */
#include "fx.h"
#include "mc.h"
#include "GLUlib_wrap.h"
#include "SUNCxU1_config.h"
#include "par_rng.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static struct u1_info info( double a , double q , int m ) { struct u1_info u ; u.alpha = a ; u.charge = q ; u.meas = m ; return u ; }
/* alpha such that e = 2^-7 : the angles can be read back from the phases */
static const double SMALL = 1.0/( 16384.*4.*M_PI ) ;
#define ESM ( 1.0/128. )

/* the non-compact field, from the phases on a unit field */
static double *angles( const char *w )
{
  cplx *U = fx_field( F_COLD , 1 ) ; struct site *lat = fx_lat( U ) ; size_t i ; int mu , a ; double worst = 0 , wu = 0 ;
  double *th = malloc( fxV*ND*sizeof( double ) ) ;
  free_par_rng( ) ; const int s = suNC_cross_u1( lat , info( SMALL , 1.0 , U1_PLAQUETTE ) ) ; mc_trans( 1 ) ;
  if( s != GLU_SUCCESS ) mc_fail( "status" , "%s: attaching a U(1) field reports failure" , w ) ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
    const cplx z = lat[i].O[mu][0] ; th[ i*ND + mu ] = carg( z )/ESM ; const double u = fabs( cabs( z ) - 1 ) ; if( !( u < wu ) ) wu = u ;
    for( a = 0 ; a < NN ; a++ ) { const double d = cabs( lat[i].O[mu][a] - ( a%( NC+1 ) ? 0 : z ) ) ; if( !( d <= worst ) ) worst = d ; }
  }
  if( !( worst < 1e-13 && wu < 1e-13 ) ) mc_fail( "phase" , "%s: a unit link becomes something else than a phase (deviations %g and %g)" , w , worst , wu ) ;
  free_lat( lat ) ; free( U ) ; return th ;
}
static double face( const double *th , size_t i , int m , int n ) { return th[ i*ND+m ] + th[ fx_up(i,m)*ND+n ] - th[ fx_up(i,n)*ND+m ] - th[ i*ND+n ] ; }
static int wind( double t ) { return (int)( t/( 2*M_PI ) ) ; }
static int parity( int a , int b , int c , int d ) { int p[4] = { a , b , c , d } , i , j , s = 1 ; for( i = 0 ; i < 4 ; i++ ) for( j = i+1 ; j < 4 ; j++ ) if( p[i] > p[j] ) s = -s ; return s ; }
static double after( const char *o , const char *lab , int *ok ) { const char *p = strstr( o , lab ) ; double v = 0 ; *ok = p && sscanf( p + strlen( lab ) , "%lf" , &v ) == 1 ; return v ; }
static void cmp( const char *o , const char *sec , const char *lab , double want , double tol , const char *w )
{
  int ok ; const char *s = strstr( o , sec ) ; const double v = s ? after( s , lab , &ok ) : ( ok = 0 , 0. ) ; mc_trans( 1 ) ;
  if( !ok ) mc_fail( "report" , "%s: '%s %s' is not reported" , w , sec , lab ) ;
  else if( !( fabs( v - want ) <= tol ) ) mc_fail( "report" , "%s: %s %s is reported as %.8g, the field has %.8g" , w , sec , lab , v , want ) ;
}
static void observed( const char *o , const double *th , int meas , const char *w )
{
  size_t i ; int m , n ; double p = 0 , c = 0 , r = 0 , rc = 0 , sum = 0 ; const double np = fxV*ND*( ND-1 )/2. ;
  for( i = 0 ; i < fxV ; i++ ) for( m = 0 ; m < ND ; m++ ) { sum += th[ i*ND+m ] ; for( n = 0 ; n < m ; n++ ) {
    const double f = face( th , i , m , n ) , f1 = f + face( th , fx_up(i,m) , m , n ) , f2 = f + face( th , fx_up(i,n) , m , n ) ;
    p += f*f ; c += cos( f ) ; r += f1*f1 + f2*f2 ; rc += cos( f1 ) + cos( f2 ) ;
  } }
  cmp( o , "Norm U" , "(should be zero)" , fabs( sum )/sqrt( fxV ) , 1e-8 , w ) ;
  if( !( fabs( sum )/sqrt( fxV ) < 1e-8 ) ) mc_fail( "zero mode" , "%s: the field has a zero mode %g" , w , sum ) ;
  cmp( o , "[U(1)] Plaquettes" , "[NON-COMPACT]" , p/np , 1e-6*( 1 + p/np ) , w ) ; cmp( o , "[U(1)] Plaquettes" , "[COMPACT]" , c/np , 2e-6 , w ) ;
  if( meas == U1_RECTANGLE ) { cmp( o , "[U(1)] Rectangle" , "[NON-COMPACT]" , r/np/2 , 1e-6*( 1 + r/np ) , w ) ; cmp( o , "[U(1)] Rectangle" , "[COMPACT]" , rc/np/2 , 2e-6 , w ) ; }
  if( meas == U1_TOPOLOGICAL && ND == 4 ) {
    double q = 0 , aq = 0 ; long sheet = 0 , mono = 0 ; int mu ;
    for( i = 0 ; i < fxV ; i++ ) {
      const double a = face( th,i,0,1 )*face( th,i,2,3 ) , b = face( th,i,0,2 )*face( th,i,3,1 ) , d = face( th,i,0,3 )*face( th,i,1,2 ) ; q += a+b+d ; aq += fabs( a )+fabs( b )+fabs( d ) ;
      for( m = 0 ; m < ND ; m++ ) for( n = 0 ; n < m ; n++ ) sheet += abs( wind( face( th,i,m,n ) ) ) ;
      for( mu = 0 ; mu < ND ; mu++ ) { int M = 0 , nu , ro , si ;
	for( nu = 0 ; nu < ND ; nu++ ) for( ro = 0 ; ro < ND ; ro++ ) for( si = 0 ; si < ro ; si++ ) if( nu != mu && ro != mu && ro != nu && si != mu && si != nu )
	  M += parity( mu , nu , ro , si )*( wind( face( th , fx_up(i,nu) , ro , si ) ) - wind( face( th,i,ro,si ) ) ) ;
	mono += abs( M ) ; }
    }
    cmp( o , "[U(1)] Topological" , "[Monopole]" , mono , 0 , w ) ; cmp( o , "[U(1)] Topological" , "[Dirac_Sheet]" , sheet , 0 , w ) ;
    cmp( o , "[U(1)] Topological" , "[QTOP]" , q/( 64*M_PI*M_PI ) , 1e-5*fabs( q )/631 + 1e-11*( 1 + aq ) , w ) ;
  }
}
static double scale = 1 ;
static double _Complex scaled( unsigned t , double _Complex z ) { (void)t ; return scale*z ; }
/* one field, attached to every kind of links with every coupling, charge and measurement */
static void attach( double sc )
{
  static const double al[] = { 0 , 1e-3 , 0.0795774715459477 , 0.9 , 11. } , ch[] = { 1 , -1 , 0 , 2./3. , -1./3. , 4 } ;
  int a , c , m , k , mu , e ; size_t i , len ; char w[ 160 ] ; scale = sc ; mcenv_gauss = sc == 1 ? NULL : scaled ; Latt.Seed[0] = 321 ;
  double *th = angles( "unit field" ) ; double top = 0 ;
  for( i = 0 ; i < fxV*ND ; i++ ) if( fabs( th[i] ) > top ) top = fabs( th[i] ) ;
  if( fxV > Latt.dims[ ND-1 ] && !( top > 1e-3*sc ) ) mc_fail( "empty" , "the field vanishes (largest angle %g)" , top ) ;
  if( top*ESM > 3 ) mc_fail( "harness" , "angles too large to be read back" ) ;
  /* no spatial zero modes */
  for( mu = 0 ; mu < ND ; mu++ ) { size_t t ; const size_t S = fxV/Latt.dims[ ND-1 ] ; for( t = 0 ; t < Latt.dims[ ND-1 ] ; t++ ) { double s = 0 ; for( i = 0 ; i < S ; i++ ) s += th[ ( i + t*S )*ND + mu ] ; if( !( fabs( s ) < 1e-9*sc*S ) ) mc_fail( "zero mode" , "direction %d slice %zu: the field sums to %g" , mu , t , s ) ; } }
  for( k = 0 ; k < F_NKIND ; k++ ) for( a = 0 ; a < 5 ; a++ ) for( c = 0 ; c < 6 ; c++ ) for( m = U1_PLAQUETTE ; m <= U1_TOPOLOGICAL ; m++ ) {
    if( !mc_thorough( ) && ( k + a + c + m )%2 ) continue ;
    cplx *U = fx_field( k , 5 ) ; struct site *lat = fx_lat( U ) ; double worst = 0 ;
    snprintf( w , sizeof( w ) , "%s alpha=%g charge=%g measurement=%d" , fx_kindname[k] , al[a] , ch[c] , m ) ; mc_progress( "%s" , w ) ;
    mc_capture( ) ; free_par_rng( ) ; const int s = suNC_cross_u1( lat , info( al[a] , ch[c] , m ) ) ; char *o = mc_captured( &len ) ; mc_states( 1 ) ; mc_traces( 1 ) ;
    if( s != GLU_SUCCESS ) mc_fail( "status" , "%s: reports failure" , w ) ;
    const double eq = sqrt( 4*M_PI*al[a] )*ch[c] ;
    for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) { const cplx z = cexp( _Complex_I*eq*th[ i*ND + mu ] ) ; for( e = 0 ; e < NN ; e++ ) { const double d = cabs( lat[i].O[mu][e] - z*L(U,i,mu)[e] ) ; if( !( d <= worst ) ) worst = d ; } }
    if( !( worst < 1e-12 + 2e-12*fabs( eq )*sc ) ) mc_fail( "product" , "%s: the links differ from link times phase by %g" , w , worst ) ;
    observed( o , th , m , w ) ; mc_distinct( mc_hash( w , strlen( w ) , 0 ) ) ;
    free( o ) ; free_lat( lat ) ; free( U ) ;
  }
  mc_sample( "%s largest angle %.3f (scale %g)" , fx_dimstr( ) , top , sc ) ; free( th ) ; mcenv_gauss = NULL ;
}
/* ---- the field as a linear map of the noise */
static long ndraw , which ; static double _Complex unit ; static double _Complex *rec ; static long nrec ;
static double _Complex basis( unsigned t , double _Complex z ) { (void)t ; (void)z ; return ndraw++ == which ? unit : 0 ; }
static double _Complex keep( unsigned t , double _Complex z ) { (void)t ; if( ndraw < nrec ) rec[ ndraw ] = z ; ndraw++ ; return z ; }
static void propagator( void )
{
  const size_t n = fxV*ND ; size_t i , j ; long k ; int c , mu ; Latt.Seed[0] = 17 ;
  nrec = 4*n ; rec = calloc( nrec , sizeof( *rec ) ) ; ndraw = 0 ; mcenv_gauss = keep ; double *real = angles( "real noise" ) ; const long N = ndraw ;
  if( N == 0 || N > nrec ) { mc_cap( "%s: the noise is not drawn through par_polar_box" , fx_dimstr( ) ) ; return ; }
  double *cov = calloc( n*n , sizeof( double ) ) , *lin = calloc( n , sizeof( double ) ) ; mcenv_gauss = basis ;
  for( k = 0 ; k < N ; k++ ) for( c = 0 ; c < 2 ; c++ ) {
    which = k ; unit = c ? _Complex_I : 1 ; ndraw = 0 ; mc_progress( "draw %ld %s" , k , c ? "imaginary" : "real" ) ; double *R = angles( "unit noise" ) ; mc_states( 1 ) ; mc_traces( 1 ) ;
    if( ndraw != N ) mc_fail( "draws" , "%ld draws, then %ld" , N , ndraw ) ;
    const double z = c ? cimag( rec[k] ) : creal( rec[k] ) ;
    for( i = 0 ; i < n ; i++ ) { lin[i] += z*R[i] ; if( R[i] != 0 ) for( j = 0 ; j < n ; j++ ) cov[ i*n+j ] += 0.5*R[i]*R[j] ; }
    free( R ) ;
  }
  mcenv_gauss = NULL ; double wl = 0 , wc = 0 ; size_t bi = 0 , bj = 0 ; double bg = 0 , bw = 0 ;
  for( i = 0 ; i < n ; i++ ) { const double d = fabs( lin[i] - real[i] ) ; if( !( d <= wl ) ) wl = d ; }
  if( !( wl < 1e-9 ) ) mc_fail( "linear" , "the field is not the linear image of its noise (difference %g)" , wl ) ;
  /* Feynman gauge propagator without spatial zero modes */
  double *G = calloc( fxV , sizeof( double ) ) ; size_t p ;
  for( p = 0 ; p < fxV ; p++ ) { int q[ ND ] ; fx_coord( q , p ) ; double ph = 0 ; int z = 1 ; for( mu = 0 ; mu < ND ; mu++ ) { const double s = 2*sin( M_PI*q[mu]/Latt.dims[mu] ) ; ph += s*s ; if( mu < ND-1 && q[mu] ) z = 0 ; } if( z ) continue ;
    for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; double a = 0 ; for( mu = 0 ; mu < ND ; mu++ ) a += 2*M_PI*q[mu]*x[mu]/(double)Latt.dims[mu] ; G[i] += cos( a )/( ph*fxV ) ; } }
  for( i = 0 ; i < n ; i++ ) for( j = 0 ; j < n ; j++ ) {
    int x[ ND ] , y[ ND ] ; fx_coord( x , i/ND ) ; fx_coord( y , j/ND ) ; for( mu = 0 ; mu < ND ; mu++ ) x[mu] = ( x[mu] - y[mu] + (int)Latt.dims[mu] )%(int)Latt.dims[mu] ;
    const double w = i%ND == j%ND ? G[ fx_site( x ) ] : 0 , d = fabs( cov[ i*n+j ] - w ) ; if( !( d <= wc ) ) { wc = d ; bi = i ; bj = j ; bg = cov[ i*n+j ] ; bw = w ; }
  }
  if( !( wc < 1e-9 ) ) mc_fail( "propagator" , "%s: the noise average of theta[%zu]theta[%zu] is %.9g, the propagator is %.9g" , fx_dimstr( ) , bi , bj , bg , bw ) ;
  mc_trans( n*n ) ; mc_sample( "%s: %ld draws, propagator matrix of %zu elements" , fx_dimstr( ) , N , n*n ) ;
  free( G ) ; free( cov ) ; free( lin ) ; free( real ) ; free( rec ) ;
}
int main( int argc , char **argv )
{
  size_t *sh ; int ns , i , T , P ; static const size_t ext[] = { 2 , 3 , 4 , 5 , 6 } ;
  mc_init( argc , argv , "C18" , "u1" ) ; mc_timeout( 300 ) ; attach_GLU( ) ;
  ns = fx_few_shapes( &sh , mc_thorough( ) ? 2 : 1 ) ;
  for( i = 0 ; i < ns ; i++ ) for( T = 1 ; T <= 3 ; T++ ) for( P = 0 ; P < 2 ; P++ ) {
    if( T == 1 && P ) continue ;
    int sc ; for( sc = 1 ; sc <= 9 ; sc += 8 ) { fx_dims( sh + i*ND ) ; char d[ 64 ] ; snprintf( d , 64 , "%s" , fx_dimstr( ) ) ; fx_undims( ) ;
      if( mc_begin( "attach %s threads=%d schedule=%d scale=%d" , d , T , P , sc ) ) { mcomp_config( T , P ? POL_HIGH : POL_RR ) ; fx_dims( sh + i*ND ) ; attach( sc ) ; mc_end( ) ; } }
  }
  ns = fx_shapes( &sh , ext , 5 , mc_thorough( ) ? 130 : 54 ) ;
  for( i = 0 ; i < ns ; i++ ) { fx_dims( sh + i*ND ) ; char d[ 64 ] ; snprintf( d , 64 , "%s" , fx_dimstr( ) ) ; fx_undims( ) ;
    if( mc_begin( "propagator %s" , d ) ) { mcomp_config( 1 , POL_RR ) ; fx_dims( sh + i*ND ) ; propagator( ) ; mc_end( ) ; } }
  return mc_finish( ) ;
}
