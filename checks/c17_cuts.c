#pragma GCC diagnostic ignored "-Wmisleading-indentation"
/* C17: gluon correlators against naive Fourier sums of the documented definitions */
#include "fx.h"
#include "mc.h"
#include "be.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "CUT_wrap.h"
#include "SM_wrap.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <math.h>
#ifdef CUT_FORWARD
#define SGN -1
#else
#define SGN 1
#endif
#define NA ( NC*NC - 1 )
static char *only( int *c )
{ static char nm[ 300 ] ; DIR *d = opendir( "." ) ; struct dirent *e ; *c = 0 ; nm[0] = 0 ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) { snprintf( nm , sizeof( nm ) , "%s" , e->d_name ) ; (*c)++ ; } closedir( d ) ; return nm ; }
static void wipe( void ) { DIR *d = opendir( "." ) ; struct dirent *e ; while( ( e = readdir( d ) ) ) if( e->d_name[0] != '.' ) unlink( e->d_name ) ; closedir( d ) ; }
/* the gauge potentials of a field */
static cplx *potential( const cplx *U , int lg )
{ cplx *A = malloc( fxV*ND*NN*sizeof( cplx ) ) ; size_t i ; for( i = 0 ; i < fxV*ND ; i++ ) { if( lg ) m_log_unitary( A + i*NN , U + i*NN ) ; else m_herm_proj( A + i*NN , U + i*NN ) ; } return A ; }
/* A_mu(p) = e^{i p_mu/2} sum_x e^{ipx} A_mu(x); with t >= 0 only over the slice t and no temporal momentum */
static void transform( cplx *Ap , const cplx *A , const int n[ ND ] , int t )
{
  size_t i ; int mu , e ; double p[ ND ] ; for( mu = 0 ; mu < ND ; mu++ ) p[mu] = 2*M_PI*n[mu]/(double)Latt.dims[mu] ;
  memset( Ap , 0 , ND*NN*sizeof( cplx ) ) ;
  for( i = 0 ; i < fxV ; i++ ) { int x[ ND ] ; fx_coord( x , i ) ; if( t >= 0 && x[ ND-1 ] != t ) continue ; double a = 0 ; for( mu = 0 ; mu < ND - ( t >= 0 ) ; mu++ ) a += p[mu]*x[mu] ; const cplx ph = cexp( _Complex_I*SGN*a ) ; for( e = 0 ; e < ND*NN ; e++ ) Ap[e] += ph*A[ i*ND*NN + e ] ; }
  for( mu = 0 ; mu < ND - ( t >= 0 ) ; mu++ ) for( e = 0 ; e < NN ; e++ ) Ap[ mu*NN+e ] *= cexp( _Complex_I*SGN*p[mu]/2 ) ;
}
static double momenta( double *m , const int *n ) { int mu ; double s = 0 ; for( mu = 0 ; mu < ND ; mu++ ) { const double p = 2*M_PI*n[mu]/(double)Latt.dims[mu] ;
#ifdef PSQ_MOM
  m[mu] = p ;
#else
  m[mu] = 2*sin( p/2 ) ;
#endif
  s += m[mu]*m[mu] ; } return s < 1e-12 ? 1 : s ; }
static double trdag( const cplx *a , const cplx *b ) { cplx s = 0 ; int e ; for( e = 0 ; e < NN ; e++ ) s += a[e]*conj( b[e] ) ; return creal( s ) ; }
static cplx tr3( const cplx *a , const cplx *b , const cplx *c ) { cplx t[ NN ] ; m_mul( t , a , b ) ; return m_trab( t , c ) ; }
static int *nl ; static int nn ;
static int readlist( bef *f , int D , const char *w )
{
  int i , k ; nn = be_u32( f ) ; if( f->bad || nn < 0 || (size_t)nn > f->n/4 ) { mc_fail( "format" , "%s: the number of momenta (%d) does not fit into the file" , w , nn ) ; return 0 ; }
  nl = calloc( nn*ND + 1 , sizeof( int ) ) ;
  for( i = 0 ; i < nn ; i++ ) { const int d = be_u32( f ) ; if( d != D ) { mc_fail( "format" , "%s: momentum %d is introduced by %d, not %d" , w , i , d , D ) ; return 0 ; } for( k = 0 ; k < D ; k++ ) nl[ i*ND+k ] = (int32_t)be_u32( f ) ; }
  return 1 ;
}
static double *values( bef *f , int n , int per , const char *w )
{ int i ; const int c = be_u32( f ) ; if( c != n ) { mc_fail( "format" , "%s: %d values are announced for %d momenta" , w , c , n ) ; return NULL ; } double *v = malloc( ( n*per + 1 )*sizeof( double ) ) ; for( i = 0 ; i < n*per ; i++ ) v[i] = be_f64( f ) ; return v ; }
static int bad ;
static void cmp( double got , double want , double scale , const char *w , const char *what , const int *n )
{
  mc_trans( 1 ) ; if( fabs( got - want ) <= 1e-9*( scale + fabs( want ) ) || bad++ ) return ;
  char b[ 80 ] = "" ; int k ; for( k = 0 ; n && k < ND ; k++ ) sprintf( b + strlen( b ) , "%d " , n[k] ) ;
  mc_fail( what , "%s: %s at ( %s) is %.12g, the definition gives %.12g" , w , what , b , got , want ) ;
}
/* number of third-party vectors: all integer vectors n of the triplets with the same length */
static void triplets( bef *f , const cplx *A , const struct cut_info *C , const char *w )
{
  if( !readlist( f , ND , w ) ) return ; double *g2 = values( f , nn , 1 , w ) , *g3 = g2 ? values( f , nn , 1 , w ) : NULL ; int i , j , k , mu , nu , ro ;
  if( !g3 ) return ; 
  /* group the entries by first momentum: each must be a bijection onto the equal-length pairs */
  char *used = calloc( nn + 1 , 1 ) ; const int R = (int)sqrt( C->max_mom ) + 1 ; long combos = 1 , q , np = 0 ;
  for( k = 0 ; k < ND ; k++ ) combos *= 2*R+1 ;
  for( i = 0 ; i < nn ; i++ ) if( !used[i] ) {
    const int *p = nl + i*ND ; int psq = 0 , cnt = 0 , have = 0 ; for( k = 0 ; k < ND ; k++ ) psq += p[k]*p[k] ;
    double *w2 = NULL , *w3 = NULL ; cplx Ap[ ND*NN ] , Aq[ ND*NN ] , Ar[ ND*NN ] ; transform( Ap , A , p , -1 ) ;
    double pm[ ND ] , qm[ ND ] , rm[ ND ] ; const double P = momenta( pm , p ) ; int same = 1 ;
    for( q = 0 ; q < combos ; q++ ) {
      int v[ ND ] , u[ ND ] , s1 = 0 , s2 = 0 ; long c = q ; for( k = 0 ; k < ND ; k++ ) { v[k] = c%( 2*R+1 ) - R ; c /= 2*R+1 ; u[k] = -p[k]-v[k] ; s1 += v[k]*v[k] ; s2 += u[k]*u[k] ; }
      if( s1 != psq || s2 != psq ) continue ;
      transform( Aq , A , v , -1 ) ; transform( Ar , A , u , -1 ) ; const double Q = momenta( qm , v ) , S = momenta( rm , u ) ; if( fabs( Q - P ) + fabs( S - P ) > 1e-9 ) same = 0 ;
      double a = 0 , b = 0 ; for( mu = 0 ; mu < ND ; mu++ ) a += trdag( Ap + mu*NN , Ap + mu*NN ) + trdag( Aq + mu*NN , Aq + mu*NN ) + trdag( Ar + mu*NN , Ar + mu*NN ) ;
#define D(x,y) ( (x)==(y) )
      for( mu = 0 ; mu < ND ; mu++ ) for( nu = 0 ; nu < ND ; nu++ ) for( ro = 0 ; ro < ND ; ro++ ) {
	const double pr = ( 2*D(mu,nu)*( qm[ro]-pm[ro] ) - D(nu,ro)*( 4*qm[mu]+5*pm[mu] ) + D(ro,mu)*( 5*qm[nu]+4*pm[nu] )
	  + 2/P*( pm[mu]*qm[ro]*( qm[nu]-pm[nu] ) + qm[nu]*pm[ro]*( qm[mu]-pm[mu] ) ) + 4/P*( pm[nu]*pm[ro]*( qm[mu]+pm[mu] ) - qm[mu]*qm[ro]*( qm[nu]+pm[nu] ) ) )/( 18.*( ND-2 )*P ) ;
	b += pr*creal( tr3( Ap + mu*NN , Aq + nu*NN , Ar + ro*NN ) ) ; }
      w2 = realloc( w2 , ( cnt+1 )*sizeof( double ) ) ; w3 = realloc( w3 , ( cnt+1 )*sizeof( double ) ) ;
      w2[cnt] = a*2./( 3.*NA*( ND-1 )*fxV ) ; w3[cnt++] = -SGN*b*4./( (double)fxV*NC*NA ) ; np++ ;
    }
    for( j = i ; j < nn ; j++ ) if( !used[j] && !memcmp( nl + j*ND , p , ND*sizeof( int ) ) ) { used[j] = 1 ; have++ ; int best = -1 ; double bd = 1e300 ;
      for( k = 0 ; k < cnt ; k++ ) if( w2[k] > -1e200 ) { const double d = fabs( w2[k]-g2[j] ) + ( same ? fabs( w3[k]-g3[j] ) : 0 ) ; if( d < bd ) { bd = d ; best = k ; } }
      if( best >= 0 ) { cmp( g2[j] , w2[best] , 1 , w , "two-point function" , p ) ; if( same ) cmp( g3[j] , w3[best] , 1 , w , "three-point function" , p ) ; w2[best] = -1e300 ; } }
    if( have != cnt && !bad++ ) mc_fail( "triplets" , "%s: %d triplets start with the momentum of entry %d, %d exist" , w , have , i , cnt ) ;
    free( w2 ) ; free( w3 ) ;
  }
  mc_sample( "%s: %d triplets compared with %ld" , w , nn , np ) ; free( used ) ; free( g2 ) ; free( g3 ) ;
}
static void one( int mode , int lg , int type , size_t mx , int sm , int kind , int uneven )
{
  char w[ 200 ] ; struct cut_info C ; struct sm_info S ; cplx *U = fx_field( kind , 3 ) ; int c , i , mu , k , s ; memset( &C , 0 , sizeof( C ) ) ; memset( &S , 0 , sizeof( S ) ) ; (void)uneven ;
  C.dir = mode ; C.type = type ; C.max_mom = mx ; C.max_t = 1 ; C.definition = lg ? LOG_DEF : LINEAR_DEF ; C.angle = 45 ; C.cyl_width = 1.5 ; strcpy( C.where , "./" ) ;
  S.type = sm ? SM_STOUT : SM_NOSMEARING ; S.dir = ALL_DIRECTIONS ; S.smiters = sm ; for( i = 0 ; i < ND-1 ; i++ ) Latt.sm_alpha[i] = 0.1 ; Latt.flow = 7 ;
  static const char *mn[] = { "exceptional" , "nonexceptional" , "fields" , "smeared" , "instantaneous" , "configspace" , "gluonprops" } , *cn[] = { "hypercubic" , "psq" , "cylinder" , "cone" } ; 
  snprintf( w , sizeof( w ) , "%s %s %s max=%zu smearing=%d field=%s" , mn[ mode - EXCEPTIONAL ] , lg ? "log" : "linear" , cn[ type - HYPERCUBIC_CUT ] , mx , sm , fx_kindname[ kind ] ) ; mc_progress( "%s" , w ) ;
  wipe( ) ; struct site *lat = fx_lat( U ) ; mc_traces( 1 ) ; mc_states( 1 ) ; bad = 0 ;
  if( mode == CONFIGSPACE_GLUONS || mode == SMEARED_GLUONS ) { /* what the smearing makes of the field */ }
  s = cuts_wrap_struct( lat , C , S ) ; free_lat( lat ) ; mc_distinct( mc_hash( w , strlen( w ) , 0 ) ) ;
  char *nm = only( &c ) ;
#ifndef HAVE_FFTW3_H
  if( mode != CONFIGSPACE_GLUONS ) { if( s == GLU_SUCCESS || c ) mc_fail( "unsupported" , "%s: status %d and %d files without Fourier transforms" , w , s , c ) ; free( U ) ; return ; }
#endif
  if( mode == NONEXCEPTIONAL && s == GLU_FAILURE ) { /* some triplet may lie outside the list, not when every vector fits */
    size_t L = Latt.dims[0] ; for( i = 1 ; i < ND ; i++ ) if( Latt.dims[i] < L ) L = Latt.dims[i] ;
    if( mx && 2*sqrt( mx ) < L ) mc_fail( "status" , "%s: reports failure although all vectors lie inside the zone" , w ) ;
    mc_distinct( 1 ) ; free( U ) ; return ; }
  if( s != GLU_SUCCESS ) { mc_fail( "status" , "%s: reports failure" , w ) ; free( U ) ; return ; }
  if( c != 1 ) { mc_fail( "file" , "%s: %d output files" , w , c ) ; free( U ) ; return ; }
  bef f ; be_open( &f , nm ) ; cplx *A = potential( U , lg ) , Ap[ ND*NN ] ; nl = NULL ;
  const double n2 = 2./( NA*( ND-1. )*fxV ) , n0 = 2./( NA*(double)ND*fxV ) , n1 = 2./( NA*(double)fxV ) ;
  if( mode == CONFIGSPACE_GLUONS || ( mode == SMEARED_GLUONS && sm ) ) {
    /* the smearing itself is the subject of C13 */
    struct site *l2 = fx_lat( U ) ; SM_wrap_struct( l2 , S ) ; cplx *V = fx_get( l2 ) ; free_lat( l2 ) ; cplx *B = potential( V , lg ) ; free( V ) ;
    if( mode == CONFIGSPACE_GLUONS ) {
      const int T = Latt.dims[ ND-1 ] , n = be_u32( &f ) ; int t ; size_t x , y ; if( n != T ) mc_fail( "format" , "%s: %d separations, not %d" , w , n , T ) ;
      else { for( t = 0 ; t < T ; t++ ) if( (int)be_u32( &f ) != t ) { mc_fail( "format" , "%s: separation %d is not listed" , w , t ) ; break ; }
	double *v = values( &f , T , 1 , w ) ; const size_t S3 = fxV/T ;
	if( v ) for( t = 0 ; t < T ; t++ ) { double g = 0 ; int ta ; for( ta = 0 ; ta < T ; ta++ ) for( mu = 0 ; mu < ND ; mu++ ) { cplx a[ NN ] , b[ NN ] ; m_zero( a ) ; m_zero( b ) ; for( x = 0 ; x < S3 ; x++ ) { m_add( a , L( B , x + S3*ta , mu ) ) ; m_add( b , L( B , x + S3*( ( ta+t )%T ) , mu ) ) ; } g += creal( m_trab( a , b ) ) ; } (void)y ; cmp( v[t] , g*n2 , 1 , w , "configuration-space correlator" , NULL ) ; }
	free( v ) ; }
      free( A ) ; A = NULL ;
    } else if( readlist( &f , ND , w ) ) {
      double *v[2] ; for( k = 0 ; k < 2 ; k++ ) { v[k] = values( &f , nn , 1 , w ) ; if( v[k] ) for( i = 0 ; i < nn ; i++ ) { const int *n = nl + i*ND ; double m[ ND ] , a = 0 , l = 0 ; const double P = momenta( m , n ) ; int nu , z = 1 ; transform( Ap , k ? B : A , n , -1 ) ; for( mu = 0 ; mu < ND ; mu++ ) { if( n[mu] ) z = 0 ; for( nu = 0 ; nu < ND ; nu++ ) { const double r = trdag( Ap + mu*NN , Ap + nu*NN ) ; if( mu == nu ) a += r ; l += m[mu]*m[nu]/P*r ; } } cmp( v[k][i] , ( a-l )*( z ? n0 : n2 ) , 1 , w , k ? "smeared propagator" : "unsmeared propagator" , n ) ; } }
      free( v[0] ) ; free( v[1] ) ;
    }
    free( B ) ;
  } else if( mode == NONEXCEPTIONAL ) triplets( &f , A , &C , w ) ;
  else if( mode == INSTANTANEOUS_GLUONS ) {
    if( readlist( &f , ND-1 , w ) ) { double *v = values( &f , nn , 1 , w ) , *u = values( &f , nn , 1 , w ) ;
      if( v && u ) for( i = 0 ; i < nn ; i++ ) { const int *n = nl + i*ND ; double sp = 0 , te = 0 ; int t , z = 1 ; for( k = 0 ; k < ND-1 ; k++ ) if( n[k] ) z = 0 ;
	for( t = 0 ; t < (int)Latt.dims[ ND-1 ] ; t++ ) { transform( Ap , A , n , t ) ; for( mu = 0 ; mu < ND ; mu++ ) *( mu < ND-1 ? &sp : &te ) += trdag( Ap + mu*NN , Ap + mu*NN ) ; }
	const double nm = n1/( z ? ND-1 : ND-2 ) ; cmp( v[i] , sp*nm , 1 , w , "spatial propagator" , n ) ; cmp( u[i] , te*nm , 1 , w , "temporal propagator" , n ) ; }
      free( v ) ; free( u ) ; }
  } else if( readlist( &f , ND , w ) ) {
    if( mode == FIELDS ) {
      double *v = values( &f , nn , 2*ND*NN , w ) ; if( v ) for( i = 0 ; i < nn ; i++ ) { transform( Ap , A , nl + i*ND , -1 ) ; for( k = 0 ; k < 2*ND*NN ; k++ ) cmp( v[ i*2*ND*NN + k ] , k%2 ? cimag( Ap[k/2] ) : creal( Ap[k/2] ) , 1 , w , "field" , nl + i*ND ) ; } free( v ) ;
    } else {
      double *v = values( &f , nn , 1 , w ) , *u = values( &f , nn , 1 , w ) ; cplx A0[ ND*NN ] ; int z0[ ND ] ; memset( z0 , 0 , sizeof( z0 ) ) ; transform( A0 , A , z0 , -1 ) ;
      if( v && u ) for( i = 0 ; i < nn ; i++ ) {
	const int *n = nl + i*ND ; double m[ ND ] , a = 0 , l = 0 ; const double P = momenta( m , n ) ; int nu , ro , z = 1 ; for( k = 0 ; k < ND ; k++ ) if( n[k] ) z = 0 ;
	transform( Ap , A , n , -1 ) ; double g3 = 0 ;
	for( mu = 0 ; mu < ND ; mu++ ) for( nu = 0 ; nu < ND ; nu++ ) {
	  const double r = trdag( Ap + mu*NN , Ap + nu*NN ) ; if( mu == nu ) a += r ; l += m[mu]*m[nu]/P*r ;
	  if( mode == EXCEPTIONAL ) { cplx d[ NN ] ; m_dag( d , Ap + nu*NN ) ; for( ro = 0 ; ro < ND ; ro++ ) g3 += m[ro]/P*( ( mu == nu ) - m[mu]*m[nu]/P )*creal( tr3( Ap + mu*NN , d , A0 + ro*NN ) ) ; } }
	if( mode == EXCEPTIONAL ) { cmp( v[i] , a*( z ? n0 : n2 ) , 1 , w , "two-point function" , n ) ; cmp( u[i] , g3*4./( 2.*NC*NA*( ND-1 )*fxV ) , 1 , w , "three-point function" , n ) ; }
	else if( mode == GLUON_PROPS ) { cmp( v[i] , ( a-l )*( z ? n0 : n2 ) , 1 , w , "transverse propagator" , n ) ; cmp( u[i] , l*n1 , 1 , w , "longitudinal propagator" , n ) ; }
	else cmp( v[i] , ( a-l )*( z ? n0 : n2 ) , 1 , w , "unsmeared propagator" , n ) , cmp( u[i] , ( a-l )*( z ? n0 : n2 ) , 1 , w , "smeared propagator" , n ) ;
      }
      free( v ) ; free( u ) ;
    }
  }
  if( !mc_nfail( ) && !be_close( &f ) ) mc_fail( "format" , "%s: the file is longer or shorter than it says" , w ) ;
  free( nl ) ; nl = NULL ; free( A ) ; free( U ) ;
}
int main( int argc , char **argv )
{
  size_t *sh ; int ns , i , T , mode ; static const size_t ext[] = { 2 , 3 , 4 , 5 } ;
  mc_init( argc , argv , "C17" , "cuts" ) ; mc_timeout( 300 ) ; attach_GLU( ) ;
  ns = fx_shapes( &sh , ext , 4 , mc_thorough( ) ? 200 : ND == 4 ? 100 : 64 ) ; ns = fx_long( &sh , ns , 2 , mc_thorough( ) ? 270 : ND == 4 ? 80 : 70 ) ;
  for( mode = EXCEPTIONAL ; mode <= GLUON_PROPS ; mode++ ) for( i = 0 ; i < ns ; i++ ) for( T = 1 ; T <= 3 ; T += 2 ) {
    fx_dims( sh + i*ND ) ; char d[ 64 ] ; snprintf( d , 64 , "%s" , fx_dimstr( ) ) ; const size_t V = fxV ; fx_undims( ) ;
    static const char *mn[] = { "exceptional" , "nonexceptional" , "fields" , "smeared" , "instantaneous" , "configspace" , "gluonprops" } ;
    if( T == 3 && i%3 ) continue ; (void)V ;
    if( !mc_begin( "%s %s threads=%d" , mn[ mode - EXCEPTIONAL ] , d , T ) ) continue ;
    int lg , ty , k , sm ; size_t mx ; chdir( mc_scratch( ) ) ; mcomp_config( T , T > 1 ? POL_HIGH : POL_RR ) ; fx_dims( sh + i*ND ) ;
    for( lg = 0 ; lg < 2 ; lg++ ) for( k = F_WEAK ; k <= F_MED ; k++ ) for( ty = HYPERCUBIC_CUT ; ty <= CYLINDER_AND_CONICAL_CUT ; ty++ ) for( mx = 0 ; mx <= ( mode == NONEXCEPTIONAL ? 5 : 9 ) ; mx = mx < 2 ? mx+1 : mx+2 ) for( sm = 0 ; sm < 3 ; sm++ ) {
      /* a single logarithm: random links reach the branch cut */
      if( k == F_HOT && lg ) continue ;
      if( mode != SMEARED_GLUONS && mode != CONFIGSPACE_GLUONS && sm ) continue ;
      if( ( mode == CONFIGSPACE_GLUONS || mode == NONEXCEPTIONAL ) && ty != PSQ_CUT ) continue ;
      if( mode == CONFIGSPACE_GLUONS && mx > 1 ) continue ;
      if( !mc_thorough( ) && ( ( mx + k + ty + lg + i + sm )%3 ) ) continue ;
      one( mode , lg , ty , mx , sm , k , 0 ) ;
    }
    mc_end( ) ;
  }
  return mc_finish( ) ;
}
