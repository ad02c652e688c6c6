/* C13: every smearing equals its defining formula link by link.  The oracle
   evaluates the definition from scratch with its own matrix arithmetic; HYP,
   HEX and HYL are evaluated by recursion over the sets of excluded directions. */
#include "fx.h"
#include "mc.h"
#include "ops.h"
#include "GLUlib_wrap.h"
#include "SM_wrap.h"
#include "smear.h"
#include "HYP.h"
#include "ND_generic_HYP.h"
#include "mcomp.h"
#include "mcenv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

enum { K_APE , K_STOUT , K_LOG } ;
static double ap[ ND ] ; /* what the user asks for */
static double alpha( int l ) { return ap[l]/( 2.*( ND - l - 1 ) ) ; }
/* the special unitary matrix closest in direction: M ( M^dag M )^{-1/2} with the principal root of its determinant's phase divided out */
static void project_sun( cplx *V , const cplx *M )
{
  cplx H[ NN ] , v[ NN ] , R[ NN ] ; double ev[ NC ] ; int i , j , k ;
  m_muldb( H , M , M ) ; m_eig_herm( ev , v , H ) ; m_zero( R ) ;
  for( i = 0 ; i < NC ; i++ ) for( j = 0 ; j < NC ; j++ ) for( k = 0 ; k < NC ; k++ ) R[ i*NC+j ] += v[ i*NC+k ]*conj( v[ j*NC+k ] )/sqrt( ev[k] ) ;
  m_mul( V , M , R ) ; m_scale( V , cexp( -I*carg( m_det( V ) )/NC ) ) ;
}
/* one link from its staples; each staple separately */
static void fin( cplx *r , int kind , const cplx *u , const cplx *sum , const cplx *logs , double al , double om )
{
  cplx h[ NN ] ;
  switch( kind ) {
  case K_APE : m_cp( h , sum ) ; m_scale( h , al ) ; m_axpy( h , om , u ) ; project_sun( r , h ) ; break ;
  case K_STOUT : { cplx w[ NN ] ; m_mulad( w , sum , u ) ; m_herm_proj( h , w ) ; m_scale( h , al ) ; m_expi( w , h ) ; m_mul( r , w , u ) ; break ; }
  case K_LOG : { cplx w[ NN ] ; m_cp( h , logs ) ; m_scale( h , al ) ; m_expi( w , h ) ; m_mul( r , w , u ) ; break ; }
  }
}
static void addlog( cplx *logs , const cplx *st , const cplx *u )
{ cplx w[ NN ] , h[ NN ] ; m_mulad( w , st , u ) ; m_log_unitary( h , w ) ; m_add( logs , h ) ; }
/* simple smearing over directions 0..D-1 */
static cplx *ref_simple( const cplx *U , int kind , int D )
{
  cplx *R = fx_dup( U ) ; size_t i ; int mu , nu ;
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < D ; mu++ ) {
    cplx s[ NN ] , lg[ NN ] ; m_zero( s ) ; m_zero( lg ) ;
    for( nu = 0 ; nu < D ; nu++ ) if( nu != mu ) {
      cplx a[ NN ] , b[ NN ] ; const size_t d = fx_dn( i , nu ) ;
      m_mul( a , L(U,i,nu) , L(U,fx_up(i,nu),mu) ) ; m_mulad( a , a , L(U,fx_up(i,mu),nu) ) ;
      m_muldb( b , L(U,d,nu) , L(U,d,mu) ) ; m_mul( b , b , L(U,fx_up(d,mu),nu) ) ;
      m_add( s , a ) ; m_add( s , b ) ; if( kind == K_LOG ) { addlog( lg , a , L(U,i,mu) ) ; addlog( lg , b , L(U,i,mu) ) ; }
    }
    fin( L(R,i,mu) , kind , L(U,i,mu) , s , lg , alpha( 0 ) , 1 - ap[0] ) ;
  }
  return R ;
}
/* hypercubic: memo[ mask ] is a field of links rho not in mask, evaluated without staples in the directions of mask */
static cplx **memo ; static char **have ; static int hD ;
static const cplx *hyp( const cplx *U , int kind , size_t i , int rho , int mask )
{
  const size_t k = ( (size_t)i*ND + rho ) ; int jj , n = 1 ; size_t l ;
  for( jj = 0 ; jj < hD ; jj++ ) n += ( mask >> jj )&1 ;
  if( !have[ mask ][ k ] ) {
    cplx s[ NN ] , lg[ NN ] , r[ NN ] ; m_zero( s ) ; m_zero( lg ) ; const int thin = n == hD - 1 ;
    for( jj = 0 ; jj < hD ; jj++ ) {
      if( jj == rho || ( mask >> jj & 1 ) ) continue ;
      cplx a[ NN ] , b[ NN ] ; const size_t d = fx_dn( i , jj ) ;
#define VV(x,m) ( thin ? L(U,x,m) : hyp( U , kind , x , m , mask | 1 << ( ( m ) == jj ? rho : jj ) ) )
      m_mul( a , VV( i , jj ) , VV( fx_up(i,jj) , rho ) ) ; m_mulad( a , a , VV( fx_up(i,rho) , jj ) ) ;
      m_muldb( b , VV( d , jj ) , VV( d , rho ) ) ; m_mul( b , b , VV( fx_up(d,rho) , jj ) ) ;
      m_add( s , a ) ; m_add( s , b ) ; if( kind == K_LOG ) { addlog( lg , a , L(U,i,rho) ) ; addlog( lg , b , L(U,i,rho) ) ; }
    }
    fin( r , kind , L(U,i,rho) , s , lg , alpha( n-1 ) , 1 - ap[ n-1 ] ) ;
    for( l = 0 ; l < NN ; l++ ) memo[ mask ][ k*NN + l ] = r[l] ;
    have[ mask ][ k ] = 1 ;
  }
  return memo[ mask ] + k*NN ;
}
static cplx *ref_hyp( const cplx *U , int kind , int D )
{
  const int M = 1 << D ; int m , mu ; size_t i ; cplx *R = fx_dup( U ) ; hD = D ;
  memo = malloc( M*sizeof( cplx* ) ) ; have = malloc( M*sizeof( char* ) ) ;
  for( m = 0 ; m < M ; m++ ) { memo[m] = malloc( fxV*ND*NN*sizeof( cplx ) ) ; have[m] = calloc( fxV*ND , 1 ) ; }
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < D ; mu++ ) m_cp( L(R,i,mu) , hyp( U , kind , i , mu , 0 ) ) ;
  for( m = 0 ; m < M ; m++ ) { free( memo[m] ) ; free( have[m] ) ; }
  free( memo ) ; free( have ) ;
  return R ;
}
static const char *sname[] = { "APE" , "STOUT" , "LOG" , "HYP" , "HEX" , "HYL" } ;
static const int stype[] = { SM_APE , SM_STOUT , SM_LOG , SM_HYP , SM_HEX , SM_HYL } ;
static double tol( int kind , int iters ) { return kind == K_APE ? 1e-9*iters : kind == K_LOG ? 1e-8*iters : 1e-10*iters ; }
static double worst ;
static void run( const cplx *U , int t , int D , int iters , long long mem , const char *what )
{
  struct site *lat = fx_lat( U ) ; struct sm_info S ; int it , mu ; size_t i ; cplx *R = fx_dup( U ) , *N ;
  memset( &S , 0 , sizeof( S ) ) ; S.type = stype[t] ; S.dir = D ; S.smiters = iters ;
  for( mu = 0 ; mu < ND-1 ; mu++ ) Latt.sm_alpha[ mu ] = ap[ mu ] ;
  mcenv_membytes = mem ;
  const int st = SM_wrap_struct( lat , S ) ; mcenv_membytes = 1LL << 40 ; mc_trans( 1 ) ; mc_traces( 1 ) ;
  if( st != GLU_SUCCESS ) mc_fail( "status" , "%s: smearing reports failure" , what ) ;
  /* the reference starts each sweep from the library's convergence class: iterate the definition */
  for( it = 0 ; it < iters ; it++ ) { N = t < 3 ? ref_simple( R , t , D ) : ref_hyp( R , t-3 , D ) ; free( R ) ; R = N ; }
  for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) {
    cplx g[ NN ] ; int k ; for( k = 0 ; k < NN ; k++ ) g[k] = lat[i].O[mu][k] ;
    if( mu >= D || iters == 0 ) { if( memcmp( g , L(U,i,mu) , sizeof( g ) ) ) { mc_fail( "untouched" , "%s: link %d of site %zu is not to be smeared but changed" , what , mu , i ) ; i = fxV-1 ; break ; } continue ; }
    const double e = m_dist( g , L(R,i,mu) ) ; if( e > worst ) worst = e ;
    if( !( e <= tol( t%3 , iters ) ) ) { mc_fail( "formula" , "%s: link %d of site %zu is %g away from its definition" , what , mu , i , e ) ; i = fxV-1 ; break ; }
  }
  mc_states( fxV*ND ) ; mc_distinct( fx_hash( R ) ) ;
  free( R ) ; free_lat( lat ) ;
}
static void translate( int t , int kind , int D )
{
  cplx *U = fx_field( kind , 21 ) , *T = fx_dup( U ) , *A , *B ; int mu , nu ; size_t i ; struct sm_info S ; struct site *l ;
  memset( &S , 0 , sizeof( S ) ) ; S.type = stype[t] ; S.dir = D ; S.smiters = 1 ; for( mu = 0 ; mu < ND-1 ; mu++ ) Latt.sm_alpha[ mu ] = ap[ mu ] ;
  l = fx_lat( U ) ; SM_wrap_struct( l , S ) ; A = fx_get( l ) ; free_lat( l ) ;
  for( nu = 0 ; nu < ND ; nu++ ) {
    for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) m_cp( L(T,i,mu) , L(U,fx_up(i,nu),mu) ) ;
    l = fx_lat( T ) ; SM_wrap_struct( l , S ) ; B = fx_get( l ) ; free_lat( l ) ; mc_traces( 1 ) ; mc_trans( 1 ) ;
    for( i = 0 ; i < fxV ; i++ ) for( mu = 0 ; mu < ND ; mu++ ) if( !( m_dist( L(B,i,mu) , L(A,fx_up(i,nu),mu) ) < 1e-12 ) ) { mc_fail( "translation" , "%s: smearing of a field shifted in %d is not the shifted smearing (site %zu link %d)" , sname[t] , nu , i , mu ) ; i = fxV-1 ; break ; }
    free( B ) ;
  }
  free( A ) ; free( U ) ; free( T ) ;
}
int main( int argc , char **argv )
{
  mc_init( argc , argv , "C13" , "c13_smear" ) ; mc_timeout( 600 ) ; attach_GLU( ) ;
  static const double al[][ 4 ] = { { 0.75 , 0.6 , 0.3 , 0.2 } , { 0.2 , 0.45 , 0.7 , 0.1 } , { 0.5 , 0 , 0.4 , 0.3 } , { 0 , 0.5 , 0.3 , 0.3 } } ;
  size_t *sh ; const int ns = fx_few_shapes( &sh , mc_thorough( ) ? 2 : 2 ) ; int s , t , D , k , a , j , m ;
  mcomp_config( 1 , POL_RR ) ; mcenv_membytes = 1LL << 40 ;
  for( s = 0 ; s < ns ; s++ ) {
    char n[ 100 ] = "" ; int l = 0 , mu ; for( mu = 0 ; mu < ND ; mu++ ) l += sprintf( n + l , "%s%zu" , mu ? "x" : "" , sh[ s*ND + mu ] ) ;
    for( t = 0 ; t < 6 ; t++ ) for( D = ND-1 ; D <= ND ; D++ ) for( k = 0 ; k < F_NKIND ; k++ ) {
      const int kind = t%3 , slow = NC > 3 && kind != K_STOUT ;
      if( ND == 3 && D == 2 && t >= 3 ) continue ; /* two directions leave nothing to exclude: not offered */
      /* no unique projection, respectively logarithm */
      if( kind != K_STOUT && ( k == F_CENTER || k == F_HOT || k == F_DIAG ) ) continue ;
      if( kind == K_STOUT && k == F_CENTER && t == 4 ) continue ;
      if( s > 1 && slow && !mc_thorough( ) ) continue ;
      /* the answer to the memory probe is kept for the life of the process: one case per answer */
      for( m = 0 ; m < ( t >= 3 && D == ND && ND == 4 ? 3 : 1 ) ; m++ )
      if( mc_begin( "%s%s %s %s%s" , sname[t] , D == ND ? "" : "-spatial" , n , fx_kindname[k] , m == 0 ? "" : m == 1 ? " moderate memory" : " little memory" ) ) {
	mcomp_config( 1 + s%3 , POL_RR ) ; fx_dims( sh + s*ND ) ; cplx *U = fx_field( k , 17 ) ; char w[ 200 ] ;
	/* keep the plaquettes away from the branch point of the logarithm */
	if( kind == K_LOG && k == F_MED ) { uint64_t sd = 99 ; size_t i ; for( i = 0 ; i < fxV*ND ; i++ ) fx_su_near( U + i*NN , &sd , 0.18 ) ; }
	/* histories in one process: parameters and repetitions follow each other */
	for( a = 0 ; a < 4 && !mc_nfail( ) ; a++ ) {
	  for( j = 0 ; j < ND ; j++ ) ap[j] = al[a][j] ;
	  for( j = 0 ; j <= ( mc_thorough( ) ? 4 : slow ? 1 : a == 0 ? 3 : 1 ) && !mc_nfail( ) ; j++ ) {
	    snprintf( w , sizeof( w ) , "%s, %d directions, %d sweeps, alpha (%g,%g,%g)%s" , sname[t] , D , j , ap[0] , ap[1] , ap[2] , m == 0 ? "" : m == 1 ? ", moderate memory" : ", little memory" ) ; mc_progress( "%s" , w ) ;
	    run( U , t , D , j , m == 0 ? 1LL << 40 : m == 1 ? (long long)( 16.*ND*NN*7*fxV ) : 1 , w ) ;
	  }
	}
	mc_sample( "largest difference %.1e" , worst ) ;
	free( U ) ; fx_undims( ) ; mc_end( ) ;
      }
      /* many sweeps, each number of them */
      if( s == 0 && ( k == F_WEAK || k == F_MED ) && ( !slow || mc_thorough( ) ) && mc_begin( "sweeps %s%s %s %s" , sname[t] , D == ND ? "" : "-spatial" , n , fx_kindname[k] ) ) {
	mcomp_config( 2 , POL_LOW ) ; fx_dims( sh + s*ND ) ; cplx *U = fx_field( k , 19 ) ; char w[ 200 ] ; for( j = 0 ; j < ND ; j++ ) ap[j] = al[1][j] ;
	if( kind == K_LOG && k == F_MED ) { uint64_t sd = 99 ; size_t i ; for( i = 0 ; i < fxV*ND ; i++ ) fx_su_near( U + i*NN , &sd , 0.18 ) ; }
	for( j = 4 ; j <= ( mc_thorough( ) ? 40 : 17 ) && !mc_nfail( ) ; j++ ) { snprintf( w , sizeof( w ) , "%s, %d directions, %d sweeps" , sname[t] , D , j ) ; mc_progress( "%s" , w ) ; run( U , t , D , j , 1LL << 40 , w ) ; }
	mc_sample( "largest difference %.1e" , worst ) ; free( U ) ; fx_undims( ) ; mc_end( ) ;
      }
      if( k == F_MED && s < 4 && mc_begin( "translation %s%s %s" , sname[t] , D == ND ? "" : "-spatial" , n ) ) {
	for( j = 0 ; j < ND ; j++ ) ap[j] = al[0][j] ;
	mcomp_config( 2 , POL_RR ) ; fx_dims( sh + s*ND ) ; translate( t , k , D ) ; fx_undims( ) ; mc_end( ) ;
      }
    }
  }
  free( sh ) ;
  return mc_finish( ) ;
}
